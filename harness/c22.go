package main

import (
	"math"
	"math/rand"

	"github.com/ryanbressler/CloudForest/stats"
)

// C22: Welch's t test.

func init() {
	register(&Check{Prop: "C22", Quick: 60000, Thorough: 2000000,
		Rule:        "two samples (of different sizes, scales, offsets up to a million spreads, overlaps and ties) are drawn from the seed; the statistic, degrees of freedom and the tail of Student's distribution, integrated numerically by the harness, are compared with those reported; non trivial = both samples vary, distinct by the samples",
		Assumptions: []string{"samples have at least two values, not both are constant, and the degrees of freedom are below 200"},
		Need:        []string{"p values", "small p values", "large p values", "one constant sample", "large offsets", "swapped samples"},
		Run:         c22})
}

// tail is the probability that Student's t with v degrees of freedom exceeds x >= 0, by
// integrating its density over the angle atan(x/sqrt(v)).
func tail(x, v float64) float64 {
	a, _ := math.Lgamma((v + 1) / 2)
	b, _ := math.Lgamma(v / 2)
	k := math.Exp(a-b) / math.Sqrt(math.Pi)
	// density of the angle h is k cos(h)^(v-1); in the tail it is integrated from the angle
	// to a right angle in terms of what is missing to it: k sin(g)^(v-1) for g from 0 to
	// atan(sqrt(v)/x)
	top := math.Atan2(math.Sqrt(v), x)
	f := func(g float64) float64 {
		if g <= 0 {
			if v == 1 {
				return k
			}
			return 0
		}
		return k * math.Pow(math.Sin(g), v-1)
	}
	// substitute g = top*u^q, which is smooth at 0 for any v >= 1
	q := 1.0
	if v < 6 {
		q = 6 / v
	}
	h := func(u float64) float64 {
		if u <= 0 {
			return 0
		}
		g := top * math.Pow(u, q)
		return f(g) * top * q * math.Pow(u, q-1)
	}
	n := 2000
	s := h(0) + h(1)
	for i := 1; i < n; i++ {
		w := 2.0
		if i%2 == 1 {
			w = 4
		}
		s += w * h(float64(i)/float64(n))
	}
	return s / float64(n) / 3
}

func genSample(r *rand.Rand, n int, off, scale float64) []float64 {
	x := make([]float64, n)
	style := r.Intn(5)
	for i := range x {
		switch style {
		case 0:
			x[i] = float64(r.Intn(3))
		case 1:
			x[i] = 1
		case 2:
			x[i] = r.ExpFloat64()
		default:
			x[i] = r.NormFloat64()
		}
		x[i] = x[i]*scale + off
	}
	return x
}

func constant(x []float64) bool {
	for _, y := range x {
		if y != x[0] {
			return false
		}
	}
	return true
}

func variance(x []float64) (m, v float64) {
	for _, y := range x {
		m += y / float64(len(x))
	}
	for _, y := range x {
		v += (y - m) * (y - m) / float64(len(x)-1)
	}
	return
}

func c22(c *Ctx) {
	r := c.Rng
	scale := math.Ldexp(1, r.Intn(40)-20)
	off := 0.0
	switch r.Intn(3) {
	case 0:
		off = scale * r.NormFloat64() * 10
	case 1:
		off = scale * math.Pow(10, 6*r.Float64())
		c.Obs("large offsets", 1)
	}
	shift := scale * r.NormFloat64() * []float64{0, .3, 1, 5}[r.Intn(4)]
	rel := math.Pow(10, 2*r.Float64()-1)
	size := func() int {
		if r.Intn(3) == 0 {
			return 2 + r.Intn(5)
		}
		return 2 + r.Intn(80)
	}
	a := genSample(r, size(), off, scale)
	b := genSample(r, size(), off+shift, scale*rel)
	ma, va := variance(a)
	mb, vb := variance(b)
	na, nb := float64(len(a)), float64(len(b))
	if constant(a) && constant(b) {
		return
	}
	if constant(a) {
		va = 0
	}
	if constant(b) {
		vb = 0
	}
	if va == 0 || vb == 0 {
		c.Obs("one constant sample", 1)
	}
	sa, sb := va/na, vb/nb
	t := (ma - mb) / math.Sqrt(sa+sb)
	df := (sa + sb) * (sa + sb) / (sa*sa/(na-1) + sb*sb/(nb-1))
	if df > 200 {
		return
	}
	a2, b2 := append([]float64{}, a...), append([]float64{}, b...)
	c.Note("A %v\nB %v", a, b)
	p, tt, v, am := stats.Ttest(&a, &b)
	for i := range a {
		if a[i] != a2[i] {
			c.Fail("changed", "sample changes")
		}
	}
	for i := range b {
		if b[i] != b2[i] {
			c.Fail("changed", "sample changes")
		}
	}
	// differences of values a million spreads from zero lose six of sixteen digits
	loss := 1e-9 * (1 + math.Abs(off)/scale/math.Min(1, rel)/1e4)
	if math.Abs(am-ma) > 1e-12*(math.Abs(off)+100*scale*(1+rel)) {
		c.Fail("mean", "%v instead of %v", am, ma)
	}
	if math.Abs(tt-t) > loss*(1+math.Abs(t)) {
		c.Fail("t", "%v instead of %v", tt, t)
	}
	if math.Abs(v-df) > loss*df {
		c.Fail("df", "%v instead of %v", v, df)
	}
	want := tail(math.Abs(tt), v)
	c.Obs("p values", 1)
	what := "p values around a half"
	switch {
	case tt > 0 && want < 1e-6:
		what = "small p values"
	case tt < 0 && want < .1:
		what = "large p values"
	}
	c.Obs(what, 1)
	ok := false
	if tt > 0 {
		ok = math.Abs(p-want) <= 1e-6*want+1e-14
	} else {
		ok = math.Abs(p-(1-want)) <= 1e-9
		want = 1 - want
	}
	if !ok || p < 0 || p > 1 {
		c.Fail("p", "%v instead of %v for t %v with %v degrees of freedom", p, want, tt, v)
	}
	// the other way around
	p2, t2, v2, _ := stats.Ttest(&b, &a)
	c.Obs("swapped samples", 1)
	if math.Abs(p+p2-1) > 1e-9 || math.Abs(t2+tt) > 1e-9*(1+math.Abs(tt)) || math.Abs(v2-v) > 1e-9*v {
		c.Fail("swapped", "p %v t %v df %v, swapped p %v t %v df %v", p, tt, v, p2, t2, v2)
	}
	if va > 0 && vb > 0 {
		c.Sig("%v %v", a, b)
	}
	c.Sample("t %v df %v p %v harness %v", tt, v, p, want)
}
