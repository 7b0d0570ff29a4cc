package main

import (
	"fmt"
	"math"
	"math/rand"
	"sort"

	CF "github.com/ryanbressler/CloudForest"
	"github.com/ryanbressler/CloudForest/sortby"
)

// C16: sorting cases by value.

func init() {
	register(&Check{Prop: "C16", Quick: 120000, Thorough: 4000000,
		Rule:        "values (random, tied, sorted, organ pipes, saw teeth, infinities, denormals, signed zeros, and ones an adversary makes up to exhaust the depth of quick sort) with cases, some repeated, and a longer list of values are drawn from the seed and sorted; non trivial = at least eight values, distinct by the order of the values",
		Assumptions: []string{"no value is NaN"},
		Need:        []string{"values sorted", "adversarial values", "heap sorts of the harness' copy", "longer lists of values", "loaded and sorted", "with ties", "more than forty values"},
		Run:         c16})
}

// adversary makes up values while an introsort sorts them (McIlroy's killer for quick
// sort), so that sorting them again exhausts the allowed depth.
type adversary struct {
	val   []float64 // 0 while undecided
	solid float64
	cand  int
	gas   float64
	heaps int
	ids   []int
}

func (a *adversary) cmp(i, j int) int {
	x, y := a.ids[i], a.ids[j]
	if x == y {
		return 0
	}
	if a.val[x] == a.gas && a.val[y] == a.gas {
		a.solid++
		if x == a.cand {
			a.val[x] = a.solid
		} else {
			a.val[y] = a.solid
		}
	}
	if a.val[x] == a.gas {
		a.cand = x
	} else if a.val[y] == a.gas {
		a.cand = y
	}
	switch {
	case a.val[x] < a.val[y]:
		return -1
	case a.val[x] > a.val[y]:
		return 1
	}
	return 0
}

func (a *adversary) swap(i, j int) { a.ids[i], a.ids[j] = a.ids[j], a.ids[i] }

func (a *adversary) median(x, y, z int) {
	if a.cmp(y, x) < 0 {
		a.swap(y, x)
	}
	if a.cmp(z, y) < 0 {
		a.swap(z, y)
	}
	if a.cmp(y, x) < 0 {
		a.swap(y, x)
	}
}

func (a *adversary) quick(lo, hi, depth int) {
	for hi-lo > 7 {
		if depth == 0 {
			a.heaps++
			return
		}
		depth--
		m := lo + (hi-lo)/2
		if hi-lo > 40 {
			s := (hi - lo) / 8
			a.median(lo+s, lo, lo+2*s)
			a.median(m-s, m, m+s)
			a.median(hi-1-s, hi-1, hi-1-2*s)
		}
		a.median(m, lo, hi-1)
		b, c := lo+1, hi
		for {
			for b < c && a.cmp(b, lo) < 0 {
				b++
			}
			for b < c && a.cmp(lo, c-1) < 0 {
				c--
			}
			if b >= c {
				break
			}
			a.swap(b, c-1)
			b++
			c--
		}
		a.swap(lo, b-1)
		if b-1-lo < hi-b {
			a.quick(lo, b-1, depth)
			lo = b
		} else {
			a.quick(b, hi, depth)
			hi = b - 1
		}
	}
}

// killer is a list of n values that is hard to sort.
func killer(n int) ([]float64, int) {
	a := &adversary{val: make([]float64, n), gas: float64(n + 1), ids: make([]int, n)}
	for i := range a.ids {
		a.ids[i] = i
		a.val[i] = a.gas
	}
	depth := 0
	for i := n; i > 0; i >>= 1 {
		depth++
	}
	a.quick(0, n, 2*depth)
	for i := range a.val {
		if a.val[i] == a.gas {
			a.solid++
			a.val[i] = a.solid
		}
	}
	return a.val, a.heaps
}

func genVals(c *Ctx, r *rand.Rand, n int) []float64 {
	v := make([]float64, n)
	style := r.Intn(12)
	k := 1 + r.Intn(12)
	for i := range v {
		switch style {
		case 0:
			v[i] = r.NormFloat64()
		case 1:
			v[i] = float64(r.Intn(k))
		case 2:
			v[i] = float64(i)
		case 3:
			v[i] = float64(-i)
		case 4:
			v[i] = math.Min(float64(i), float64(n-i))
		case 5:
			v[i] = float64(i % k)
		case 6:
			v[i] = []float64{math.Inf(1), math.Inf(-1), 0, math.Copysign(0, -1), 5e-324, -5e-324, math.MaxFloat64, -math.MaxFloat64, 1}[r.Intn(9)]
		case 7:
			v[i] = 3
		case 8:
			v[i] = float64(i)
			if r.Intn(20) == 0 {
				v[i] = r.NormFloat64() * float64(n)
			}
		case 9:
			v[i] = math.Ldexp(1, r.Intn(2000)-1000)
		case 10:
			v[i] = math.Abs(float64(i - n/2))
		}
	}
	if style == 11 {
		var heaps int
		v, heaps = killer(n)
		c.Obs("adversarial values", n)
		c.Obs("heap sorts of the harness' copy", heaps)
		if r.Intn(3) == 0 { // ties
			for i := range v {
				v[i] = math.Floor(v[i] / 2)
			}
		}
	}
	return v
}

func c16(c *Ctx) {
	r := c.Rng
	n := r.Intn(12)
	switch r.Intn(8) {
	case 0, 1, 2:
		n = r.Intn(60)
	case 3, 4:
		n = r.Intn(300)
	case 5:
		n = r.Intn(1200)
	}
	if c.large(9973) {
		n = 66000 + r.Intn(50000)
	}
	v := genVals(c, r, n)
	type pair struct {
		bits uint64
		cs   int
	}
	if n > 40 {
		c.Obs("more than forty values", 1)
	}
	var cases []int
	var vals []float64
	more := 0
	if r.Intn(3) == 0 {
		// through the sorter training uses
		total := n + r.Intn(5)
		sf := &CF.SortableFeature{Vals: make([]float64, total)}
		data := make([]float64, n+3)
		at := r.Perm(n + 3)[:n]
		for i, p := range at {
			data[p] = v[i]
		}
		cases = append([]int{}, at...)
		before := append([]float64{}, data...)
		sf.Load(&data, &cases)
		for i := range cases {
			if sf.Vals[i] != v[i] {
				c.Fail("load", "value %d of %v is %v instead of %v", i, cases, sf.Vals[i], v[i])
			}
		}
		sf.Sort()
		for i := range data {
			if math.Float64bits(data[i]) != math.Float64bits(before[i]) {
				c.Fail("load", "sorting changes the data")
			}
		}
		if sf.Len() != n {
			c.Fail("load", "%d cases instead of %d", sf.Len(), n)
		}
		vals = sf.Vals
		want := map[pair]int{}
		for i, p := range at {
			want[pair{math.Float64bits(v[i]), p}]++
		}
		for i, p := range cases {
			want[pair{math.Float64bits(vals[i]), p}]--
			if math.Float64bits(data[p]) != math.Float64bits(vals[i]) {
				c.Fail("pairs", "case %d has value %v instead of %v", p, vals[i], data[p])
			}
		}
		for p, k := range want {
			if k != 0 {
				c.Fail("pairs", "case %d and its value occur %d times less", p.cs, k)
			}
		}
		c.Obs("loaded and sorted", 1)
	} else {
		cases = make([]int, n)
		style := r.Intn(3)
		for i := range cases {
			cases[i] = i
			if style == 1 {
				cases[i] = r.Intn(n)
			}
		}
		if style == 2 {
			cases = r.Perm(n)
		}
		if r.Intn(2) == 0 {
			more = 1 + r.Intn(20)
			c.Obs("longer lists of values", 1)
		}
		vals = append([]float64{}, v...)
		for i := 0; i < more; i++ {
			vals = append(vals, r.NormFloat64()*10)
		}
		tail := append([]float64{}, vals[n:]...)
		want := map[pair]int{}
		for i := range cases {
			want[pair{math.Float64bits(vals[i]), cases[i]}]++
		}
		sortby.SortBy(&cases, &vals)
		if len(cases) != n || len(vals) != n+more {
			c.Fail("length", "%d cases and %d values instead of %d and %d", len(cases), len(vals), n, n+more)
		}
		for i, x := range tail {
			if vals[n+i] != x {
				c.Fail("tail", "value %d beyond the cases is %v instead of %v", i, vals[n+i], x)
			}
		}
		for i, p := range cases {
			k := pair{math.Float64bits(vals[i]), p}
			want[k]--
			if want[k] < 0 {
				c.Fail("pairs", "case %d with value %v occurs too often in %v %v sorted from %v", p, vals[i], cases, vals, v)
			}
		}
	}
	ties := 0
	for i := 1; i < n; i++ {
		if vals[i] < vals[i-1] {
			c.Fail("order", "value %d is %v after %v, sorted from %v", i, vals[i], vals[i-1], v)
		}
		if vals[i] == vals[i-1] {
			ties++
		}
	}
	if ties > 0 {
		c.Obs("with ties", 1)
	}
	c.Obs("values sorted", n)
	if n >= 8 {
		o := make([]int, n)
		for i := range o {
			o[i] = i
		}
		sort.SliceStable(o, func(i, j int) bool { return v[o[i]] < v[o[j]] })
		c.Sig("%v", o)
		c.Sample("%d values, %d ties: %.300s", n, ties, fmt.Sprint(v))
	}
}
