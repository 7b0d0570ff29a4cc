package main

import (
	"encoding/json"
	"fmt"
	"math"
	"math/rand"
	"strconv"

	CF "github.com/ryanbressler/CloudForest"
)

// RefTarget is the harness' definition of a target: what its impurity is, how impure a
// split is and what it predicts, calculated from scratch out of the harness' data.
type RefTarget struct {
	Kind   string
	T      CF.Target
	Col    *Col
	Score  bool // splits have a score instead of a decrease of impurity
	Imp    func(cs []int) float64
	SplitF func(l, r, m []int) float64 // nil: size weighted mean of Imp
	Scale  float64                     // magnitude of the terms, for rounding
	Pred   func(cs []int, got string) string
	Args   []string // options of growforest that select the target
}

// Split is the impurity (or score) of a split.
func (t *RefTarget) Split(l, r, m []int) float64 {
	if t.SplitF != nil {
		return t.SplitF(l, r, m)
	}
	nl, nr, nm := float64(len(l)), float64(len(r)), float64(len(m))
	e := nl*t.Imp(l) + nr*t.Imp(r)
	if nm > 0 {
		e += nm * t.Imp(m)
	}
	return e / (nl + nr + nm)
}

// Decrease is the decrease of impurity (or the score) of a two way split.
func (t *RefTarget) Decrease(l, r []int) float64 {
	if t.Score {
		return t.Split(l, r, nil)
	}
	all := append(append([]int{}, l...), r...)
	return t.Imp(all) - t.Split(l, r, nil)
}

// Full is the decrease of impurity of a split with missing values on their own branch.
func (t *RefTarget) Full(l, r, m []int) float64 {
	if t.Score {
		return t.Split(l, r, nil) * float64(len(l)+len(r)) / float64(len(l)+len(r)+len(m))
	}
	all := append(append(append([]int{}, l...), r...), m...)
	return t.Imp(all) - t.Split(l, r, m)
}

func counts(c *Col, cs []int) []float64 {
	n := make([]float64, len(c.Cats))
	for _, i := range cs {
		if !c.Miss[i] {
			n[c.K[i]]++
		}
	}
	return n
}

func argmax(v []float64) int {
	m, mv := 0, 0.0
	for i, x := range v {
		if x > mv {
			m, mv = i, x
		}
	}
	return m
}

func meanOf(c *Col, cs []int) float64 {
	s, n := 0.0, 0.0
	for _, i := range cs {
		if !c.Miss[i] {
			s += c.V[i]
			n++
		}
	}
	return s / n
}

func sumv(v []float64) (s float64) {
	for _, x := range v {
		s += x
	}
	return
}

// predFloat checks a numerical prediction.
func predFloat(want, scale float64, got string) string {
	g, err := strconv.ParseFloat(got, 64)
	if err != nil || !near(g, want, scale) {
		return fmt.Sprintf("predicted %q instead of %v", got, want)
	}
	return ""
}

// predLabel checks that a label has the largest score of all labels.
func predLabel(c *Col, score []float64, got string) string {
	best := 0.0
	for _, s := range score {
		best = math.Max(best, s)
	}
	for j, l := range c.Cats {
		if l == got {
			if score[j] >= best-1e-9*(1+best) {
				return ""
			}
			return fmt.Sprintf("predicted %q which scores %v instead of one that scores %v (labels %v scores %v)", got, score[j], best, c.Cats, score)
		}
	}
	return fmt.Sprintf("predicted %q which isn't a label", got)
}

func maxAbs(v []float64) float64 {
	m := 0.0
	for _, x := range v {
		m = math.Max(m, math.Abs(x))
	}
	return m
}

func sse(c *Col, cs []int) float64 {
	if len(cs) == 0 {
		return 0
	}
	m := meanOf(c, cs)
	e := 0.0
	for _, i := range cs {
		e += (c.V[i] - m) * (c.V[i] - m)
	}
	return e
}

var numTargets = []string{"numeric", "numeric", "l1", "ordinal", "numadaboost", "gradboost"}
var catTargets = []string{"gini", "gini", "entropy", "regret", "wrf", "np", "dentropy", "adaboost", "adacost", "hellinger", "gradboostclass", "trans"}

func isNumKind(k string) bool {
	for _, s := range numTargets {
		if s == k {
			return true
		}
	}
	return k == "density"
}

// genTargetCol makes a column that suits a kind of target.
func genTargetCol(r *rand.Rand, kind string, n int, missing float64) *Col {
	if isNumKind(kind) {
		c := genNum(r, "N:target", n, missing)
		if kind == "ordinal" {
			for i := range c.V {
				c.V[i] = float64(r.Intn(5))
			}
		}
		return c
	}
	k := 2 + r.Intn(4)
	switch kind {
	case "hellinger", "gradboostclass":
		k = 2
	}
	c := genCat(r, "C:target", n, k, missing)
	if kind == "dentropy" {
		c.Cats[r.Intn(k)] = "True"
	}
	return c
}

func js(v interface{}) string {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	return string(b)
}

// makeTarget wraps the feature f, built from col, as a target of the kind.
func makeTarget(r *rand.Rand, kind string, col *Col, f CF.Feature, fm *CF.FeatureMatrix, t *Table) *RefTarget {
	rt := &RefTarget{Kind: kind, Col: col, Scale: 1}
	n := len(col.Miss)
	nonMissing := 0
	for _, m := range col.Miss {
		if !m {
			nonMissing++
		}
	}
	if col.Num {
		a := maxAbs(col.V)
		rt.Scale = a * a * float64(n) * float64(n)
		if kind != "numeric" && kind != "gradboost" {
			rt.Scale = a * a * float64(n)
		}
		rt.Imp = func(cs []int) float64 { return sse(col, cs) }
		rt.Pred = func(cs []int, got string) string { return predFloat(meanOf(col, cs), a, got) }
	} else {
		rt.Imp = func(cs []int) float64 {
			e := 1.0
			for _, x := range counts(col, cs) {
				p := x / float64(len(cs))
				e -= p * p
			}
			return e
		}
		rt.Pred = func(cs []int, got string) string { return predLabel(col, counts(col, cs), got) }
	}
	costs := map[string]float64{}
	cost := make([]float64, len(col.Cats))
	for j, s := range col.Cats {
		cost[j] = []float64{1, .5, 2, 3.5, 10}[r.Intn(5)]
		switch r.Intn(4) {
		case 0:
			cost[j] = []float64{.01, .1, .25, 40, 1000}[r.Intn(5)]
		case 1:
			cost[j] = math.Ceil(1000*r.ExpFloat64()) / 1000
		}
		costs[s] = cost[j]
	}
	weighted := func(cs []int) []float64 {
		v := counts(col, cs)
		for j := range v {
			v[j] *= cost[j]
		}
		return v
	}
	switch kind {
	case "numeric", "gini":
		rt.T = f.(CF.Target)
	case "l1":
		rt.Args = []string{"-l1"}
		rt.T = &CF.L1Target{NumFeature: f.(CF.NumFeature)}
		rt.Imp = func(cs []int) float64 {
			m, e := meanOf(col, cs), 0.0
			for _, i := range cs {
				e += math.Abs(col.V[i] - m)
			}
			return e / float64(len(cs))
		}
	case "ordinal":
		rt.Args = []string{"-ordinal"}
		rt.T = CF.NewOrdinalTarget(f.(CF.NumFeature))
		modes := func(cs []int) []float64 {
			n := map[float64]int{}
			best := 0
			for _, i := range cs {
				n[col.V[i]]++
				if n[col.V[i]] > best {
					best = n[col.V[i]]
				}
			}
			var ms []float64
			for v := 0.0; v < 50; v++ {
				if n[v] == best {
					ms = append(ms, v)
				}
			}
			return ms
		}
		mse := func(cs []int, m float64) float64 {
			e := 0.0
			for _, i := range cs {
				e += (col.V[i] - m) * (col.V[i] - m)
			}
			return e / float64(len(cs))
		}
		rt.Imp = func(cs []int) float64 { return mse(cs, modes(cs)[0]) }
		rt.Pred = func(cs []int, got string) string {
			ms := modes(cs)
			for _, m := range ms {
				if predFloat(m, 1, got) == "" {
					return ""
				}
			}
			return fmt.Sprintf("predicted %v, the most common values are %v", got, ms)
		}
	case "numadaboost":
		t := CF.NewNumAdaBoostTarget(f.(CF.NumFeature))
		for i := range t.Weights {
			if r.Intn(2) == 0 {
				t.Weights[i] = r.Float64()
			}
		}
		w := append([]float64{}, t.Weights...)
		rt.T = t
		rt.Imp = func(cs []int) float64 {
			m, e := meanOf(col, cs), 0.0
			for _, i := range cs {
				e += w[i] * math.Abs(col.V[i]-m)
			}
			return e
		}
	case "gradboost":
		rt.T = CF.NewGradBoostTarget(f.(CF.NumFeature), .1)
		// the residuals are what is split
		mean := 0.0
		for i := range col.V {
			if !col.Miss[i] {
				mean += col.V[i]
			}
		}
		mean /= float64(nonMissing)
		res := col.clone()
		for i := range res.V {
			res.V[i] -= mean
		}
		rt.friedman(res)
		rt.Pred = func(cs []int, got string) string { return predFloat(meanOf(res, cs), maxAbs(col.V), got) }
	case "gradboostclass":
		lab := r.Intn(2)
		pos := 0.0
		for i := range col.K {
			if !col.Miss[i] && col.K[i] == lab {
				pos++
			}
		}
		if pos == 0 || pos == float64(nonMissing) {
			return makeTarget(r, "gini", col, f, fm, t)
		}
		rt.T = CF.NewGradBoostClassTarget(f.(CF.CatFeature), .1, col.Cats[lab])
		res := &Col{Name: col.Name, Num: true, V: make([]float64, n), Miss: col.Miss}
		y := make([]float64, n)
		prior := pos / float64(nonMissing)
		for i := range res.V {
			if col.K[i] == lab {
				y[i] = 1
			}
			res.V[i] = y[i] - prior
		}
		rt.Scale = float64(n) * float64(n)
		rt.friedman(res)
		rt.Pred = func(cs []int, got string) string {
			num, den := 0.0, 0.0
			for _, i := range cs {
				num += res.V[i]
				den += (y[i] - res.V[i]) * (1 - y[i] + res.V[i])
			}
			return predFloat(num/den, 1+math.Abs(num/den), got)
		}
	case "entropy":
		rt.Args = []string{"-entropy"}
		rt.T = CF.NewEntropyTarget(f.(CF.CatFeature))
		rt.Imp = func(cs []int) float64 {
			e := 0.0
			for _, x := range counts(col, cs) {
				if p := x / float64(len(cs)); p > 0 {
					e -= p * math.Log(p)
				}
			}
			return e
		}
	case "regret":
		rt.Args = []string{"-cost", js(costs)}
		t := CF.NewRegretTarget(f.(CF.CatFeature))
		t.SetCosts(costs)
		rt.T = t
		rt.Imp = func(cs []int) float64 {
			v := weighted(cs)
			return (sumv(v) - v[argmax(v)]) / (2 * float64(len(cs)))
		}
		rt.Pred = func(cs []int, got string) string { return predLabel(col, weighted(cs), got) }
	case "wrf":
		rt.Args = []string{"-rfweights", js(costs)}
		rt.T = CF.NewWRFTarget(f.(CF.CatFeature), costs)
		rt.Imp = func(cs []int) float64 {
			v := weighted(cs)
			e, s := 1.0, sumv(v)
			for _, x := range v {
				e -= x * x / s / s
			}
			return e
		}
		rt.Pred = func(cs []int, got string) string { return predLabel(col, weighted(cs), got) }
	case "np":
		pos := r.Intn(len(col.Cats))
		alpha, kappa := []float64{.1, .3, .5, .8}[r.Intn(4)], []float64{1, 10, 100}[r.Intn(3)]
		rt.Args = []string{"-NP", "-NP_pos", col.Cats[pos], "-NP_a", fmt.Sprint(alpha), "-NP_k", fmt.Sprint(kappa)}
		rt.T = CF.NewNPTarget(f.(CF.CatFeature), col.Cats[pos], alpha, kappa)
		corr := func(cs []int) []float64 {
			v := counts(col, cs)
			v[pos] /= alpha
			return v
		}
		one := func(cs []int, win int) float64 {
			v := counts(col, cs)
			t := float64(len(cs))
			if win == pos {
				return kappa * math.Max((t-v[pos])/t-alpha, 0)
			}
			return v[pos] / t
		}
		rt.Scale = kappa
		rt.Imp = func(cs []int) float64 { return one(cs, argmax(corr(cs))) }
		rt.Pred = func(cs []int, got string) string { return predLabel(col, corr(cs), got) }
	case "dentropy":
		rt.Args = []string{"-dentropy", js(costs)}
		t := CF.NewDEntropyTarget(f.(CF.CatFeature))
		t.SetCosts(costs)
		rt.T = t
		rt.Scale = 10
		rt.Imp = func(cs []int) float64 {
			e := 0.0
			for j, x := range counts(col, cs) {
				if p := x / float64(len(cs)); p > 0 {
					e -= cost[j] * p * math.Log(p)
				}
			}
			return e
		}
		rt.Pred = func(cs []int, got string) string {
			v := weighted(cs)
			p := 0.0
			for j, s := range col.Cats {
				if s == "True" {
					p = v[j]
				}
			}
			return predFloat(p/sumv(v), 1, got)
		}
	case "adaboost", "adacost":
		w := make([]float64, n)
		for i := range w {
			w[i] = 1 / float64(n)
			if r.Intn(2) == 0 {
				w[i] = r.Float64() * 2 / float64(n)
			}
		}
		if kind == "adaboost" {
			t := CF.NewAdaBoostTarget(f.(CF.CatFeature))
			copy(t.Weights, w)
			rt.T = t
			for j := range cost {
				cost[j] = 1
			}
		} else {
			t := CF.NewAdaCostTarget(f.(CF.CatFeature))
			copy(t.Weights, w)
			t.SetCosts(costs)
			rt.T = t
		}
		rt.Scale = 10 * float64(n)
		rt.Imp = func(cs []int) float64 {
			m, e := argmax(counts(col, cs)), 0.0
			for _, i := range cs {
				if col.K[i] != m {
					e += w[i] * cost[col.K[i]]
				}
			}
			return e
		}
	case "hellinger":
		pos := r.Intn(2)
		rt.Args = []string{"-hellinger", "-positive", col.Cats[pos]}
		rt.T = CF.NewHDistanceTarget(f.(CF.CatFeature), col.Cats[pos])
		rt.Score = true
		rt.Imp = func(cs []int) float64 { return -1 }
		rt.SplitF = func(l, r, m []int) float64 {
			a, b := counts(col, l), counts(col, r)
			t0, t1 := a[0]+b[0], a[1]+b[1]
			if t0 == 0 || t1 == 0 {
				return 0 // nothing to tell apart
			}
			d, e := a[0]/t0-a[1]/t1, b[0]/t0-b[1]/t1
			return d*d + e*e
		}
		rt.Pred = func(cs []int, got string) string {
			return predFloat(counts(col, cs)[pos]/float64(len(cs)), 1, got)
		}
	case "trans":
		un := r.Intn(len(col.Cats))
		alpha, beta := []float64{0, 1, 10}[r.Intn(3)], []float64{0, .5, 2}[r.Intn(3)]
		rt.Args = []string{"-trans_unlabeled", col.Cats[un], "-trans_alpha", fmt.Sprint(alpha), "-trans_beta", fmt.Sprint(beta)}
		rt.T = CF.NewTransTarget(f.(CF.CatFeature), &fm.Data, col.Cats[un], alpha, beta, nonMissing)
		gini := rt.Imp
		rt.Imp = func(cs []int) float64 {
			e := gini(cs)
			if alpha != 0 {
				d := alpha / float64(len(cs)*len(cs))
				for _, o := range t.Cols {
					if s := span(o, cs); o != col && s > 0 {
						d *= s
					}
				}
				rt.Scale = math.Max(rt.Scale, d*float64(len(cs)))
				e += d
			}
			return e
		}
		rt.Pred = func(cs []int, got string) string {
			v := counts(col, cs)
			v[un] *= beta
			if v[argmax(v)] == 0 {
				v[un] = 1
			}
			return predLabel(col, v, got)
		}
	case "density":
		rt.T = &CF.DensityTarget{Features: &fm.Data, N: nonMissing}
		rt.Args = []string{"-density"}
		prod := func(e float64, cs []int) float64 {
			for _, o := range t.Cols {
				e /= span(o, cs)
			}
			return e
		}
		rt.Imp = func(cs []int) float64 {
			e := prod(float64(len(cs)*len(cs))/float64(nonMissing*nonMissing), cs)
			if !math.IsInf(e, 0) && !math.IsNaN(e) {
				rt.Scale = math.Max(rt.Scale, e*float64(len(cs)))
			}
			return e
		}
		rt.Pred = func(cs []int, got string) string {
			e := prod(float64(len(cs))/float64(nonMissing), cs)
			return predFloat(e, e, got)
		}
	default:
		panic("unknown target " + kind)
	}
	return rt
}

func (rt *RefTarget) friedman(res *Col) {
	rt.Score = true
	rt.Imp = func(cs []int) float64 {
		e := sse(res, cs)
		if e <= 1e-7 {
			return e
		}
		return -1
	}
	rt.SplitF = func(l, r, m []int) float64 {
		d := meanOf(res, l) - meanOf(res, r)
		nl, nr := float64(len(l)), float64(len(r))
		return d * d * nl * nr / (nl + nr)
	}
}

// span is the range of the non missing values of a numerical column and the number of
// distinct labels of a categorical one.
func span(c *Col, cs []int) float64 {
	if c.Num {
		first := true
		lo, hi := 0.0, 0.0
		for _, i := range cs {
			if c.Miss[i] {
				continue
			}
			if first {
				lo, hi, first = c.V[i], c.V[i], false
			}
			lo, hi = math.Min(lo, c.V[i]), math.Max(hi, c.V[i])
		}
		return hi - lo
	}
	seen := map[int]bool{}
	for _, i := range cs {
		if !c.Miss[i] {
			seen[c.K[i]] = true
		}
	}
	return float64(len(seen))
}

// known are the cases of which the column isn't missing.
func known(c *Col) []int {
	var cs []int
	for i, m := range c.Miss {
		if !m {
			cs = append(cs, i)
		}
	}
	return cs
}

// sampleOf draws k of the cases with replacement, or some of them without.
func sampleOf(r *rand.Rand, from []int) []int {
	var cs []int
	switch r.Intn(3) {
	case 0:
		for _, j := range r.Perm(len(from)) {
			cs = append(cs, from[j])
		}
		cs = cs[:1+r.Intn(len(cs))]
	default:
		k := 1 + r.Intn(len(from)+len(from)/2+1)
		for i := 0; i < k; i++ {
			cs = append(cs, from[r.Intn(len(from))])
		}
	}
	return cs
}
