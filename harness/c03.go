package main

import (
	"math"
	"sort"

	CF "github.com/ryanbressler/CloudForest"
)

// C03 and C04: the split a single feature comes up with is allowed, honestly valued and
// the best there is.

func init() {
	register(&Check{Prop: "C03", Quick: 500000, Thorough: 20000000,
		Rule:        "a numerical feature (ties, missing values, many scales), a target of one of 11 kinds that depends on it, a bag of cases and a leaf size are drawn from the seed; every threshold is enumerated and valued from the definition of the target's impurity; non trivial = the search returned a usable split among at least two allowed ones, distinct by (target, number of cases, allowed splits, sizes of both sides, missing cases, leaf size)",
		Assumptions: []string{"the optimum is only required where distinct values of the feature differ by more than 1e-6 (values within 1e-7 count as tied)", "decreases are compared with a tolerance of 1e-9 relative to the size of the terms they are calculated from"},
		Need:        []string{"usable splits", "optimal", "no split", "corrected for missing", "leaf size binds", "constant", "random splits", "random splits reached", "stretched features"},
		Run:         c03})
	register(&Check{Prop: "C04", Quick: 300000, Thorough: 10000000,
		Rule:        "a categorical feature with 1-70 categories, with or without missing values and random search, a target of one of 17 kinds, a bag of cases and a leaf size are drawn from the seed; partitions of up to 10 categories are enumerated; non trivial = the search returned a usable split, distinct by (target, categories, cases, sizes of both sides, missing cases, leaf size)",
		Assumptions: []string{"random search over more than 10 categories has to be allowed and honest, and optimal only where the cases have up to 5 of them", "decreases are compared with a tolerance of 1e-9 relative to the size of the terms they are calculated from"},
		Need:        []string{"usable splits", "optimal", "greedy optimal", "no split", "corrected for missing", "2 categories", "3-5 categories", "6-30 categories", "31+ categories", "random search", "random optimum reached", "few categories present"},
		Run:         c04})
}

func anyKind(c *Ctx) string {
	ks := append(append([]string{}, numTargets...), catTargets...)
	return ks[c.Rng.Intn(len(ks))]
}

func c03(c *Ctx) {
	r := c.Rng
	kind := anyKind(c)
	n := 4 + r.Intn(40)
	switch {
	case c.large(997):
		n = 300 + r.Intn(1200)
	case c.large(9973):
		n = 66000 + r.Intn(5000)
	}
	s := genSearch(r, kind, n, 1+r.Intn(3), smallCats)
	if s == nil {
		return
	}
	col := genNum(r, "N:x", n, missRate(r))
	if n > 5000 {
		coarse(col)
	}
	for i, o := range s.T.Cols {
		if i != s.Ti && o.Num && r.Intn(4) != 0 {
			col = o
		}
	}
	if r.Intn(5) == 0 {
		col = col.clone()
		stretch(c, col)
	}
	f := col.Feature()
	random := r.Intn(5) == 0
	c.Note("target %v %v", s.RT.Kind, s.RT.Col)
	c.Note("feature %v", col)
	c.Note("cases %v leaf size %d random %v", s.Cases, s.Leaf, random)

	for round := 0; round < 2; round++ {
		cs := append([]int{}, s.Cases...)
		parent := s.RT.T.Impurity(&cs, s.Al.Counter)
		coded, dec, constant := f.BestSplit(s.RT.T, &cs, parent, s.Leaf, random, s.Al)
		if !sameBag(cs, s.Cases) {
			c.Fail("cases", "the cases became %v", cs)
		}
		if math.IsNaN(dec) && s.RT.Kind != "hellinger" {
			c.Fail("nan", "decrease %v", dec)
		}
		best, valid, clear := s.numOptimum(col)
		if constant {
			c.Obs("constant", 1)
			if valid > 0 && clear {
				c.Fail("constant", "declared constant with %d allowed splits", valid)
			}
		}
		if s.Leaf > 1 {
			c.Obs("leaf size binds", 1)
		}
		if dec > minImp {
			l, rr, m := s.honest(c, f, col, coded, dec)
			c.Obs("usable splits", 1)
			if len(m) > 0 {
				c.Obs("corrected for missing", 1)
			}
			if valid > 1 {
				c.Sig("%v %d %d %d %d %d %d", s.RT.Kind, n, valid, len(l), len(rr), len(m), s.Leaf)
			}
			c.Sample("target %v %v feature %v cases %v leaf size %d: split %v decrease %v, optimum of %d %v", s.RT.Kind, s.RT.Col, col, s.Cases, s.Leaf, coded, dec, valid, best)
		}
		if random {
			c.Obs("random splits", 1)
			if round == 1 && clear && len(s.Cases) <= 14 && !col.hasMissing() && r.Intn(10) == 0 {
				s.reach(c, col, f, parent)
			}
		} else if clear {
			s.optimal(c, f.GetName(), col, coded, dec, best)
		}
		if round == 0 {
			// structures reused by another search must not change the outcome
			o := s.T.Cols[r.Intn(len(s.T.Cols))]
			cs := append([]int{}, s.Cases...)
			o.Feature().BestSplit(s.RT.T, &cs, parent, s.Leaf, false, s.Al)
		}
	}
}

// reach searches at random until every allowed split that decreases impurity must have
// been found: each of the at most 14 positions is as likely as any other.
func (s *Search) reach(c *Ctx, col *Col, f CF.Feature, parent float64) {
	cs := append([]int{}, s.Cases...)
	sort.SliceStable(cs, func(i, j int) bool { return col.V[cs[i]] < col.V[cs[j]] })
	want := map[int]bool{}
	for i := s.Leaf; i <= len(cs)-s.Leaf; i++ {
		if i == 0 || col.V[cs[i]] == col.V[cs[i-1]] {
			continue
		}
		if s.RT.Decrease(cs[:i:i], cs[i:]) > minImp+2*s.tol() {
			want[i] = true
		}
	}
	n := len(want)
	for k := 0; k < 600 && len(want) > 0; k++ {
		cs := append([]int{}, s.Cases...)
		coded, dec, _ := f.BestSplit(s.RT.T, &cs, parent, s.Leaf, true, s.Al)
		if dec > minImp {
			l, _, _, _ := groups(col, coded, s.Cases)
			delete(want, len(l))
		}
	}
	for i := range want {
		c.Fail("unreachable", "600 random searches with leaf size %d never split off the %d lowest of %d cases", s.Leaf, i, len(cs))
	}
	c.Obs("random splits reached", n)
}

// stretch moves the values of a column, keeping their order and ties, to where thresholds
// between them have to be rounded or overflow.
func stretch(c *Ctx, col *Col) {
	r := c.Rng
	vs := append([]float64{}, col.V...)
	sort.Float64s(vs)
	next := map[float64]float64{}
	v := [][2]float64{{1 << 54, math.Inf(1)}, {-(1 << 54), math.Inf(-1)}, {1e300, math.Inf(1)}, {math.MaxFloat64, 0}, {-math.MaxFloat64, 0}, {math.Inf(-1), 0}, {1 << 40, math.Inf(1)}}[r.Intn(7)]
	at, to := v[0], v[1]
	step := 1 + r.Intn(2)
	big := r.Intn(3) == 0
	for i, x := range vs {
		if i > 0 && x == vs[i-1] {
			continue
		}
		next[x] = at
		for j := 0; j < step; j++ {
			at = math.Nextafter(at, to)
		}
		if big && !math.IsInf(at, 0) && to == 0 {
			at *= .7
		}
	}
	if down := at < v[0]; down {
		// keep the order
		for x, y := range next {
			next[x] = -y
		}
	}
	for i, x := range col.V {
		if !col.Miss[i] {
			col.V[i] = next[x]
		}
	}
	c.Obs("stretched features", 1)
}

// optimal compares a returned split with the decrease of the best one of the non missing
// cases.
func (s *Search) optimal(c *Ctx, name string, col *Col, coded interface{}, dec, best float64) {
	tol := s.tol()
	switch {
	case best > minImp+2*tol:
		if coded == nil {
			c.Fail("missed", "%v: no split found, the best decreases impurity by %v", name, best)
		}
		l, r, _, err := s.valid(col, coded)
		if err != "" {
			c.Fail("missed", "%v: %v, the best decreases impurity by %v (reported %v)", name, err, best, dec)
		}
		if got := s.RT.Decrease(l, r); got < best-2*tol {
			c.Fail("suboptimal", "%v: split %v decreases impurity of the non missing cases by %v, the best by %v", name, coded, got, best)
		}
		if dec <= minImp {
			// worse than nothing once the missing cases are accounted for
			s.honest(c, col.Feature(), col, coded, dec)
		}
		c.Obs("optimal", 1)
	case best < minImp-2*tol:
		if dec > minImp {
			c.Fail("invented", "%v: split %v reported to decrease impurity by %v, no split does", name, coded, dec)
		}
		c.Obs("no split", 1)
	}
}

func c04(c *Ctx) {
	r := c.Rng
	kind := anyKind(c)
	n := 4 + r.Intn(40)
	switch {
	case c.large(1009):
		n = 300 + r.Intn(500)
	case c.large(9973):
		n = 66000 + r.Intn(5000)
	}
	s := genSearch(r, kind, n, 1, smallCats)
	if s == nil {
		return
	}
	k := genCats(r)
	if n > 5000 {
		k = 1 + r.Intn(8)
	} else if n > 100 && r.Intn(2) == 0 {
		k = 65 + r.Intn(80)
	}
	if r.Intn(20) == 0 {
		k = 1
	}
	if k > 31 {
		n = len(s.T.Labels)
	}
	col := genCat(r, "C:x", n, k, missRate(r))
	tc := s.RT.Col
	if r.Intn(3) != 0 {
		for i := range col.K {
			if r.Intn(3) != 0 {
				if tc.Num {
					if tc.V[i] > 0 {
						col.K[i] = col.K[i] / 2 * 2 % k
					}
				} else {
					col.K[i] = (tc.K[i]*(k/2) + r.Intn(2)) % k
				}
			}
		}
	}
	col.Rand = r.Intn(4) == 0
	if k > 10 && col.Rand && r.Intn(3) == 0 {
		p := r.Perm(k)[:2+r.Intn(4)]
		for i, x := range col.K {
			col.K[i] = p[x%len(p)]
		}
	}
	f := col.Feature()
	c.Note("target %v %v", s.RT.Kind, tc)
	c.Note("feature %v (random %v, categories %v)", col, col.Rand, col.Cats)
	c.Note("cases %v leaf size %d", s.Cases, s.Leaf)
	switch {
	case k == 2:
		c.Obs("2 categories", 1)
	case k > 30:
		c.Obs("31+ categories", 1)
	case k > 5:
		c.Obs("6-30 categories", 1)
	case k > 2:
		c.Obs("3-5 categories", 1)
	}
	if col.Rand {
		c.Obs("random search", 1)
	}
	cs := append([]int{}, s.Cases...)
	parent := s.RT.T.Impurity(&cs, s.Al.Counter)
	coded, dec, constant := f.BestSplit(s.RT.T, &cs, parent, s.Leaf, r.Intn(4) == 0, s.Al)
	if !sameBag(cs, s.Cases) {
		c.Fail("cases", "the cases became %v", cs)
	}
	if math.IsNaN(dec) && s.RT.Kind != "hellinger" {
		c.Fail("nan", "decrease %v", dec)
	}
	if dec > minImp {
		l, rr, m := s.honest(c, f, col, coded, dec)
		c.Obs("usable splits", 1)
		if len(m) > 0 {
			c.Obs("corrected for missing", 1)
		}
		c.Sig("%v %d %d %d %d %d %d", s.RT.Kind, k, n, len(l), len(rr), len(m), s.Leaf)
		c.Sample("target %v %v feature %v cases %v leaf size %d: split %v decrease %v", s.RT.Kind, tc, col, s.Cases, s.Leaf, coded, dec)
	}
	exhaustive := k <= 5 || col.Rand && k <= 10
	if exhaustive {
		best, valid := s.catOptimum(col)
		if constant && valid > 0 {
			c.Fail("constant", "declared constant with %d allowed splits", valid)
		}
		s.optimal(c, "C:x", col, coded, dec, best)
		return
	}
	if col.Rand {
		if present := s.present(col); len(present) <= 5 {
			// 511 partitions are drawn, at most 16 differ for the cases
			best := math.Inf(-1)
			for b := 1; b < 1<<uint(len(present)-1); b++ {
				left := map[int]bool{}
				for j, x := range present {
					left[x] = b>>uint(j)&1 == 1
				}
				if d, ok := s.catDecrease(col, func(k int) bool { return left[k] }); ok {
					best = math.Max(best, d)
				}
			}
			s.optimal(c, "C:x", col, coded, dec, best)
			c.Obs("few categories present", 1)
			return
		}
		if k <= 12 && n < 100 && !col.hasMissing() && r.Intn(2) == 0 {
			// each search looks at 511 of at most 2048 partitions
			best, _ := s.catOptimum(col)
			found := best <= minImp+2*s.tol()
			for i := 0; i < 150 && !found; i++ {
				cs := append([]int{}, s.Cases...)
				coded, dec, _ := f.BestSplit(s.RT.T, &cs, parent, s.Leaf, false, s.Al)
				if l, rr, _, err := s.valid(col, coded); dec > minImp && err == "" {
					found = s.RT.Decrease(l, rr) >= best-2*s.tol()
				}
			}
			if !found {
				c.Fail("unreachable", "150 random searches over %d categories never found a split that decreases impurity by %v", k, best)
			}
			c.Obs("random optimum reached", 1)
		}
		return
	}
	// greedy search: at least as good as any single category and not improved by adding one
	single := math.Inf(-1)
	for j := 0; j < k; j++ {
		if d, ok := s.catDecrease(col, func(k int) bool { return k == j }); ok {
			single = math.Max(single, d)
		}
	}
	tol := s.tol()
	if single <= minImp+2*tol {
		if single < minImp-2*tol && dec > minImp {
			c.Fail("invented", "split %v reported to decrease impurity by %v, no single category does", coded, dec)
		}
		c.Obs("no split", 1)
		return
	}
	l, rr, _, err := s.valid(col, coded)
	if err != "" {
		c.Fail("missed", "%v, a single category decreases impurity by %v", err, single)
	}
	got := s.RT.Decrease(l, rr)
	if got < single-2*tol {
		c.Fail("suboptimal", "split %v decreases impurity by %v, a single category by %v", coded, got, single)
	}
	left := map[int]bool{}
	for _, i := range l {
		left[col.K[i]] = true
	}
	for j := 0; j < k; j++ {
		if left[j] {
			continue
		}
		if d, ok := s.catDecrease(col, func(k int) bool { return left[k] || k == j }); ok && d > got+2*tol {
			c.Fail("improvable", "split %v decreases impurity by %v, with category %d also left by %v", coded, got, j, d)
		}
	}
	if dec <= minImp {
		s.honest(c, f, col, coded, dec)
	}
	c.Obs("greedy optimal", 1)
}
