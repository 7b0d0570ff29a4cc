package main

import (
	"math"

	CF "github.com/ryanbressler/CloudForest"
)

// C06: impurities are what they are defined to be, splits are worth the size weighted mean
// of their parts, and the incremental update while a threshold moves agrees with a
// calculation from scratch.

func init() {
	register(&Check{Prop: "C06", Quick: 600000, Thorough: 6000000,
		Rule:        "a target of one of 18 kinds with its costs, weights or constraints, a bag of cases, a partition into left, right and possibly missing, and a sequence of moves from right to left are drawn from the seed; every value the target gives is compared with its definition evaluated from scratch; non trivial = a split with impure sides, distinct by (target, sizes, moves, with missing, value)",
		Assumptions: []string{"values are compared with a tolerance of 1e-9 relative to the size of the terms they are calculated from", "empty sides have no defined impurity"},
		Need:        []string{"impurities", "splits", "splits with missing", "updates", "updates with missing", "pure", "density"},
		Run:         c06})
}

func c06(c *Ctx) {
	r := c.Rng
	if c.Case%400 == 201 {
		c.trained()
		return
	}
	kind := anyKind(c)
	if r.Intn(15) == 0 {
		kind = "density"
	}
	n := 3 + r.Intn(40)
	switch {
	case c.large(997):
		n = 300 + r.Intn(3000)
	case c.large(9973):
		n = 66000 + r.Intn(20000)
	}
	s := genSearch(r, kind, n, 1+r.Intn(3), smallCats)
	if s == nil || len(s.Cases) < 2 {
		return
	}
	rt, al := s.RT, s.Al
	if kind == "density" {
		c.Obs("density", 1)
	}
	c.Note("target %v %v of", rt.Kind, rt.Col)
	c.Note("%v", s.T)
	cmp := func(what string, got, want float64) {
		if math.IsNaN(want) || math.IsInf(want, 0) || rt.Score && want < 0 && got < 0 {
			return
		}
		if rt.Kind == "hellinger" && want == 0 && math.IsNaN(got) {
			return // only one class
		}
		if !(math.Abs(got-want) <= s.tol()) {
			c.Fail(what, "%v is %v instead of %v", what, got, want)
		}
	}
	imp := func(cs []int) {
		if len(cs) == 0 {
			return
		}
		q := append([]int{}, cs...)
		want := rt.Imp(cs)
		got := rt.T.Impurity(&q, al.Counter)
		c.Note("impurity of %v", cs)
		cmp("impurity", got, want)
		c.Obs("impurities", 1)
		if want == 0 {
			c.Obs("pure", 1)
		}
		if !sameBag(q, cs) {
			c.Fail("cases", "cases became %v", q)
		}
		if !rt.Score && got < -s.tol() {
			c.Fail("negative", "impurity %v", got)
		}
	}
	imp(s.Cases)
	all := append([]int{}, s.Cases...)
	r.Shuffle(len(all), func(i, j int) { all[i], all[j] = all[j], all[i] })
	var m []int
	withM := r.Intn(2) == 0 && !rt.Score && len(all) > 2
	if withM {
		k := 1 + r.Intn(len(all)-2)
		m, all = all[:k:k], all[k:]
	}
	i := 1 + r.Intn(len(all)-1)
	l, rr := all[:i:i], all[i:]
	c.Note("left %v right %v missing %v", l, rr, m)
	imp(l)
	imp(rr)
	imp(m)
	var mp *[]int
	switch {
	case withM:
		mp = &m
	case r.Intn(3) == 0:
		mp = &[]int{}
	}
	want := rt.Split(l, rr, m)
	got := rt.T.SplitImpurity(&l, &rr, mp, al)
	cmp("split", got, want)
	c.Obs("splits", 1)
	if withM {
		c.Obs("splits with missing", 1)
	}
	first := got
	// move the border to the right in a few steps
	moves := 0
	for i < len(all)-1 && moves < 6 {
		k := 1 + r.Intn(min(len(all)-1-i, max(3, len(all)/10)))
		moved := all[i : i+k]
		i += k
		l, rr = all[:i:i], all[i:]
		c.Note("moved %v to the left", moved)
		got := rt.T.UpdateSImpFromAllocs(&l, &rr, mp, al, &moved)
		cmp("update", got, rt.Split(l, rr, m))
		c.Obs("updates", 1)
		if withM {
			c.Obs("updates with missing", 1)
		}
		moves++
	}
	if rt.Imp(l) != 0 || rt.Imp(rr) != 0 {
		c.Sig("%v %d %d %d %d %.6g", rt.Kind, len(l), len(rr), len(m), moves, first)
	}
	c.Sample("target %v %v: left %v right %v missing %v impurity of the split %v", rt.Kind, rt.Col, l, rr, m, first)
	if rt.Kind == "gini" {
		cf := rt.T.(CF.CatFeature)
		q := append([]int{}, s.Cases...)
		cmp("gini", cf.Gini(&q), rt.Imp(s.Cases))
		cnt := make([]int, cf.NCats())
		cf.CountPerCat(&q, &cnt)
		for j, n := range counts(rt.Col, s.Cases) {
			if float64(cnt[j]) != n {
				c.Fail("counts", "counts %v of %v", cnt, s.Cases)
			}
		}
	}
}
