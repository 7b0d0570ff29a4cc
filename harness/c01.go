package main

import (
	"fmt"
	"math"
	"math/big"
	"math/rand"

	CF "github.com/ryanbressler/CloudForest"
)

// C01: applying a split partitions any list of cases by the documented predicate, in
// every form a split takes.

func init() {
	register(&Check{Prop: "C01", Quick: 500000, Thorough: 20000000,
		Rule:        "a feature (numerical with ties, infinities and extremes, or categorical with 1-130 categories), a list of cases (permutation, subset or bag with repeats, possibly empty) and a split (threshold on, between or beyond the values, or any subset of categories as bit set) are drawn from the seed; non trivial = at least two of the groups left, right and missing are non empty, distinct by (type of split, sizes of the groups, length of the list, first cases)",
		Assumptions: []string{"the flag that a feature has missing values is set when it has (the documented way to build features)"},
		Need:        []string{"num splits", "int splits", "big splits", "missing cases", "on threshold", "unseen categories"},
		Run:         c01})
}

func extremeNum(r *rand.Rand, c *Col) {
	ex := []float64{math.Inf(1), math.Inf(-1), math.MaxFloat64, -math.MaxFloat64, 5e-324, -5e-324, 0, math.Copysign(0, -1), 1, math.Nextafter(1, 2), math.Nextafter(1, 0), 1e-8, -1e-8}
	for i := range c.V {
		if r.Intn(3) == 0 {
			c.V[i] = ex[r.Intn(len(ex))]
		}
	}
}

func c01(c *Ctx) {
	r := c.Rng
	n := 1 + r.Intn(40)
	if r.Intn(20) == 0 {
		n = 200 + r.Intn(300)
	}
	large := c.large(9973)
	if large {
		n = 66000 + r.Intn(20000)
	}
	var col *Col
	if r.Intn(2) == 0 {
		col = genNum(r, "N:x", n, missRate(r))
		if r.Intn(3) == 0 {
			extremeNum(r, col)
		}
	} else {
		k := 1 + r.Intn(130)
		if r.Intn(2) == 0 {
			k = 1 + r.Intn(6)
		} else if large {
			k = 1 + r.Intn(1000)
		}
		col = genCat(r, "C:x", n, k, missRate(r))
	}
	if r.Intn(25) == 0 {
		for i := range col.Miss {
			col.Miss[i] = true
		}
	}
	cases := genCases(r, n)
	t := &Table{Labels: caseLabels(n), Cols: []*Col{genNum(r, "N:other", n, 0), col, genCat(r, "C:other", n, 3, 0)}}
	fm := t.FM()
	f := fm.Data[1]

	// the split and its meaning
	var coded interface{}
	var left func(i int) bool
	kind := "num"
	desc := ""
	if col.Num {
		v := r.NormFloat64()
		switch r.Intn(6) {
		case 0, 1, 2:
			v = col.V[r.Intn(n)]
			c.Obs("on threshold", 1)
		case 3:
			v = (col.V[r.Intn(n)] + col.V[r.Intn(n)]) / 2
		case 4:
			v = []float64{math.Inf(1), math.Inf(-1), math.MaxFloat64, 0}[r.Intn(4)]
		}
		if math.IsNaN(v) {
			v = 0
		}
		coded = v
		left = func(i int) bool { return col.V[i] <= v }
		desc = fmt.Sprintf("<= %v", v)
		c.Obs("num splits", 1)
	} else {
		set := make([]bool, len(col.Cats))
		for j := range set {
			set[j] = r.Intn(2) == 0
		}
		left = func(i int) bool { return set[col.K[i]] }
		if len(set) <= 62 && r.Intn(3) != 0 {
			kind = "int"
			b := 0
			for j, s := range set {
				if s {
					b |= 1 << uint(j)
				}
			}
			coded = b
			c.Obs("int splits", 1)
		} else {
			kind = "big"
			b := big.NewInt(0)
			for j, s := range set {
				if s {
					b.SetBit(b, j, 1)
				}
			}
			coded = b
			c.Obs("big splits", 1)
		}
		desc = fmt.Sprintf("in %v of %v", set, col.Cats)
	}

	// what every form has to do
	var wl, wr, wm []int
	for _, i := range cases {
		switch {
		case col.Miss[i]:
			wm = append(wm, i)
		case left(i):
			wl = append(wl, i)
		default:
			wr = append(wr, i)
		}
	}
	c.Obs("cases split", len(cases))
	c.Obs("missing cases", len(wm))
	nz := 0
	for _, g := range [][]int{wl, wr, wm} {
		if len(g) > 0 {
			nz++
		}
	}
	if nz > 1 {
		c.Sig("%v %d %d %d %v", kind, len(wl), len(wr), len(wm), cases[:min(3, len(cases))])
	}
	c.Note("feature %v", col)
	c.Note("split %v of cases %v", desc, cases)
	c.Sample("%v split %v of cases %v -> left %v right %v missing %v", col, desc, cases, wl, wr, wm)

	check := func(form string, l, r, m []int) {
		if !sameBag(l, wl) || !sameBag(r, wr) || !sameBag(m, wm) {
			c.Fail("partition-"+form, "%s: left %v right %v missing %v, expected left %v right %v missing %v", form, l, r, m, wl, wr, wm)
		}
	}

	cs := append([]int{}, cases...)
	l, rr, m := f.Split(coded, cs)
	check("coded split", l, rr, m)
	if !sameBag(cs, cases) {
		c.Fail("reorder-split", "the list of cases became %v", cs)
	}

	// splitting an already split list again has to give the same
	l, rr, m = f.Split(coded, cs)
	check("coded split again", l, rr, m)

	cs = append([]int{}, cases...)
	li, ri := f.SplitPoints(coded, &cs)
	if li < 0 || ri < li || ri > len(cs) {
		c.Fail("points", "split points %d %d of %d cases", li, ri, len(cs))
	}
	check("split points", cs[:li], cs[ri:], cs[li:ri])

	s := f.DecodeSplit(coded)
	if s.Feature != col.Name || s.Numerical != col.Num {
		c.Fail("decode", "decoded splitter %+v", s)
	}
	cs = append([]int{}, cases...)
	l, rr, m = s.Split(fm, cs)
	check("decoded split", l, rr, m)
	if !sameBag(cs, cases) {
		c.Fail("reorder-decoded", "the list of cases became %v", cs)
	}
	for _, i := range cases {
		if !col.Miss[i] && f.GoesLeft(i, s) != left(i) {
			c.Fail("goesleft", "case %d goes left: %v", i, f.GoesLeft(i, s))
		}
	}

	// the decoded form has to mean the same for data with features and categories in
	// another order, and categories it doesn't list go right
	t2 := t.clone()
	r.Shuffle(len(t2.Cols), func(i, j int) { t2.Cols[i], t2.Cols[j] = t2.Cols[j], t2.Cols[i] })
	c2 := t2.Col("C:x")
	if c2 != nil {
		recode(r, c2, r.Intn(4))
		wl, wr, wm = nil, nil, nil
		for _, i := range cases {
			unseen := r.Intn(8) == 0 && c2.Cats[len(c2.Cats)-1] == "unseen"
			if unseen && !c2.Miss[i] {
				c2.K[i] = len(c2.Cats) - 1
			}
		}
		for _, i := range cases {
			switch {
			case c2.Miss[i]:
				wm = append(wm, i)
			case c2.Label(i) == "unseen":
				c.Obs("unseen categories", 1)
				wr = append(wr, i)
			case left(i):
				wl = append(wl, i)
			default:
				wr = append(wr, i)
			}
		}
	}
	fm2 := t2.FM()
	cs = append([]int{}, cases...)
	l, rr, m = s.Split(fm2, cs)
	check("decoded split of reordered data", l, rr, m)
	if d := diffFM(t, fm); d != "" {
		c.Fail("data-modified", "%v", d)
	}
}

// recode renumbers the categories of a column and adds extra ones, the last of which is
// called unseen if there are any.
func recode(r *rand.Rand, c *Col, extra int) {
	p := r.Perm(len(c.Cats) + extra)
	cats := make([]string, len(p))
	for j := range p {
		if j < len(c.Cats) {
			cats[p[j]] = c.Cats[j]
		} else {
			cats[p[j]] = fmt.Sprintf("extra%d", j)
		}
	}
	for i := range c.K {
		c.K[i] = p[c.K[i]]
	}
	c.Cats = cats
	if extra > 0 {
		c.Cats = append(c.Cats, "unseen")
	}
}

var _ = CF.NewTree
