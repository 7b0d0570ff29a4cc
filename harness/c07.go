package main

import (
	"fmt"
	"math"
	"math/rand"
	"strings"

	CF "github.com/ryanbressler/CloudForest"
)

// C07: structure of grown trees. C08: predictions of leaves.

func init() {
	register(&Check{Prop: "C07", Quick: 300000, Thorough: 2500000,
		Rule:        "a learning problem of 1-8 features with one of 17 kinds of targets, a bag of cases and the growing options (mTry, leaf size, depth limit, missing branches, force, vet, oob evaluation, random splits, jungle, reuse of a grown tree) are drawn from the seed; the grown tree is walked with the cases by the harness; non trivial = the tree has a split, distinct by (target, options, shape)",
		Assumptions: []string{"that no allowed split is left in a leaf and that the split is the best one is only decided for mTry covering all candidates, without vetting, oob evaluation, random splits and random search, and for features the search is exhaustive for"},
		Need:        []string{"trees", "jungles", "internal nodes", "leaves", "missing branches", "merged nodes", "depth limit binds", "leaf proven final", "split proven best", "regrown"},
		Run:         c07})
	register(&Check{Prop: "C08", Quick: 1000000, Thorough: 15000000,
		Rule:        "a target of one of 18 kinds with its costs, weights or constraints and a bag of cases are drawn from the seed and the prediction of a leaf holding them is compared with the definition; non trivial = cases with at least two different target values, distinct by (target, cases, prediction)",
		Assumptions: []string{"numerical predictions are compared with a relative tolerance of 1e-9", "any of the labels that tie may be predicted"},
		Need:        []string{"predictions", "with missing target values", "labels", "numbers"},
		Run:         c08})
}

type growOpts struct {
	mTry, leaf, depth                              int
	splitmissing, force, vet, evaloob, rnd, jungle bool
}

func (o growOpts) String() string {
	return fmt.Sprintf("mTry %d leaf %d depth %d splitmissing %v force %v vet %v evaloob %v random %v jungle %v", o.mTry, o.leaf, o.depth, o.splitmissing, o.force, o.vet, o.evaloob, o.rnd, o.jungle)
}

func genOpts(r *rand.Rand, s *Search, ncand int) growOpts {
	o := growOpts{mTry: ncand, leaf: s.Leaf, splitmissing: r.Intn(2) == 0}
	if r.Intn(2) == 0 {
		o.mTry = 1 + r.Intn(ncand+1)
	}
	if r.Intn(3) == 0 {
		o.depth = 1 + r.Intn(4)
		if r.Intn(3) == 0 {
			o.depth = 5 + r.Intn(8)
		}
	}
	k := s.RT.Kind
	o.force = r.Intn(5) == 0
	o.vet = (k == "numeric" || k == "gini") && r.Intn(6) == 0
	o.evaloob = !s.RT.Score && k != "trans" && r.Intn(6) == 0
	o.rnd = r.Intn(8) == 0
	o.jungle = r.Intn(4) == 0
	if o.jungle && s.RT.Score && (o.depth == 0 || o.depth > 6) {
		// nearly all nodes of a level are merged, which doubles the number of paths level by level
		o.depth = 6
	}
	return o
}

// grow grows a tree with its own random numbers.
func (s *Search) grow(tree *CF.Tree, o growOpts, cases, cands, oob []int, imp *[]*CF.RunningMean, depthUsed *[]int, seed int64) {
	s.Al.Rnd = rand.New(rand.NewSource(seed))
	g := tree.Grow
	if o.jungle {
		g = tree.GrowJungle
	}
	g(s.FM, s.RT.T, cases, cands, oob, o.mTry, o.leaf, o.depth, o.splitmissing, o.force, o.vet, o.evaloob, o.rnd, imp, depthUsed, s.Al)
}

type visit struct {
	n      *CF.Node
	cases  []int
	depth  int
	routes int
}

// route sends the cases through a tree (or a DAG) and returns the nodes in the order they
// are reached with all their cases.
func route(t *Table, root *CF.Node, cases []int) ([]*visit, string) {
	byNode := map[*CF.Node]*visit{}
	order := []*visit{}
	get := func(n *CF.Node, depth int) *visit {
		v := byNode[n]
		if v == nil {
			v = &visit{n: n, depth: depth}
			byNode[n] = v
			order = append(order, v)
		}
		return v
	}
	v := get(root, 0)
	v.cases = append(v.cases, cases...)
	v.routes = 1
	// all the parents of a node are one level up so that levels can be done in turn
	for i := 0; i < len(order); i++ {
		v := order[i]
		s := v.n.Splitter
		if s == nil {
			continue
		}
		col := t.Col(s.Feature)
		if col == nil {
			return nil, fmt.Sprintf("split on unknown feature %q", s.Feature)
		}
		if v.n.Left == nil || v.n.Right == nil {
			return nil, fmt.Sprintf("split on %q without branches", s.Feature)
		}
		l, r, m := decodedGroups(col, s, v.cases)
		add := func(n *CF.Node, cs []int) {
			if n == nil {
				return
			}
			w := get(n, v.depth+1)
			w.cases = append(w.cases, cs...)
			w.routes++
		}
		add(v.n.Left, l)
		add(v.n.Right, r)
		add(v.n.Missing, m)
	}
	return order, ""
}

func shape(n *RNode) string {
	if n == nil {
		return "."
	}
	if n.Feature == "" {
		return "*"
	}
	return "(" + n.Feature + shape(n.L) + shape(n.R) + shape(n.M) + ")"
}

func c07(c *Ctx) {
	r := c.Rng
	if c.Case%200 == 101 {
		c.trained()
		return
	}
	cats := smallCats
	if r.Intn(6) == 0 {
		cats = genCats
	}
	n, m := 6+r.Intn(60), 1+r.Intn(8)
	if c.large(2003) {
		n, m = 150+r.Intn(200), 1+r.Intn(20)
	}
	s := genSearch(r, anyKind(c), n, m, cats)
	if s == nil {
		return
	}
	cands := []int{}
	for i := range s.T.Cols {
		if i != s.Ti && r.Intn(10) != 0 {
			cands = append(cands, i)
		}
	}
	if len(cands) == 0 {
		return
	}
	isCand := map[string]bool{}
	for _, i := range cands {
		isCand[s.T.Cols[i].Name] = true
	}
	o := genOpts(r, s, len(cands))
	s.Leaf = o.leaf
	var oob []int
	in := map[int]bool{}
	for _, i := range s.Cases {
		in[i] = true
	}
	for _, i := range known(s.RT.Col) {
		if !in[i] {
			oob = append(oob, i)
		}
	}
	if len(oob) < 2 {
		o.evaloob = false
	}
	c.Note("target %v %v", s.RT.Kind, s.RT.Col)
	c.Note("%v", s.T)
	c.Note("%v cases %v candidates %v oob %v", o, s.Cases, cands, oob)

	seed := r.Int63()
	tree := CF.NewTree()
	regrown := r.Intn(3) == 0
	if regrown {
		// a tree that has been grown before
		o2 := o
		o2.jungle = false
		o2.leaf = 1
		o2.depth = 0
		o2.splitmissing = r.Intn(2) == 0
		s.grow(tree, o2, append([]int{}, known(s.RT.Col)...), append([]int{}, cands...), append([]int{}, oob...), nil, nil, r.Int63())
		c.Obs("regrown", 1)
	}
	cs := append([]int{}, s.Cases...)
	cn := append([]int{}, cands...)
	s.grow(tree, o, cs, cn, append([]int{}, oob...), nil, nil, seed)
	if !sameBag(cs, s.Cases) || !sameBag(cn, cands) {
		c.Fail("cases", "cases became %v candidates %v", cs, cn)
	}
	boosted := s.RT.Kind == "gradboost" // keeps residuals in the target
	if d := diffFM(s.T, s.FM); d != "" && !(boosted && strings.HasPrefix(d, s.RT.Col.Name)) {
		c.Fail("data-modified", "%v", d)
	}
	if regrown {
		fresh := CF.NewTree()
		s.grow(fresh, o, append([]int{}, s.Cases...), append([]int{}, cands...), append([]int{}, oob...), nil, nil, seed)
		if a, b := modelOf(fresh.Root).String(), modelOf(tree.Root).String(); a != b {
			c.Fail("regrown", "a fresh tree is %v\none grown before becomes %v", a, b)
		}
	}
	c.Note("tree %v", modelOf(tree.Root))
	if o.jungle {
		c.Obs("jungles", 1)
	} else {
		c.Obs("trees", 1)
	}
	visits, err := route(s.T, tree.Root, s.Cases)
	if err != "" {
		c.Fail("structure", "%v", err)
	}
	exhaustive := o.mTry >= len(cands) && !o.vet && !o.evaloob && !o.rnd
	all := append([]int{}, s.Cases...)
	defer func() { s.Cases = all }()
	for _, v := range visits {
		n := v.n
		if v.routes > 1 {
			c.Obs("merged nodes", 1)
			if !o.jungle {
				c.Fail("structure", "node has %d parents", v.routes)
			}
		}
		if len(v.cases) == 0 {
			c.Fail("empty", "no training case reaches a node predicting %q", n.Pred)
		}
		s.Cases = v.cases
		if n.Splitter == nil {
			c.Obs("leaves", 1)
			if n.Left != nil || n.Right != nil || n.Missing != nil || n.CodedSplit != nil {
				c.Fail("structure", "leaf %q has branches or a split", n.Pred)
			}
			if e := s.RT.Pred(v.cases, n.Pred); e != "" {
				c.Fail("leaf", "leaf with training cases %v: %v", v.cases, e)
			}
			if o.depth > 0 && v.depth == o.depth {
				c.Obs("depth limit binds", 1)
			}
			if exhaustive && (o.depth == 0 || v.depth < o.depth) {
				if best, f := s.bestFull(cands); f != "" && s.impure() {
					if best > minImp+4*s.tol() {
						c.Fail("premature", "leaf with training cases %v at depth %d could be split on %v decreasing impurity by %v", v.cases, v.depth, f, best)
					}
				}
				c.Obs("leaf proven final", 1)
			}
			continue
		}
		c.Obs("internal nodes", 1)
		f := n.Splitter.Feature
		if !isCand[f] {
			c.Fail("candidate", "split on %v which isn't a candidate", f)
		}
		if o.depth > 0 && v.depth >= o.depth {
			c.Fail("depth", "split at depth %d with a limit of %d", v.depth, o.depth)
		}
		if len(v.cases) < 2*o.leaf {
			c.Fail("leafsize", "%d cases split with a leaf size of %d", len(v.cases), o.leaf)
		}
		if n.Pred != "" {
			c.Fail("structure", "internal node predicts %q", n.Pred)
		}
		col := s.T.Col(f)
		fi := -1
		for i, x := range s.T.Cols {
			if x == col {
				fi = i
			}
		}
		l, rr, mm := decodedGroups(col, n.Splitter, v.cases)
		if len(l) < o.leaf || len(rr) < o.leaf {
			c.Fail("leafsize", "split on %v leaves %d cases left and %d right with a leaf size of %d", f, len(l), len(rr), o.leaf)
		}
		cl, cr, cm, e := groups(col, n.CodedSplit, v.cases)
		if e != "" || n.Featurei != fi || !sameBag(l, cl) || !sameBag(rr, cr) || !sameBag(mm, cm) {
			c.Fail("coded", "split of feature %d (%v) coded %v and splitter %+v differ", n.Featurei, fi, n.CodedSplit, n.Splitter)
		}
		if want := o.splitmissing && len(mm) > 0; want != (n.Missing != nil) {
			c.Fail("missing", "split on %v with %d missing cases, missing branch %v", f, len(mm), n.Missing != nil)
		}
		if n.Missing != nil {
			c.Obs("missing branches", 1)
		}
		if exhaustive {
			if best, bf := s.bestFull(cands); bf != "" {
				got := s.RT.Full(l, rr, mm)
				if len(mm) == 0 {
					got = s.RT.Decrease(l, rr)
				}
				if got < best-4*s.tol() {
					c.Fail("suboptimal", "%d cases split on %v decreasing impurity by %v, on %v it would be %v", len(v.cases), f, got, bf, best)
				}
				c.Obs("split proven best", 1)
			}
		}
	}
	if len(visits) > 1 {
		c.Sig("%v %v %v", s.RT.Kind, o, shape(modelOf(tree.Root)))
		c.Sample("target %v, %v: %v", s.RT.Kind, o, m)
	}
}

func (s *Search) impure() bool {
	i := s.RT.Imp(s.Cases)
	if s.RT.Score {
		return i < 0
	}
	return i > minImp+s.tol()
}

// bestFull is the largest decrease a split of any candidate makes and its feature, "" if
// that isn't defined because one of the candidates isn't searched exhaustively or the
// best split of its non missing cases is ambiguous.
func (s *Search) bestFull(cands []int) (float64, string) {
	if s.RT.Kind == "gradboost" || s.RT.Kind == "gradboostclass" {
		for _, i := range cands {
			if s.T.Cols[i].hasMissing() {
				return 0, ""
			}
		}
	}
	best, name := math.Inf(-1), ""
	for _, i := range cands {
		col := s.T.Cols[i]
		nm := s.nonMissing(col)
		if len(nm) == 0 {
			continue
		}
		var d float64
		switch {
		case col.Num:
			var clear bool
			if d, _, clear = s.numOptimum(col); !clear {
				return 0, ""
			}
		case len(col.Cats) <= 5 && !(col.Rand && len(col.Cats) > 10):
			d, _ = s.catOptimum(col)
		default:
			return 0, ""
		}
		if math.IsInf(d, 0) || math.IsNaN(d) {
			continue
		}
		tol := s.tol()
		if math.Abs(d-minImp) <= 2*tol {
			return 0, ""
		}
		if d < minImp {
			continue // isn't considered, whatever the missing cases do
		}
		if k := len(s.Cases) - len(nm); k > 0 {
			var m []int
			for _, i := range s.Cases {
				if col.Miss[i] {
					m = append(m, i)
				}
			}
			if s.RT.Score {
				d *= float64(len(nm)) / float64(len(s.Cases))
			} else {
				d = s.RT.Imp(s.Cases) - (float64(len(nm))*(s.RT.Imp(nm)-d)+float64(k)*s.RT.Imp(m))/float64(len(s.Cases))
			}
		}
		if d > best {
			best, name = d, col.Name
		}
	}
	if name == "" {
		return 0, ""
	}
	return best, name
}

func c08(c *Ctx) {
	r := c.Rng
	if c.Case%500 == 251 {
		c.trained()
		return
	}
	kind := anyKind(c)
	if r.Intn(15) == 0 {
		kind = "density"
	}
	n := 3 + r.Intn(30)
	if c.large(9973) {
		n = 66000 + r.Intn(20000)
	}
	s := genSearch(r, kind, n, 1+r.Intn(3), smallCats)
	if s == nil {
		return
	}
	cs := s.Cases
	if r.Intn(3) == 0 {
		switch s.RT.Kind {
		case "numeric", "gini", "l1", "entropy", "wrf", "adaboost", "adacost", "numadaboost", "gradboost":
			cs = append([]int{}, cs...)
			for i, m := range s.RT.Col.Miss {
				if m {
					cs = append(cs, i)
					c.Obs("with missing target values", 1)
				}
			}
		}
	}
	q := append([]int{}, cs...)
	got := s.RT.T.FindPredicted(q)
	c.Note("target %v %v", s.RT.Kind, s.RT.Col)
	c.Note("%v", s.T)
	if e := s.RT.Pred(cs, got); e != "" {
		c.Fail("prediction", "cases %v: %v", cs, e)
	}
	if !sameBag(q, cs) {
		c.Fail("cases", "cases became %v", q)
	}
	c.Obs("predictions", 1)
	if s.RT.Col.Num {
		c.Obs("numbers", 1)
	} else {
		c.Obs("labels", 1)
	}
	if span(s.RT.Col, cs) > 0 {
		c.Sig("%v %v %v", s.RT.Kind, len(cs), got)
	}
	c.Sample("target %v %v cases %v predicts %v", s.RT.Kind, s.RT.Col, cs, got)
}
