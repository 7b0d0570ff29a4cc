package main

import (
	"fmt"
	"sort"

	CF "github.com/ryanbressler/CloudForest"
)

// C02: applying a tree sends every case to the leaf its own values reach.

func init() {
	register(&Check{Prop: "C02", Quick: 96000, Thorough: 400000,
		Rule:        "a table of 1-6 features over 1-60 cases with missing values and a tree of depth 0-6 with missing branches, splits on seen and unseen values and tree weights are drawn from the seed and applied as grown (coded), as read back (decoded), stripped of codes, and to data with reordered, additional and absent features, renumbered and unseen categories; non trivial = at least two leaves are reached or a case is dropped, distinct by (tree, reached leaves)",
		Assumptions: []string{"features a tree splits on have the same type in the data, if they are there"},
		Need:        []string{"cases applied", "cases dropped at missing values", "cases down missing branches", "coded trees", "foreign data", "data without a feature", "several tables", "weighted trees"},
		Run:         c02})
}

func c02(c *Ctx) {
	r := c.Rng
	n := 1 + r.Intn(60)
	large := c.large(4001)
	if large {
		n = 66000 + r.Intn(5000)
	}
	deep := !large && c.large(1009)
	if deep {
		n = 500
	}
	t := genTable(r, n, 1+r.Intn(6), genCats)
	leafn := 0
	pred := func() string {
		leafn++
		if leafn%7 == 5 {
			return "" // a leaf all the same
		}
		return []string{fmt.Sprintf("p%d", leafn), fmt.Sprintf("%d.5", leafn), "same"}[r.Intn(3)]
	}
	m := genTree(r, t, r.Intn(7), pred, true)
	if deep {
		t.Cols = append(t.Cols, genDistinct(r, "N:deep", n))
		m = genChain(r, t.Cols[len(t.Cols)-1], 400, pred)
	}
	weight := []float64{-1, -1, 0, .5, 1, 2.25}[r.Intn(6)]
	tree := m.build("C:t", weight)
	if got := modelOf(tree.Root).String(); got != m.String() {
		c.Fail("addnode", "adding nodes of %v built %v", m, got)
	}
	c.Note("tree %v weight %v", m, weight)
	c.Note("data\n%v", t)
	w := 1.0
	if weight >= 0 {
		w = weight
		c.Obs("weighted trees", 1)
	}

	// home applies the tree to the data it belongs to
	home := func() {
		s := newSpyVotes()
		tree.Vote(t.FM(), s)
		for i := 0; i < t.N(); i++ {
			l, vs := m.reach(t, i), s.votes[i]
			if l == nil && len(vs) > 0 || l != nil && (len(vs) != 1 || vs[0].pred != l.Pred || vs[0].weight != w) {
				c.Fail("home", "case %d got %v instead of %v", i, vs, l)
			}
		}
		c.Obs("several tables", 1)
	}

	data := t
	mode := r.Intn(4)
	switch mode {
	case 0: // as read from a file
	case 1: // as grown
		code(tree.Root, t, r)
		c.Obs("coded trees", 1)
	case 2, 3: // other data
		code(tree.Root, t, r)
		tree.StripCodes()
		if r.Intn(2) == 0 {
			home()
		}
		n2 := 1 + r.Intn(60)
		data = &Table{Labels: caseLabels(n2)}
		for _, j := range r.Perm(len(t.Cols)) {
			o := t.Cols[j]
			var d *Col
			if o.Num {
				d = genNum(r, o.Name, n2, missRate(r))
			} else {
				d = genCat(r, o.Name, n2, len(o.Cats), missRate(r))
				d.Cats = append([]string{}, o.Cats...)
				recode(r, d, r.Intn(4))
				for i := range d.K {
					d.K[i] = r.Intn(len(d.Cats))
				}
			}
			data.Cols = append(data.Cols, d)
		}
		data.Cols = append(data.Cols, genNum(r, "N:unrelated", n2, .1))
		if r.Intn(4) == 0 {
			k := r.Intn(len(t.Cols))
			data.Cols = append(data.Cols[:k:k], data.Cols[k+1:]...)
			c.Obs("data without a feature", 1)
		}
		c.Note("applied to\n%v", data)
		c.Obs("foreign data", 1)
	}
	fm := data.FM()
	n = data.N()

	// ground truth
	want := make([]*RNode, n)
	reached := map[*RNode][]int{}
	for i := range want {
		want[i] = m.reach(data, i)
		if want[i] == nil {
			c.Obs("cases dropped at missing values", 1)
		} else {
			reached[want[i]] = append(reached[want[i]], i)
		}
	}
	m.walk(func(nd *RNode, p string) {
		for j := range p {
			if p[j] == 'M' {
				c.Obs("cases down missing branches", len(reached[nd]))
				break
			}
		}
	}, "")
	c.Obs("cases applied", n)
	if len(reached) > 1 || len(reached) == 1 && len(reached[want[0]]) < n {
		c.Sig("%v %d %d", m, len(reached), mode)
	}
	c.Sample("tree %v on %d cases reaches %d leaves", m, n, len(reached))

	checkVotes := func(form string, s *spyVotes, counts map[int]int) {
		for i := 0; i < n; i++ {
			vs := s.votes[i]
			if want[i] == nil {
				if len(vs) != 0 {
					c.Fail(form+"-extra", "%s: case %d misses a value the tree has no branch for but got %v", form, i, vs)
				}
				continue
			}
			if len(vs) != counts[i] {
				c.Fail(form+"-count", "%s: case %d got %d votes instead of %d", form, i, len(vs), counts[i])
			}
			for _, v := range vs {
				if v.pred != want[i].Pred || v.weight != w {
					c.Fail(form+"-value", "%s: case %d got %q with weight %v instead of %q with %v", form, i, v.pred, v.weight, want[i].Pred, w)
				}
			}
		}
		for i := range s.votes {
			if i < 0 || i >= n {
				c.Fail(form+"-range", "%s: vote for case %d", form, i)
			}
		}
	}
	ones := map[int]int{}
	for i := 0; i < n; i++ {
		ones[i] = 1
	}
	before := modelOf(tree.Root).String()
	for rep := 0; rep < 2; rep++ {
		s := newSpyVotes()
		tree.Vote(fm, s)
		checkVotes("vote", s, ones)
	}

	sub := genCases(r, n)
	counts := map[int]int{}
	for _, i := range sub {
		counts[i]++
	}
	s := newSpyVotes()
	subc := append([]int{}, sub...)
	tree.VoteCases(fm, s, subc)
	checkVotes("votecases", s, counts)
	if !sameBag(sub, subc) {
		c.Fail("votecases-list", "the list of cases %v became %v", sub, subc)
	}

	// partition
	leaves, preds := tree.Partition(fm)
	parts := fmt.Sprint(*leaves)
	if len(*leaves) != len(*preds) {
		c.Fail("partition-length", "%d leaves and %d predictions", len(*leaves), len(*preds))
	}
	seen := map[int]int{}
	for j, cs := range *leaves {
		for _, i := range cs {
			seen[i]++
			if want[i] == nil || want[i].Pred != (*preds)[j] {
				c.Fail("partition-leaf", "partition put case %d on a leaf predicting %q, it belongs to %v", i, (*preds)[j], want[i])
			}
			if same := reached[want[i]]; i == cs[0] && !sameBag(same, cs) {
				c.Fail("partition-group", "partition groups %v, expected %v", cs, same)
			}
		}
	}
	for i := 0; i < n; i++ {
		e := 1
		if want[i] == nil {
			e = 0
		}
		if seen[i] != e {
			c.Fail("partition-once", "partition holds case %d %d times instead of %d", i, seen[i], e)
		}
	}

	// leaves and the splits that each case passed
	fby := new(CF.SparseCounter)
	ls := tree.GetLeaves(fm, fby)
	listed := fmt.Sprint(ls)
	seen = map[int]int{}
	for _, l := range ls {
		for _, i := range l.Cases {
			seen[i]++
			if want[i] == nil || want[i].Pred != l.Pred {
				c.Fail("leaves-leaf", "a leaf predicting %q lists case %d which belongs to %v", l.Pred, i, want[i])
			}
			if same := reached[want[i]]; i == l.Cases[0] && !sameBag(same, l.Cases) {
				c.Fail("leaves-group", "a leaf lists %v, expected %v", l.Cases, same)
			}
		}
	}
	for i := 0; i < n; i++ {
		e := 1
		if want[i] == nil {
			e = 0
		}
		if seen[i] != e {
			c.Fail("leaves-once", "the leaves list case %d %d times instead of %d", i, seen[i], e)
		}
	}
	for i := 0; i < n; i++ {
		wantf := map[int]int{}
		for nd := m; nd != nil && nd.Feature != ""; {
			if k, ok := fm.Map[nd.Feature]; ok {
				wantf[k]++
			}
			switch nd.side(data.Col(nd.Feature), i) {
			case 'L':
				nd = nd.L
			case 'R':
				nd = nd.R
			default:
				nd = nd.M
			}
		}
		got := fby.Map[i]
		for f := range fm.Data {
			if got[f] != wantf[f] {
				c.Fail("leaves-branches", "case %d passes feature %d %d times, %d recorded", i, f, wantf[f], got[f])
			}
		}
	}

	// every node is visited with exactly the cases that get to it, at its depth
	var trace []string
	cs := r.Perm(n)
	tree.Root.Recurse(func(nd *CF.Node, cs []int, depth int) {
		trace = append(trace, fmt.Sprintf("%d %q %v", depth, nd.Pred, sorted(cs)))
	}, fm, cs, 0)
	var wantTrace []string
	var rec func(nd *RNode, cs []int, depth int)
	rec = func(nd *RNode, cs []int, depth int) {
		sort.Ints(cs)
		wantTrace = append(wantTrace, fmt.Sprintf("%d %q %v", depth, nd.Pred, cs))
		if nd.Feature == "" {
			return
		}
		g := map[byte][]int{'L': {}, 'R': {}, 'M': {}}
		for _, i := range cs {
			s := nd.side(data.Col(nd.Feature), i)
			g[s] = append(g[s], i)
		}
		rec(nd.L, g['L'], depth+1)
		rec(nd.R, g['R'], depth+1)
		if len(g['M']) > 0 && nd.M != nil {
			rec(nd.M, g['M'], depth+1)
		}
	}
	all := make([]int, n)
	for i := range all {
		all[i] = i
	}
	rec(m, all, 0)
	if parts != fmt.Sprint(*leaves) || listed != fmt.Sprint(ls) {
		c.Fail("partition-changed", "partition %v and leaves %v became %v and %v when the tree was applied again", parts, listed, *leaves, ls)
	}
	if mode > 1 && r.Intn(2) == 0 {
		home()
	}
	sort.Strings(trace)
	sort.Strings(wantTrace)
	if fmt.Sprint(trace) != fmt.Sprint(wantTrace) {
		c.Fail("recurse", "visited %v, expected %v", trace, wantTrace)
	}

	if after := modelOf(tree.Root).String(); after != before || tree.Weight != weight || tree.Target != "C:t" {
		c.Fail("tree-modified", "applying the tree changed it to %v", after)
	}
	if d := diffFM(data, fm); d != "" {
		c.Fail("data-modified", "applying the tree changed the data: %v", d)
	}
}
