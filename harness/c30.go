package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"path/filepath"
	"sort"

	CF "github.com/ryanbressler/CloudForest"
)

// C30: exporting trees in scikit learn's layout.

func init() {
	register(&Check{Prop: "C30", Quick: 80000, Thorough: 2000000,
		Rule: "a table of numerical features and a generated tree (every third case a grown one) is drawn from the seed and exported, one tree after the other into fresh layouts; an interpreter of the layout written by the harness routes all cases that miss none of the values they are asked for, also after a round trip through json; in every twentieth case growforest grows a forest on up to 8 cores and exports it, which is compared with the recorded trees; non trivial = the tree splits, distinct by the tree",
		Need: []string{"trees", "grown trees", "nodes", "cases routed", "missing branches", "cases missing a value", "exported forests", "runs of growforest"},
		Run:  c30})
}

// skTree is the layout of a tree as read from json.
type skTree struct {
	NFeatures int `json:"n_features"`
	NodeCount int `json:"node_count"`
	MaxDepth  int `json:"max_depth"`
	Capacity  int `json:"capacity"`
	Nodes     []struct {
		Left      int     `json:"left_child"`
		Right     int     `json:"right_child"`
		Feature   int     `json:"feature"`
		Threshold float64 `json:"threshold"`
	} `json:"nodes"`
}

// c30cli has growforest export the forest it grows.
func c30cli(c *Ctx) {
	r := c.Rng
	n, m := 6+r.Intn(30), 1+r.Intn(6)
	t := &Table{Labels: caseLabels(n)}
	for k := 0; k < m; k++ {
		t.Cols = append(t.Cols, genNum(r, fmt.Sprintf("N:f%d", k), n, missRate(r)/2))
	}
	var target *Col
	kind := "numeric"
	if r.Intn(2) == 0 {
		target = genNum(r, "N:target", n, missRate(r)/2)
	} else {
		target = genCat(r, "C:target", n, 2+r.Intn(2), missRate(r)/2)
		canonical(target)
		kind = "gini"
		if len(target.Cats) < 2 {
			return
		}
	}
	if len(known(target)) < 2 {
		return
	}
	ti := r.Intn(m + 1)
	t.Cols = append(t.Cols[:ti:ti], append([]*Col{target}, t.Cols[ti:]...)...)
	dir, done := c.dir()
	defer done()
	j := &job{T: t, Target: target, Ti: ti, Kind: kind, Trees: 1 + r.Intn(12), Cores: 1 + r.Intn(8), Dir: dir}
	j.Args = []string{"-leafSize", fmt.Sprint(1 + r.Intn(3)), "-mTry", fmt.Sprint(1 + r.Intn(m))}
	if r.Intn(3) == 0 {
		j.Args = append(j.Args, "-maxDepth", fmt.Sprint(1+r.Intn(4)))
	}
	more := []string{"-scikitforest", "sk.json"}
	for _, a := range []string{"-nobag", "-extra", "-oob", "-selftest", "-splitmissing"} {
		if r.Intn(4) == 0 {
			more = append(more, a)
		}
	}
	j.run(c, "growforest", more...)
	if len(j.Log) != j.Trees {
		c.Fail("count", "%d trees instead of %d", len(j.Log), j.Trees)
	}
	var back []*skTree
	if err := json.Unmarshal([]byte(c.read(filepath.Join(dir, "sk.json"))), &back); err != nil {
		c.Fail("json", "%v", err)
	}
	var want, got []string
	for _, x := range j.Log {
		want = append(want, skText(x.Root))
	}
	for _, x := range back {
		if x == nil || x.NFeatures != m || x.NodeCount != len(x.Nodes) || x.Capacity != len(x.Nodes) {
			c.Fail("counts", "tree %+v", x)
		}
		var text func(k, d int) string
		depth := 0
		text = func(k, d int) string {
			if k < 0 || k >= len(x.Nodes) || d > len(x.Nodes) {
				c.Fail("structure", "node %d of %+v", k, x)
			}
			if d > depth {
				depth = d
			}
			y := x.Nodes[k]
			if y.Left < 0 && y.Right < 0 {
				return "leaf"
			}
			if y.Feature < 0 || y.Feature >= len(t.Cols) || y.Feature == ti {
				c.Fail("feature", "node %d of %+v splits on feature %d", k, x, y.Feature)
			}
			return fmt.Sprintf("(%v %v %v %v)", t.Cols[y.Feature].Name, y.Threshold, text(y.Left, d+1), text(y.Right, d+1))
		}
		got = append(got, text(0, 0))
		if depth != x.MaxDepth {
			c.Fail("depth", "depth %d reported instead of %d", x.MaxDepth, depth)
		}
	}
	sort.Strings(want)
	sort.Strings(got)
	if d := diffTexts(want, got); d != "" {
		c.Fail("forest", "exported %v", d)
	}
	c.Obs("exported forests", 1)
	c.Sig("%v %v", j.Cores, want)
}

func skText(n *RNode) string {
	if n.Feature == "" {
		return "leaf"
	}
	return fmt.Sprintf("(%v %v %v %v)", n.Feature, n.Value, skText(n.L), skText(n.R))
}

func c30(c *Ctx) {
	r := c.Rng
	if c.Case%20 == 7 {
		c30cli(c)
		return
	}
	n, m := 1+r.Intn(30), 1+r.Intn(6)
	deep := c.large(997)
	if deep {
		n = 600
	}
	t := &Table{Labels: caseLabels(n)}
	rate := missRate(r) / 2
	for j := 0; j < m; j++ {
		x := 0.
		if j > 0 {
			x = rate
		}
		t.Cols = append(t.Cols, genNum(r, fmt.Sprintf("N:f%d", j), n, x))
	}
	fm := t.FM()
	var tree *CF.Tree
	if r.Intn(3) == 0 {
		tc := t.Cols[0].NumF()
		cand := []int{}
		for j := 1; j < m; j++ {
			cand = append(cand, j)
		}
		cases := bagOf(r, n, n)
		tree = CF.NewTree()
		allocs := CF.NewBestSplitAllocs(n, tc)
		tree.Grow(fm, tc, cases, cand, nil, m, 1+r.Intn(3), r.Intn(6), r.Intn(2) == 0, false, false, false, false, nil, nil, allocs)
		c.Obs("grown trees", 1)
	} else {
		k := 0
		pred := func() string { k++; return fmt.Sprintf("leaf%d", k) }
		root := genTree(r, t, r.Intn(7), pred, r.Intn(2) == 0)
		if deep && r.Intn(2) == 0 {
			root = genChain(r, t.Cols[r.Intn(m)], 500, pred)
		} else if deep {
			root = genTree(r, t, 14, pred, false)
		}
		if r.Intn(3) == 0 {
			noMissing(root)
		}
		tree = root.build("N:t", -1)
		code(tree.Root, t, rand.New(rand.NewSource(1)))
	}
	c.Note("%v\n%v", modelOf(tree.Root), t)
	before := modelOf(tree.Root).String()
	sk := CF.NewScikitTree(m)
	CF.BuildScikitTree(0, tree.Root, sk)
	if s := modelOf(tree.Root).String(); s != before {
		c.Fail("changed", "%v became %v", before, s)
	}
	c.Obs("trees", 1)
	// the nodes in the order node, left, right
	depth := 0
	var nodes []*CF.Node
	var index = map[*CF.Node]int{}
	var list func(x *CF.Node, d int)
	list = func(x *CF.Node, d int) {
		if d > depth {
			depth = d
		}
		index[x] = len(nodes)
		nodes = append(nodes, x)
		if x.Missing != nil {
			c.Obs("missing branches", 1)
		}
		if x.Splitter != nil {
			list(x.Left, d+1)
			list(x.Right, d+1)
		}
	}
	list(tree.Root, 0)
	b, err := json.Marshal(sk)
	if err != nil {
		c.Fail("json", "%v", err)
	}
	var back skTree
	if err := json.Unmarshal(b, &back); err != nil {
		c.Fail("json", "%v", err)
	}
	if back.NFeatures != m || back.NodeCount != len(nodes) || back.Capacity != len(nodes) || len(back.Nodes) != len(nodes) || back.MaxDepth != depth {
		c.Fail("counts", "%d features, %d nodes, capacity %d, %d listed, depth %d instead of %d, %d, %d", back.NFeatures, back.NodeCount, back.Capacity, len(back.Nodes), back.MaxDepth, m, len(nodes), depth)
	}
	c.Obs("nodes", len(nodes))
	for k, x := range nodes {
		y := back.Nodes[k]
		if x.Splitter == nil {
			if y.Left != -1 || y.Right != -1 {
				c.Fail("leaf", "leaf %d has children %d and %d", k, y.Left, y.Right)
			}
			continue
		}
		if y.Left != index[x.Left] || y.Right != index[x.Right] || y.Threshold != x.Splitter.Value || y.Feature != fm.Map[x.Splitter.Feature] {
			c.Fail("node", "node %d is %+v, children should be %d and %d, feature %v at %v", k, y, index[x.Left], index[x.Right], x.Splitter.Feature, x.Splitter.Value)
		}
	}
	// the layout sends cases where the tree does
	model := modelOf(tree.Root)
	where := map[int]*RNode{}
cases:
	for i := 0; i < n; i++ {
		k := 0
		for steps := 0; back.Nodes[k].Left >= 0 || back.Nodes[k].Right >= 0; steps++ {
			y := back.Nodes[k]
			if t.Cols[y.Feature].Miss[i] {
				c.Obs("cases missing a value", 1)
				continue cases
			}
			if t.Cols[y.Feature].V[i] <= y.Threshold {
				k = y.Left
			} else {
				k = y.Right
			}
			if k < 0 || k >= len(nodes) || steps > len(nodes) {
				c.Fail("route", "case %d is lost at %d", i, k)
			}
		}
		l := model.reach(t, i)
		if nodes[k].Pred != l.Pred || where[k] != nil && where[k] != l {
			c.Fail("route", "case %d reaches leaf %d predicting %q instead of %q", i, k, nodes[k].Pred, l.Pred)
		}
		where[k] = l
		c.Obs("cases routed", 1)
	}
	if len(nodes) > 1 {
		c.Sig("%v", before)
	}
	c.Sample("%v", before)
}

// noMissing removes missing branches, which the layout leaves out.
func noMissing(n *RNode) *RNode {
	if n != nil {
		n.M = nil
		noMissing(n.L)
		noMissing(n.R)
	}
	return n
}
