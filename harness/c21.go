package main

import (
	"fmt"
	"math"
	"math/rand"
	"os"
	"path/filepath"
	"strings"

	CF "github.com/ryanbressler/CloudForest"
)

// C21: importance scores. C26: reproducible training. C31: excluded features.

func init() {
	register(&Check{Prop: "C21", Quick: 40000, Thorough: 1000000,
		Rule:        "in 3 of 10 cases growforest trains with targets, sampling, threads and growing options drawn from the seed and writes importance scores; they are recalculated from the recorded trees by routing the bags in the harness and valuing every split with the definition of the target's impurity, in the others the harness grows trees and jungles for any of the targets and does so with what each adds; non trivial = at least two features used, distinct by (options, uses)",
		Assumptions: []string{"decreases are compared with a tolerance of 1e-9 relative to the size of the terms they are calculated from", "vetting and evaluation on out of bag cases, which change what a split is worth, are left out"},
		Need:        []string{"runs of growforest", "trees", "splits valued", "unused features", "jungles", "depths left out", "on several cores", "boosted", "jungles of growforest", "uses counted"},
		Run:         c21})
	register(&Check{Prop: "C26", Quick: 9000, Thorough: 200000,
		Rule:        "growforest trains twice without seeding on a single core with data, target, sampling and growing options (also boosting, ACE, contrasts, jungles, shuffling and permuting) drawn from the seed; forests, bags, importances, predictions and reports of both runs have to agree; non trivial = a forest with splits, distinct by (options, forest)",
		Assumptions: []string{"the generator of the Go runtime starts with its fixed default seed (GODEBUG=randautoseed=0), as it did in the Go versions the option was made for"},
		Need:        []string{"runs of growforest", "trees", "same forests", "boosted", "ace", "contrasts", "jungles"},
		Run:         c26})
	register(&Check{Prop: "C31", Quick: 12000, Thorough: 300000,
		Rule:        "growforest trains with features excluded by list, by expression or by not matching an expression, contrasts and ACE with and without cutoff drawn from the seed; the recorded trees are searched for splits on features that are excluded, the best split on the remaining features is enumerated at every root; non trivial = at least one feature excluded and one used, distinct by (options, used features)",
		Assumptions: []string{"that remaining features are considered is only decided for searches that cover all of them exhaustively"},
		Need:        []string{"runs of growforest", "trees", "excluded features", "blacklisted", "blocked", "not included", "ace", "cutoff", "contrasts", "roots proven best", "unknown targets"},
		Run:         c31})
}

func c21(c *Ctx) {
	r := c.Rng
	if r.Intn(10) < 7 {
		c21trees(c)
		return
	}
	j := genJob(c, cliKinds, 6+r.Intn(40), 1+r.Intn(7))
	if j == nil {
		return
	}
	// what a split is worth isn't known in the end when boosting, out of bag or vetted
	exact, jungle := true, false
	more := []string{"-importance", "imp.tsv"}
	switch r.Intn(6) {
	case 0:
		exact = !j.O.vet && !j.O.evaloob
	case 1:
		if j.Kind == "gini" || j.Kind == "numeric" {
			j.Args = append(without(j.Args, "-vet", "-evaloob"), j.boostArgs(r)...)
			j.Cores = 1
			exact = false
			c.Obs("boosted", 1)
		} else {
			j.Args = without(j.Args, "-vet", "-evaloob")
		}
	case 2:
		j.Args = without(j.Args, "-vet", "-evaloob")
		more = append(more, j.jungle()...)
		exact, jungle = false, true
		c.Obs("jungles of growforest", 1)
	default:
		j.Args = without(j.Args, "-vet", "-evaloob")
	}
	dir, done := c.dir()
	defer done()
	j.Dir = dir
	if j.Cores > 1 {
		c.Obs("on several cores", 1)
	}
	j.run(c, "growforest", more...)
	if hasLine(j.Out, "Boosting Reached Weight") {
		return // the last tree isn't used
	}
	j.checkTrees(c, 1, j.Trees)
	type score struct {
		dec, scale, uses, trees, depth float64
	}
	want := map[string]*score{}
	for _, col := range j.T.Cols {
		want[col.Name] = &score{}
	}
	for _, t := range j.Log {
		depth := map[string]int{}
		j.walk(c, t.Root, t.Cases, 0, func(n *RNode, cs, l, rr, m []int, d int) {
			if n.Feature == "" {
				return
			}
			w := want[n.Feature]
			if !exact {
			} else if len(m) > 0 {
				w.dec += j.RT.Full(l, rr, m)
			} else {
				w.dec += j.RT.Decrease(l, rr)
			}
			w.scale += 1 + j.RT.Scale
			w.uses++
			if old, ok := depth[n.Feature]; !ok || d < old {
				depth[n.Feature] = d
			}
			c.Obs("splits valued", 1)
		})
		for f, d := range depth {
			want[f].trees++
			want[f].depth += float64(d)
		}
	}
	rows := c.tsv(filepath.Join(dir, "imp.tsv"), 7)
	if len(rows) != len(j.T.Cols) {
		c.Fail("importance", "%d lines for %d features", len(rows), len(j.T.Cols))
	}
	sig, used := "", 0
	for i, f := range rows {
		name := j.T.Cols[i].Name
		w := want[name]
		if f[0] != name {
			c.Fail("importance", "line %q for feature %v", f, name)
		}
		var v [7]float64
		for k := 1; k < 7; k++ {
			v[k] = c.float(f[k])
		}
		if jungle && v[2] >= w.trees && v[2] <= w.uses {
			w.uses = v[2] // nodes are merged, the record walks all ways to them
		}
		if v[2] != w.uses || v[5] != w.trees {
			c.Fail("uses", "%v is used %v times in %v trees, not %v in %v", name, w.uses, w.trees, f[2], f[5])
		}
		tol := 1e-9 * (1 + w.scale)
		bad := func(got, want float64) bool { return !(math.Abs(got-want) <= tol) }
		if w.uses == 0 {
			c.Obs("unused features", 1)
			if v[1] != 0 || v[3] != 0 {
				c.Fail("importance", "%v isn't used but has %q", name, f)
			}
			continue
		}
		used++
		sig += fmt.Sprint(" ", i, ":", w.uses)
		if !exact {
			// the decreases are only known to add up, however they are divided
			w.dec = v[1] * w.uses
			tol = 1e-9 * (1 + math.Abs(w.dec))
			if !(v[1] > 0) {
				c.Fail("importance", "%v decreases impurity by %v in %v uses", name, v[1], w.uses)
			}
			c.Obs("uses counted", int(w.uses))
		}
		if bad(v[1], w.dec/w.uses) || bad(v[3], w.dec/float64(j.Trees)) || bad(v[4], w.dec/w.trees) {
			c.Fail("importance", "%v decreases impurity by %v in %v uses and %v trees of %v, reported %q", name, w.dec, w.uses, w.trees, j.Trees, f)
		}
		if !near(v[6], w.depth/w.trees, 1+w.depth) {
			c.Fail("depth", "%v is used first at a mean depth of %v, reported %v", name, w.depth/w.trees, f[6])
		}
	}
	if used > 1 {
		c.Sig("%v%v", j.Args, sig)
		c.Sample("options %v, %d trees: uses%v", j.Args, j.Trees, sig)
	}
}

// c21trees grows trees and jungles in the harness and checks what they add to the scores.
func c21trees(c *Ctx) {
	r := c.Rng
	s := genSearch(r, anyKind(c), 6+r.Intn(40), 1+r.Intn(6), smallCats)
	if s == nil {
		return
	}
	if r.Intn(12) == 0 {
		s = genSearch(r, "density", 6+r.Intn(40), 1+r.Intn(6), smallCats)
	}
	cands := []int{}
	for i := range s.T.Cols {
		if i != s.Ti {
			cands = append(cands, i)
		}
	}
	if len(cands) == 0 {
		return
	}
	c.Note("target %v %v", s.RT.Kind, s.RT.Col)
	c.Note("%v", s.T)
	imp := CF.NewRunningMeans(len(s.T.Cols))
	sum, uses, scale := make([]float64, len(s.T.Cols)), make([]int, len(s.T.Cols)), 1.0
	sig := ""
	for k := 1 + r.Intn(3); k > 0; k-- {
		o := genOpts(r, s, len(cands))
		o.vet, o.evaloob = false, false
		s.Leaf = o.leaf
		c.Note("%v cases %v", o, s.Cases)
		tree := CF.NewTree()
		depth := make([]int, len(s.T.Cols))
		// either of the scores can be left out
		scores, depths := imp, &depth
		if r.Intn(5) == 0 {
			depths = nil
		} else if r.Intn(6) == 0 {
			scores = nil
		}
		s.grow(tree, o, append([]int{}, s.Cases...), append([]int{}, cands...), nil, scores, depths, r.Int63())
		order, bad := route(s.T, tree.Root, s.Cases)
		if bad != "" {
			c.Fail("structure", "%v", bad)
		}
		c.Note("tree %v", modelOf(tree.Root))
		want := make([]int, len(depth))
		for _, v := range order {
			if v.n.Splitter == nil {
				continue
			}
			i := s.FM.Map[v.n.Splitter.Feature]
			if want[i] == 0 || v.depth+1 < want[i] {
				want[i] = v.depth + 1
			}
			if scores == nil {
				continue
			}
			l, rr, m := decodedGroups(s.T.Cols[i], v.n.Splitter, v.cases)
			if len(m) > 0 && strings.HasPrefix(s.RT.Kind, "gradboost") {
				sum[i] = math.NaN() // their scores have no defined correction
			} else if len(m) > 0 {
				sum[i] += s.RT.Full(l, rr, m)
			} else {
				sum[i] += s.RT.Decrease(l, rr)
			}
			scale += 1 + s.RT.Scale
			uses[i]++
			c.Obs("splits valued", 1)
		}
		if depths == nil {
			c.Obs("depths left out", 1)
		} else if !eqInts(want, depth) {
			c.Fail("depth", "features are first used at depths %v, reported %v", want, depth)
		}
		if o.jungle {
			c.Obs("jungles", 1)
		}
		c.Obs("trees", 1)
		sig += " " + shape(modelOf(tree.Root))
	}
	for i, m := range *imp {
		mean, count := m.Read()
		if count != float64(uses[i]) {
			c.Fail("uses", "%v is used %v times, reported %v", s.T.Cols[i].Name, uses[i], count)
		}
		if count == 0 {
			c.Obs("unused features", 1)
			continue
		}
		if math.IsNaN(sum[i]) {
			continue
		}
		if !(math.Abs(mean*count-sum[i]) <= 1e-9*scale) {
			c.Fail("importance", "%v decreases impurity by %v in %v uses, reported a mean of %v", s.T.Cols[i].Name, sum[i], count, mean)
		}
	}
	c.Sig("%v%v", s.RT.Kind, sig)
}

// walk routes the cases through a recorded tree.
func (j *job) walk(c *Ctx, n *RNode, cs []int, depth int, f func(n *RNode, cs, l, r, m []int, depth int)) {
	if n == nil {
		return
	}
	var l, r, m []int
	if n.Feature != "" {
		col := j.T.Col(n.Feature)
		if col == nil {
			c.Fail("feature", "split on unknown feature %q", n.Feature)
		}
		for _, i := range cs {
			switch n.side(col, i) {
			case 'L':
				l = append(l, i)
			case 'R':
				r = append(r, i)
			default:
				m = append(m, i)
			}
		}
	}
	f(n, cs, l, r, m, depth)
	j.walk(c, n.L, l, depth+1, f)
	j.walk(c, n.R, r, depth+1, f)
	j.walk(c, n.M, m, depth+1, f)
}

func without(args []string, names ...string) (out []string) {
	for _, a := range args {
		keep := true
		for _, n := range names {
			keep = keep && a != n
		}
		if keep {
			out = append(out, a)
		}
	}
	return
}

// boostArgs draws a boosting method for the target.
func (j *job) boostArgs(r *rand.Rand) []string {
	if j.Target.Num {
		return [][]string{{"-adaboost"}, {"-gbt", []string{"0.1", "0.5"}[r.Intn(2)]}}[r.Intn(2)]
	}
	switch r.Intn(3) {
	case 0:
		return []string{"-adaboost"}
	case 1:
		costs := map[string]float64{}
		for _, l := range j.Target.Cats {
			costs[l] = float64(1 + r.Intn(3))
		}
		return []string{"-adaboost", "-adacost", js(costs)}
	}
	return []string{"-gbt", "0.1", "-positive", j.Target.Cats[0]}
}

func c26(c *Ctx) {
	r := c.Rng
	j := genJob(c, cliKinds, 8+r.Intn(30), 2+r.Intn(6))
	if j == nil {
		return
	}
	dir, done := c.dir()
	defer done()
	j.Cores = 1
	more := []string{"-noseed", "-rfpred", "forest.sf", "-oobpreds", "oob.tsv", "-importance", "imp.tsv", "-selftest"}
	if (j.Kind == "gini" || j.Kind == "numeric") && r.Intn(3) == 0 {
		j.Args = without(j.Args, "-vet", "-evaloob", "-balance")
		more = append(more, j.boostArgs(r)...)
		c.Obs("boosted", 1)
	} else if r.Intn(6) == 0 {
		more = append(replaceArg(more, "-rfpred"), j.jungle()...)
		c.Obs("jungles", 1)
	}
	if r.Intn(6) == 0 {
		more = append(more, "-ace", "3", "-cutoff", "0.6")
		c.Obs("ace", 1)
	} else if r.Intn(5) == 0 {
		more = append(more, [][]string{{"-contrastall"}, {"-nContrasts", "3"}}[r.Intn(2)]...)
		c.Obs("contrasts", 1)
	}
	if r.Intn(5) == 0 {
		more = append(more, [][]string{{"-shuffleRE", "f1"}, {"-permute"}, {"-impute"}}[r.Intn(3)]...)
	}
	var out [2]string
	var log [2][]*gtree
	for k := range out {
		j.Dir = filepath.Join(dir, fmt.Sprint(k))
		os.Mkdir(j.Dir, 0777)
		write(filepath.Join(j.Dir, "train.afm"), j.T.AFM())
		args := append([]string{"-train", "train.afm", "-target", j.Target.Name, "-nTrees", fmt.Sprint(j.Trees)}, j.Args...)
		args = append(args, more...)
		if k == 0 {
			c.Note("growforest %q", args)
			c.Note("%v", j.T)
		}
		out[k] = c.must(j.Dir, "growforest", []string{"VERIF_TREELOG=" + filepath.Join(j.Dir, "trees.log"), "GODEBUG=randautoseed=0"}, args...)
		log[k] = c.readLog(filepath.Join(j.Dir, "trees.log"))
		c.Obs("trees", len(log[k]))
	}
	if len(log[0]) != len(log[1]) {
		c.Fail("forest", "%d trees and %d trees", len(log[0]), len(log[1]))
	}
	splits := 0
	for i := range log[0] {
		a, b := log[0][i], log[1][i]
		ta, tb := treeText(a.Root, a.Weight), treeText(b.Root, b.Weight)
		if ta != tb || !eqInts(a.Cases, b.Cases) {
			c.Fail("forest", "tree %d is\n%v of %v\nand\n%v of %v", i, ta, a.Cases, tb, b.Cases)
		}
		if a.Root.Feature != "" {
			splits++
		}
	}
	for _, f := range []string{"oob.tsv", "imp.tsv"} {
		if a, b := c.read(filepath.Join(dir, "0", f)), c.read(filepath.Join(dir, "1", f)); a != b {
			c.Fail(f, "%v is\n%v\nand\n%v", f, a, b)
		}
	}
	clean := func(s string) (o []string) {
		for _, l := range lines(s) {
			if !strings.HasPrefix(l, "Total training time") {
				o = append(o, l)
			}
		}
		return
	}
	if a, b := clean(out[0]), clean(out[1]); strings.Join(a, "\n") != strings.Join(b, "\n") {
		c.Fail("report", "reported\n%v\nand\n%v", strings.Join(a, "\n"), strings.Join(b, "\n"))
	}
	c.Obs("same forests", 1)
	if splits > 0 {
		c.Sig("%v %v %v", j.Args, more, len(log[0]))
		c.Sample("options %v %v: %d trees, first %v", j.Args, more, len(log[0]), log[0][0].Root)
	}
}

func c31(c *Ctx) {
	r := c.Rng
	j := genJob(c, moreKinds(c), 8+r.Intn(40), 2+r.Intn(8))
	if j == nil {
		return
	}
	dir, done := c.dir()
	defer done()
	j.Dir = dir
	excluded := map[string]bool{j.Target.Name: true}
	names, ok := j.rename(r)
	if !ok {
		return
	}
	var more []string
	if r.Intn(2) == 0 {
		var list []string
		for _, n := range names {
			if r.Intn(4) == 0 {
				list = append(list, n)
				excluded[n] = true
				if r.Intn(4) == 0 {
					list = append(list, n)
				}
			}
		}
		if r.Intn(4) == 0 {
			list = append(list, "N:nothing")
		}
		if len(list) > 0 {
			text := strings.Join(list, "\n")
			if r.Intn(2) == 0 {
				text += "\n"
			}
			write(filepath.Join(dir, "black"), text)
			more = append(more, "-blacklist", "black")
			c.Obs("blacklisted", len(list))
		}
	}
	part := []string{"a", "b", "0", "1", "N:", "C:", "q", "ab", "2", "target"}
	if r.Intn(2) == 0 {
		p := part[r.Intn(len(part))]
		more = append(more, "-blockRE", p)
		for _, n := range names {
			if strings.Contains(n, p) {
				excluded[n] = true
				c.Obs("blocked", 1)
			}
		}
	}
	if r.Intn(3) == 0 {
		p := part[r.Intn(len(part))]
		more = append(more, "-includeRE", p)
		for _, n := range names {
			if !strings.Contains(n, p) {
				excluded[n] = true
				c.Obs("not included", 1)
			}
		}
	}
	left := len(j.T.Cols) - len(excluded)
	if left == 0 {
		return
	}
	if r.Intn(40) == 0 {
		// nothing can be trained for a target that isn't there
		name := []string{j.Target.Name + "x", j.Target.Name[:len(j.Target.Name)-1], strings.ToUpper(j.Target.Name), "", "N:" + j.Target.Name}[r.Intn(5)]
		if j.T.Col(name) != nil {
			return
		}
		write(filepath.Join(dir, "train.afm"), j.T.AFM())
		args := append([]string{"-train", "train.afm", "-target", name, "-rfpred", "forest.sf"}, append(j.Args, more...)...)
		out, _, ok := c.tool(dir, "growforest", nil, args...)
		if ok {
			c.Fail("unknown-target", "%q trains for a target that isn't there: %v", args, out)
		}
		if b, err := os.ReadFile(filepath.Join(dir, "forest.sf")); err == nil && len(b) > 0 {
			c.Fail("unknown-target", "%q writes a forest for a target that isn't there: %s", args, b)
		}
		c.Obs("unknown targets", 1)
		return
	}
	c.Obs("excluded features", len(excluded)-1)
	forests, ace, contrasts, cut := 1, 0, 0, -1.0
	switch r.Intn(5) {
	case 0:
		ace = 2 + r.Intn(3)
		forests = ace
		more = append(more, "-ace", fmt.Sprint(ace), "-importance", "imp.tsv")
		c.Obs("ace", 1)
		if r.Intn(2) == 0 {
			cut = []float64{.9, .6, .3}[r.Intn(3)]
			more = append(more, "-cutoff", fmt.Sprint(cut))
			forests++
			c.Obs("cutoff", 1)
		}
	case 1:
		// contrasts are only excluded by expressions that match their own names
		if len(more) == 0 {
			contrasts = len(j.T.Cols)
			more = append(more, "-contrastall")
			c.Obs("contrasts", 1)
		}
	}
	jungle := ace+contrasts == 0 && !j.O.vet && r.Intn(6) == 0
	if jungle {
		more = append(more, j.jungle()...)
		c.Obs("jungles", 1)
	}
	var prep []string
	if ace+contrasts == 0 {
		prep = without(j.prepare(r), "-contrastall")
	}
	j.run(c, "growforest", append(prep, more...)...)
	if prep != nil {
		j = j.prepared(c)
	}
	j.checkTrees(c, forests, j.Trees)
	if n := c.printed(j.Out, "Non Target Features :"); n != fmt.Sprint(left+contrasts) {
		c.Fail("count", "%v features reported instead of %v", n, left+contrasts)
	}
	selected := map[string]bool{}
	if ace > 0 {
		for _, f := range c.tsv(filepath.Join(dir, "imp.tsv"), 4) {
			if f[0] != j.Target.Name {
				c.Fail("importance", "line %q for target %v", f, j.Target.Name)
			}
			p, m := c.float(f[2]), c.float(f[3])
			if p < cut && m > 0 {
				selected[f[1]] = true
			}
			if !(p >= 0 && p <= 1.0000001) && !math.IsNaN(p) {
				c.Fail("importance", "p value %v", p)
			}
		}
	}
	used := map[string]bool{}
	for _, t := range j.Log {
		t.Root.walk(func(n *RNode, _ string) {
			f := n.Feature
			if f == "" {
				return
			}
			used[f] = true
			real := strings.TrimSuffix(f, ":SHUFFLED")
			if j.T.Col(real) == nil {
				c.Fail("unknown", "split on unknown feature %q", f)
			}
			if real != f && ace+contrasts == 0 {
				c.Fail("unknown", "split on contrast %q without contrasts", f)
			}
			if contrasts == 0 && excluded[real] {
				c.Fail("excluded", "split on excluded feature %q", f)
			}
			if f == j.Target.Name {
				c.Fail("target", "split on the target")
			}
			if cut > 0 && t.Forest == forests-1 && (real != f || !selected[f]) {
				c.Fail("cutoff", "the last forest splits on %q, significant features are %v", f, keys(selected))
			}
		}, "*")
	}
	// the best split on the features that are left is made
	if ace+contrasts == 0 {
		j.checkRoots(c, excluded)
		j.checkOobRoots(c, excluded)
		if !jungle {
			j.checkLeaves(c)
		}
	}
	if len(excluded) > 1 && len(used) > 0 {
		c.Sig("%v %v %v", j.Args, more, keys(used))
		c.Sample("options %v %v: used %v excluded %v", j.Args, more, keys(used), keys(excluded))
	}
}

func (j *job) divide(n *RNode, cs []int) (l, r, m []int) {
	col := j.T.Col(n.Feature)
	for _, i := range cs {
		switch n.side(col, i) {
		case 'L':
			l = append(l, i)
		case 'R':
			r = append(r, i)
		default:
			m = append(m, i)
		}
	}
	return
}
