package main

import (
	"fmt"
	"math"
	"math/rand"
	"strconv"

	CF "github.com/ryanbressler/CloudForest"
)

// C19: gradient boosting. C20: adaptive boosting.

func init() {
	register(&Check{Prop: "C19", Quick: 60000, Thorough: 1500000,
		Rule:        "a gradient boosting target for regression or two classes is drawn from the seed and boosted by a sequence of partitions with predictions, by the trees of a grown forest, or (every 40th case) by growforest; a ledger of what every case was predicted so far is kept by the harness and compared with the target's residuals and the recorded trees; non trivial = at least two steps, distinct by (target, steps)",
		Assumptions: []string{"leaves of trees for classes are only decided while the sum of their variances is above 1e-6"},
		Need:        []string{"boosting steps", "residuals", "missing targets", "cases without prediction", "trees of forests", "trees of growforest", "leaves of growforest", "for classes", "prepared data"},
		Run:         c19})
	register(&Check{Prop: "C20", Quick: 60000, Thorough: 1500000,
		Rule:        "an adaptive boosting target (labels, labels with costs or numbers) is drawn from the seed and boosted by a sequence of partitions, by the trees of a grown forest, or (every 40th case) by growforest; weights of cases and trees are compared with those the harness calculates from its own ledger; non trivial = at least one step that changes the weights, distinct by (target, steps)",
		Assumptions: []string{"where labels of a leaf tie either may count as the leaf's, steps within 1e-9 of an error of a half or none aren't decided"},
		Need:        []string{"boosting steps", "weights changed", "weights kept", "perfect partitions", "missing targets", "trees of forests", "trees of growforest", "with costs", "for numbers", "prepared data"},
		Run:         c20})
}

// genPartition splits a subset of n cases into leaves.
func genPartition(r *rand.Rand, n int) [][]int {
	k := 1 + r.Intn(5)
	leaves := make([][]int, k)
	drop := r.Intn(3) == 0
	for _, i := range r.Perm(n) {
		if drop && r.Intn(4) == 0 {
			continue
		}
		j := r.Intn(k)
		leaves[j] = append(leaves[j], i)
	}
	return leaves
}

// leavesOf routes all cases of the table to their leaves.
func leavesOf(t *Table, root *RNode) (leaves [][]int, preds []string) {
	at := map[*RNode]int{}
	for i := range t.Labels {
		leaf := root.reach(t, i)
		if leaf == nil {
			continue
		}
		j, ok := at[leaf]
		if !ok {
			j = len(leaves)
			at[leaf] = j
			leaves = append(leaves, nil)
			preds = append(preds, leaf.Pred)
		}
		leaves[j] = append(leaves[j], i)
	}
	return
}

// gradLedger is what gradient boosting has to know.
type gradLedger struct {
	class     bool
	y         []float64 // actual values
	miss      []bool
	pred      []float64 // prediction so far, including the intercept
	rate      float64
	intercept float64
	scale     float64
}

func (g *gradLedger) residual(i int) float64 {
	if g.class {
		return g.y[i] - 1/(1+math.Exp(-g.pred[i]))
	}
	return g.y[i] - g.pred[i]
}

func (g *gradLedger) step(leaves [][]int, preds []string) {
	for k, cs := range leaves {
		p, _ := strconv.ParseFloat(preds[k], 64)
		g.scale = math.Max(g.scale, math.Abs(p))
		for _, i := range cs {
			g.pred[i] += g.rate * p
		}
	}
}

// leaf is what a leaf has to predict for the cases, ok if that is well conditioned.
func (g *gradLedger) leaf(cs []int) (want float64, ok bool) {
	num, den := 0.0, 0.0
	for _, i := range cs {
		if g.miss[i] {
			continue
		}
		x := g.residual(i)
		num += x
		if g.class {
			p := g.y[i] - x
			den += p * (1 - p)
		} else {
			den++
		}
	}
	return num / den, den > 1e-6
}

// newGrad makes the ledger for boosting a column, nil if it can't be boosted.
func newGrad(col *Col, pos string, rate float64) *gradLedger {
	n := len(col.Miss)
	g := &gradLedger{class: !col.Num, rate: rate, miss: append([]bool{}, col.Miss...), y: make([]float64, n), pred: make([]float64, n), scale: 1}
	sum, k := 0.0, 0.0
	for i := range g.y {
		if col.Miss[i] {
			continue
		}
		if col.Num {
			g.y[i] = col.V[i]
		} else if col.Label(i) == pos {
			g.y[i] = 1
		}
		sum += g.y[i]
		k++
	}
	if k == 0 || g.class && (sum == 0 || sum == k) {
		return nil
	}
	g.intercept = sum / k
	if g.class {
		g.intercept = math.Log(sum / (k - sum))
	} else {
		g.scale = maxAbs(col.V) * k
	}
	for i := range g.pred {
		g.pred[i] = g.intercept
	}
	return g
}

func c19(c *Ctx) {
	r := c.Rng
	if c.Case%40 == 0 {
		gradCLI(c)
		return
	}
	kind := []string{"numeric", "gini"}[r.Intn(2)]
	n := 4 + r.Intn(24)
	if c.large(997) {
		n = 100 + r.Intn(400)
	}
	s := genSearch(r, []string{"numeric", "gradboostclass"}[map[string]int{"numeric": 0, "gini": 1}[kind]], n, 1+r.Intn(4), smallCats)
	if s == nil {
		return
	}
	t, fm := s.T, s.T.FM()
	col := t.Cols[s.Ti]
	rate := []float64{.1, .5, 1, .01 + r.Float64()}[r.Intn(4)]
	pos := ""
	if !col.Num {
		pos = col.Cats[r.Intn(len(col.Cats))]
		c.Obs("for classes", 1)
	}
	g := newGrad(col, pos, rate)
	if g == nil {
		return
	}
	var target CF.BoostingTarget
	var res CF.NumFeature
	var gc *CF.GradBoostClassTarget
	if col.Num {
		gt := CF.NewGradBoostTarget(fm.Data[s.Ti].(CF.NumFeature), rate)
		target, res = gt, gt.NumFeature
	} else {
		gc = CF.NewGradBoostClassTarget(fm.Data[s.Ti].(CF.CatFeature), rate, pos)
		target, res = gc, gc.GradBoostTarget.NumFeature
	}
	if x := target.(CF.TargetWithIntercept).Intercept(); !near(x, g.intercept, g.scale) {
		c.Fail("intercept", "%v instead of %v for %v", x, g.intercept, col)
	}
	steps := ""
	check := func(when string) {
		for i := range g.y {
			if res.IsMissing(i) != g.miss[i] {
				c.Fail("missing", "%v: case %d missing: %v", when, i, res.IsMissing(i))
			}
			if g.miss[i] {
				c.Obs("missing targets", 1)
				continue
			}
			if x := res.Get(i); !near(x, g.residual(i), g.scale) {
				c.Fail("residual", "%v: residual of case %d is %v instead of %v (value %v predicted so far %v)\n%v\n%v", when, i, x, g.residual(i), g.y[i], g.pred[i], col, steps)
			}
			if gc != nil {
				if gc.Actual.Get(i) != g.y[i] {
					c.Fail("actual", "%v: actual value of case %d is %v instead of %v", when, i, gc.Actual.Get(i), g.y[i])
				}
				if !near(gc.Pred.Get(i), g.pred[i], g.scale) {
					c.Fail("sum", "%v: case %d is predicted %v instead of %v", when, i, gc.Pred.Get(i), g.pred[i])
				}
			}
			c.Obs("residuals", 1)
		}
	}
	check("at the start")
	if r.Intn(6) == 0 {
		// a forest
		cands := []int{}
		for j := range t.Cols {
			if j != s.Ti {
				cands = append(cands, j)
			}
		}
		n := len(t.Labels)
		ntrees := 1 + r.Intn(4)
		if n >= 100 {
			ntrees = 1 + r.Intn(40)
		}
		f := CF.GrowRandomForest(fm, target.(CF.Target), cands, n, len(cands), ntrees, s.Leaf, 0, r.Intn(2) == 0, false, false, false, nil)
		if !near(f.Intercept, g.intercept, g.scale) {
			c.Fail("intercept", "forest has %v instead of %v", f.Intercept, g.intercept)
		}
		box := CF.NewSumBallotBox(n)
		all := make([]bool, n)
		for k, tr := range f.Trees {
			m := modelOf(tr.Root)
			if tr.Weight != rate {
				c.Fail("weight", "tree %d has weight %v instead of %v", k, tr.Weight, rate)
			}
			leaves, preds := leavesOf(t, m)
			for l, cs := range leaves {
				p, err := strconv.ParseFloat(preds[l], 64)
				if err != nil {
					if len(cs) > 0 && preds[l] == "" {
						c.Fail("leaf", "leaf of tree %d predicts %q", k, preds[l])
					}
					continue
				}
				if g.class || math.IsNaN(p) {
					continue
				}
				lo, hi := math.Inf(1), math.Inf(-1)
				for _, i := range cs {
					if !g.miss[i] {
						lo, hi = math.Min(lo, g.residual(i)), math.Max(hi, g.residual(i))
					}
				}
				if e := 1e-9 * (1 + g.scale); p < lo-e || p > hi+e {
					c.Fail("leaf", "tree %d predicts %v for a leaf whose residuals are between %v and %v", k, p, lo, hi)
				}
			}
			for _, cs := range leaves {
				for _, i := range cs {
					all[i] = true
				}
			}
			g.step(leaves, preds)
			tr.Vote(fm, box)
			steps += fmt.Sprintf("%v\n", m)
		}
		check("after the forest")
		for i := range all {
			if !all[i] {
				c.Obs("cases without prediction", 1)
				continue
			}
			if x := box.TallyNum(i) + f.Intercept; !near(x, g.pred[i], g.scale) {
				c.Fail("vote", "forest predicts %v for case %d instead of %v", x, i, g.pred[i])
			}
		}
		c.Obs("trees of forests", ntrees)
	} else {
		for k := manySteps(r, n); k > 0; k-- {
			leaves := genPartition(r, len(t.Labels))
			preds := make([]string, len(leaves))
			in := 0
			for l, cs := range leaves {
				in += len(cs)
				x := r.NormFloat64() * 2
				if y, ok := g.leaf(cs); ok && r.Intn(2) == 0 {
					x = y
				}
				preds[l] = fmt.Sprintf("%v", x)
			}
			c.Obs("cases without prediction", len(t.Labels)-in)
			steps += fmt.Sprintf("%v %v\n", leaves, preds)
			arg := make([][]int, len(leaves))
			for l := range leaves {
				arg[l] = append([]int{}, leaves[l]...)
			}
			args := append([]string{}, preds...)
			if w := target.Boost(&arg, &args); w != rate {
				c.Fail("weight", "tree of weight %v instead of %v", w, rate)
			}
			g.step(leaves, preds)
			check("after boosting")
			c.Obs("boosting steps", 1)
		}
	}
	c.Sig("%v %v", col, steps)
	c.Sample("%v rate %v\n%v", col, rate, steps)
}

func gradCLI(c *Ctx) {
	r := c.Rng
	j := genJob(c, []string{"numeric", "gini"}, 8+r.Intn(30), 1+r.Intn(5))
	if j == nil || !j.Target.Num && len(j.Target.Cats) != 2 {
		return
	}
	rate := []float64{.1, .5, 1}[r.Intn(3)]
	pos := ""
	j.Args = append(without(j.Args, "-vet", "-evaloob", "-balance"), "-gbt", fmt.Sprint(rate))
	if !j.Target.Num {
		pos = j.Target.Cats[r.Intn(2)]
		j.Args = append(j.Args, "-positive", pos)
		c.Obs("for classes", 1)
	}
	more := []string{"-rfpred", "forest.sf"}
	target, prep := j.Target, r.Intn(4) == 0
	if prep {
		// residuals are those of the data that is trained on
		if r.Intn(2) == 0 {
			more = append(more, "-impute")
			if j.Target.Num {
				target, _ = imputed(target)
			}
			if !hasArg(j.Args, "-nSamples") {
				j.Sample = j.T.N()
			}
		}
		if !j.Target.Num && r.Intn(2) == 0 {
			more = append(more, "-permute")
		}
		if r.Intn(2) == 0 {
			more = append(more, "-contrastall")
		}
		if r.Intn(2) == 0 {
			more = append(more, "-shuffleRE", ".")
		}
		j.Data = true
	}
	if newGrad(target, pos, rate) == nil {
		return
	}
	dir, done := c.dir()
	defer done()
	j.Dir, j.Cores, j.Bal = dir, 1, false
	j.run(c, "growforest", more...)
	if prep {
		j = j.prepared(c)
		if j.Target.Num {
			// the residuals replace the target before it is recorded
			j.Target, j.T.Cols[j.Ti] = target, target
		}
	}
	g := newGrad(j.Target, pos, rate)
	if g == nil {
		return
	}
	if len(j.Log) > 0 {
		j.checkTrees(c, 1, j.Trees)
	}
	f := readForest(c, dir+"/forest.sf")
	if !near(f.Intercept, g.intercept, g.scale) {
		c.Fail("intercept", "forest has %v instead of %v", f.Intercept, g.intercept)
	}
	if len(j.Log) != j.Trees || len(f.Trees) != j.Trees {
		c.Fail("trees", "%d grown and %d written instead of %d", len(j.Log), len(f.Trees), j.Trees)
	}
	for k, tr := range j.Log {
		if tr.Weight != rate {
			c.Fail("weight", "tree %d has weight %v instead of %v", k, tr.Weight, rate)
		}
		if a, b := treeText(tr.Root, rate), treeText(modelOf(f.Trees[k].Root), f.Trees[k].Weight); a != b {
			c.Fail("order", "tree %d is written as\n%v\ninstead of\n%v", k, b, a)
		}
		bag := map[*RNode][]int{}
		for _, i := range tr.Cases {
			if leaf := tr.Root.reach(j.T, i); leaf != nil {
				bag[leaf] = append(bag[leaf], i)
			}
		}
		for leaf, cs := range bag {
			want, ok := g.leaf(cs)
			if !ok {
				continue
			}
			if d := predFloat(want, g.scale+math.Abs(want), leaf.Pred); d != "" && (!g.class || math.Abs(want) < 1e3) {
				c.Fail("leaf", "tree %d: %v for the cases %v", k, d, cs)
			}
			c.Obs("leaves of growforest", 1)
		}
		leaves, preds := leavesOf(j.T, tr.Root)
		g.step(leaves, preds)
		c.Obs("trees of growforest", 1)
	}
	c.Sig("%v", j.Log)
}

// adaLedger is what adaptive boosting has to know.
type adaLedger struct {
	col  *Col
	w    []float64
	cost []float64
	norm float64
}

type adaStep struct {
	weight float64
	w      []float64
	unsure bool
}

func newAda(col *Col, cost []float64) *adaLedger {
	k := known(col)
	a := &adaLedger{col: col, w: make([]float64, len(col.Miss)), cost: cost}
	for _, i := range k {
		a.w[i] = 1 / float64(len(k))
	}
	if col.Num {
		m := meanOf(col, k)
		for _, i := range k {
			a.norm += math.Abs(col.V[i] - m)
		}
	}
	return a
}

func normalise(w []float64) {
	s := sumv(w)
	for i := range w {
		w[i] /= s
	}
}

// step returns all results a partition may have, several if labels tie.
func (a *adaLedger) step(leaves [][]int) (out []adaStep) {
	if a.col.Num {
		e := 0.0
		errs := map[int]float64{}
		for _, cs := range leaves {
			m := meanOf(a.col, cs)
			for _, i := range cs {
				if !a.col.Miss[i] {
					errs[i] = math.Abs(a.col.V[i] - m)
					e += a.w[i] * errs[i]
				}
			}
		}
		eps := 1e-9 * a.norm
		switch {
		case e <= 0:
			return []adaStep{{weight: math.Inf(1), w: a.w}}
		case math.Abs(e-a.norm) < eps || e < eps:
			return []adaStep{{unsure: true}}
		case e > a.norm:
			return []adaStep{{weight: 0, w: a.w}}
		}
		s := adaStep{weight: math.Log(a.norm / e), w: make([]float64, len(a.w))}
		big := math.Inf(-1)
		x := make([]float64, len(a.w))
		for i := range a.w {
			if d, ok := errs[i]; ok {
				x[i] = s.weight * (d - e)
			}
			if a.w[i] > 0 {
				big = math.Max(big, x[i])
			}
		}
		for i := range a.w {
			if a.w[i] > 0 {
				s.w[i] = a.w[i] * math.Exp(x[i]-big)
			}
		}
		normalise(s.w)
		return []adaStep{s}
	}
	// labels
	var wins [][]int
	combos := 1
	for _, cs := range leaves {
		n := counts(a.col, cs)
		best := 0.0
		for _, x := range n {
			best = math.Max(best, x)
		}
		var win []int
		for k, x := range n {
			if x == best {
				win = append(win, k)
			}
		}
		if best == 0 {
			win = []int{0} // no case counts
		}
		wins = append(wins, win)
		combos *= len(win)
		if combos > 256 {
			return []adaStep{{unsure: true}}
		}
	}
	for q := 0; q < combos; q++ {
		p := q
		e := 0.0
		wrong := map[int]bool{}
		in := map[int]bool{}
		for l, cs := range leaves {
			win := wins[l][p%len(wins[l])]
			p /= len(wins[l])
			for _, i := range cs {
				if a.col.Miss[i] {
					continue
				}
				in[i] = true
				if a.col.K[i] != win {
					wrong[i] = true
					e += a.w[i] * a.cost[a.col.K[i]]
				}
			}
		}
		switch {
		case len(wrong) == 0 || e == 0:
			out = append(out, adaStep{weight: math.Inf(1), w: a.w})
			continue
		case math.Abs(e-.5) < 1e-9 || e < 1e-9:
			return []adaStep{{unsure: true}}
		case e > .5:
			out = append(out, adaStep{weight: 0, w: a.w})
			continue
		}
		s := adaStep{weight: .5 * math.Log((1-e)/e), w: append([]float64{}, a.w...)}
		for i := range in {
			if wrong[i] {
				s.w[i] *= math.Exp(s.weight) * a.cost[a.col.K[i]]
			} else {
				s.w[i] *= math.Exp(-s.weight) * a.cost[a.col.K[i]]
			}
		}
		normalise(s.w)
		out = append(out, s)
	}
	return
}

func sameWeights(a, b []float64) string {
	if len(a) != len(b) {
		return "number of cases changed"
	}
	for i := range a {
		if math.IsNaN(b[i]) || math.Abs(a[i]-b[i]) > 1e-8*(a[i]+1e-6) {
			return fmt.Sprintf("weight of case %d is %v instead of %v", i, b[i], a[i])
		}
	}
	return ""
}

// adaTarget wraps a feature as adaptive boosting target.
func adaTarget(r *rand.Rand, c *Ctx, col *Col, f CF.Feature) (target CF.BoostingTarget, a *adaLedger, weights func() []float64) {
	cost := make([]float64, len(col.Cats))
	for k := range cost {
		cost[k] = 1
	}
	switch {
	case col.Num:
		x := CF.NewNumAdaBoostTarget(f.(CF.NumFeature))
		target, weights = x, func() []float64 { return x.Weights }
		c.Obs("for numbers", 1)
	case r.Intn(2) == 0:
		x := CF.NewAdaBoostTarget(f.(CF.CatFeature))
		target, weights = x, func() []float64 { return x.Weights }
	default:
		x := CF.NewAdaCostTarget(f.(CF.CatFeature))
		m := map[string]float64{}
		for k := range cost {
			cost[k] = []float64{1, .5, .25, 2, r.Float64() + .1}[r.Intn(5)]
			m[col.Cats[k]] = cost[k]
		}
		x.SetCosts(m)
		target, weights = x, func() []float64 { return x.Weights }
		c.Obs("with costs", 1)
	}
	return target, newAda(col, cost), weights
}

func c20(c *Ctx) {
	r := c.Rng
	if c.Case%40 == 0 {
		adaCLI(c)
		return
	}
	n := 4 + r.Intn(24)
	if c.large(997) {
		n = 100 + r.Intn(400)
	}
	s := genSearch(r, []string{"numeric", "gini"}[r.Intn(2)], n, 1+r.Intn(4), smallCats)
	if s == nil {
		return
	}
	t, fm := s.T, s.T.FM()
	col := t.Cols[s.Ti]
	target, a, weights := adaTarget(r, c, col, fm.Data[s.Ti])
	if d := sameWeights(a.w, weights()); d != "" {
		c.Fail("weights", "at the start: %v\n%v", d, col)
	}
	c.Obs("missing targets", len(col.Miss)-len(known(col)))
	steps, changed := "", false
	if r.Intn(6) == 0 {
		cands := []int{}
		for j := range t.Cols {
			if j != s.Ti {
				cands = append(cands, j)
			}
		}
		n := len(t.Labels)
		ntrees := 1 + r.Intn(4)
		if n >= 100 {
			ntrees = 1 + r.Intn(40)
		}
		f := CF.GrowRandomForest(fm, target.(CF.Target), cands, n, len(cands), ntrees, s.Leaf+r.Intn(4), 0, r.Intn(2) == 0, false, false, false, nil)
		var ts []*gtree
		for _, tr := range f.Trees {
			ts = append(ts, &gtree{Weight: tr.Weight, Root: modelOf(tr.Root)})
			steps += fmt.Sprintf("%v %v\n", modelOf(tr.Root), tr.Weight)
		}
		c.Note("%v\n%v", t, steps)
		end := followAda(c, t, a, ts)
		if end != nil {
			d := "none of the ledgers"
			for _, e := range end {
				if d != "" {
					d = sameWeights(e.w, weights())
				}
			}
			if d != "" {
				c.Fail("weights", "after the forest: %v", d)
			}
		}
		c.Obs("trees of forests", ntrees)
		changed = true
	} else {
		for k := manySteps(r, n); k > 0; k-- {
			leaves := genPartition(r, len(t.Labels))
			if r.Intn(2) == 0 { // mostly right ones
				leaves = rightish(r, col, r.Intn(4))
			}
			preds := make([]string, len(leaves))
			for l, cs := range leaves {
				if len(cs) > 0 {
					preds[l] = target.(CF.Feature).FindPredicted(cs)
				}
			}
			arg := make([][]int, len(leaves))
			for l := range leaves {
				arg[l] = append([]int{}, leaves[l]...)
			}
			before := append([]float64{}, weights()...)
			got := target.Boost(&arg, &preds)
			steps += fmt.Sprintf("%v %v\n", leaves, got)
			now := append([]float64{}, weights()...)
			opts := a.step(leaves)
			unsure := false
			d := ""
			for _, o := range opts {
				if o.unsure {
					unsure = true
					break
				}
				d = ""
				if o.weight != got && !near(o.weight, got, 10) {
					d = fmt.Sprintf("tree of weight %v instead of %v", got, o.weight)
				} else {
					d = sameWeights(o.w, now)
				}
				if d == "" {
					break
				}
			}
			if d != "" && !unsure {
				c.Fail("boost", "%v\n%v\nweights before %v\n%v", d, col, before, steps)
			}
			if s := sumv(now); math.Abs(s-1) > 1e-9 {
				c.Fail("sum", "weights sum to %v\n%v\n%v", s, col, steps)
			}
			copy(a.w, now)
			if math.IsInf(got, 1) {
				c.Obs("perfect partitions", 1)
			}
			if sameWeights(before, now) == "" {
				c.Obs("weights kept", 1)
			} else {
				changed = true
				c.Obs("weights changed", 1)
			}
			c.Obs("boosting steps", 1)
		}
	}
	if changed {
		c.Sig("%v %v", col, steps)
		c.Sample("%v\n%v", col, steps)
	}
}

// rightish is a partition by target with some errors.
func rightish(r *rand.Rand, col *Col, errors int) [][]int {
	by := map[string][]int{}
	var order []string
	n := len(col.Miss)
	for i := 0; i < n; i++ {
		s := col.Str(i)
		if by[s] == nil {
			order = append(order, s)
		}
		by[s] = append(by[s], i)
	}
	var leaves [][]int
	for _, s := range order {
		leaves = append(leaves, by[s])
	}
	for ; errors > 0; errors-- {
		x, y := r.Intn(len(leaves)), r.Intn(len(leaves))
		if x != y && len(leaves[x]) > 1 {
			k := len(leaves[x]) - 1
			leaves[y] = append(leaves[y], leaves[x][k])
			leaves[x] = leaves[x][:k]
		}
	}
	return leaves
}

// followAda checks the weights of trees grown one after the other, it returns the
// ledgers they may have left or nil if that can't be decided.
func followAda(c *Ctx, t *Table, a *adaLedger, ts []*gtree) []*adaLedger {
	cur := []*adaLedger{a}
	for k, tr := range ts {
		leaves, _ := leavesOf(t, tr.Root)
		var next []*adaLedger
		var wants []float64
		for _, l := range cur {
			for _, o := range l.step(leaves) {
				if o.unsure {
					return nil
				}
				wants = append(wants, o.weight)
				if o.weight == tr.Weight || near(o.weight, tr.Weight, 10) {
					next = append(next, &adaLedger{l.col, o.w, l.cost, l.norm})
				}
			}
		}
		if len(next) == 0 {
			c.Fail("weight", "tree %d has weight %v instead of %v, leaves %v", k, tr.Weight, wants, leaves)
		}
		if len(next) > 256 {
			return nil
		}
		cur = next
	}
	return cur
}

func adaCLI(c *Ctx) {
	r := c.Rng
	j := genJob(c, []string{"numeric", "gini"}, 8+r.Intn(30), 1+r.Intn(5))
	if j == nil {
		return
	}
	j.Args = append(without(j.Args, "-vet", "-evaloob", "-balance"), "-adaboost")
	cost := make([]float64, len(j.Target.Cats))
	m := map[string]float64{}
	for k := range cost {
		cost[k] = 1
		if k > 0 {
			cost[k] = []float64{1, .5, .75}[r.Intn(3)]
		}
		m[j.Target.Cats[k]] = cost[k]
	}
	if !j.Target.Num && r.Intn(2) == 0 {
		j.Args = append(j.Args, "-adacost", js(m))
		c.Obs("with costs", 1)
	} else {
		for k := range cost {
			cost[k] = 1
		}
	}
	dir, done := c.dir()
	defer done()
	j.Dir, j.Cores, j.Bal = dir, 1, false
	prep := j.prepare(r)
	j.run(c, "growforest", append(prep, "-rfpred", "forest.sf")...)
	if prep != nil {
		j = j.prepared(c)
	}
	ended := hasLine(j.Out, "Boosting Reached Weight of +Inf")
	if !ended && len(j.Log) != j.Trees || len(j.Log) > j.Trees {
		c.Fail("trees", "%d grown instead of %d", len(j.Log), j.Trees)
	}
	if len(j.Log) > 0 {
		if d := diffTexts(texts(j.Log), forestTexts(readForest(c, dir+"/forest.sf"))); d != "" {
			c.Fail("written", "%v", d)
		}
	}
	a := newAda(j.Target, cost)
	followAda(c, j.T, a, j.Log)
	for k, tr := range j.Log {
		if math.IsNaN(tr.Weight) || tr.Weight < 0 {
			c.Fail("weight", "tree %d has weight %v", k, tr.Weight)
		}
		bag := map[*RNode][]int{}
		for _, i := range tr.Cases {
			if leaf := tr.Root.reach(j.T, i); leaf != nil {
				bag[leaf] = append(bag[leaf], i)
			}
		}
		for leaf, cs := range bag {
			d := ""
			if j.Target.Num {
				d = predFloat(meanOf(j.Target, cs), maxAbs(j.Target.V), leaf.Pred)
			} else {
				d = predLabel(j.Target, counts(j.Target, cs), leaf.Pred)
			}
			if d != "" {
				c.Fail("leaf", "tree %d: %v for the cases %v", k, d, cs)
			}
		}
		c.Obs("trees of growforest", 1)
	}
	c.Sig("%v", j.Log)
}

// manySteps is how many steps are made, many if there are many cases.
func manySteps(r *rand.Rand, n int) int {
	if n >= 100 {
		return 1 + r.Intn(100)
	}
	return 1 + r.Intn(6)
}
