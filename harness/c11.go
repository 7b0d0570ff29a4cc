package main

import (
	"fmt"
	"math"
	"path/filepath"
	"strings"
)

// C11: growing a forest on several cores. C12: bags and out of bag estimates.

func init() {
	register(&Check{Prop: "C11", Quick: 8000, Thorough: 60000,
		Rule:        "growforest, built with the race detector and hooks that delay its go routines at random, trains on 2-12 cores with targets, sampling and growing options, outputs and ACE drawn from the seed; forests are compared with what the hook recorded of every tree and with the cases and options; non trivial = at least two trees grown on several cores, distinct by (options, order of the trees' shapes)",
		Assumptions: []string{"schedules are those the Go scheduler and the injected delays produce", "boosting isn't run on several cores (-multiboost is documented to break things)"},
		Need:        []string{"runs of growforest", "trees", "forest files", "ace forests", "with oob", "density estimation", "more cores than trees"},
		Run:         c11})
	register(&Check{Prop: "C12", Quick: 8000, Thorough: 300000,
		Rule:        "growforest trains with targets, sampling (bootstrap, fewer samples, no bagging, balanced, balanced by another feature) and growing options drawn from the seed and reports out of bag predictions and error; both are recalculated from the recorded trees and their bags by routing the cases in the harness; non trivial = at least one case has out of bag votes, distinct by (options, predictions)",
		Assumptions: []string{"predictions are compared with a relative tolerance of 1e-9", "draw frequencies are only decided where a deviation has a probability below 1e-13"},
		Need:        []string{"runs of growforest", "trees", "oob predictions", "cases never out of bag", "oob errors", "contrast analyses", "bootstrap bags", "whole bags", "subset bags", "balanced bags", "balanced by bags", "progress", "running errors", "boosted forests", "prepared data"},
		Run:         c12})
}

// checkBag checks which cases a tree was grown from.
func (j *job) checkBag(c *Ctx, t *gtree) {
	k := known(j.Target)
	seen := map[int]bool{}
	for _, i := range t.Cases {
		if i < 0 || i >= j.T.N() || j.Target.Miss[i] {
			c.Fail("bag", "case %d with a missing target is in bag %v", i, t.Cases)
		}
		if j.Nobag && seen[i] {
			c.Fail("bag", "case %d is in bag %v repeatedly though there is no bagging", i, t.Cases)
		}
		seen[i] = true
	}
	want := j.Sample
	if j.Nobag && want > len(k) {
		want = len(k)
	}
	if len(t.Cases) != want {
		c.Fail("bag", "%d cases sampled instead of %d", len(t.Cases), want)
	}
	if want > j.T.N() {
		c.Obs("bags larger than the data", 1)
	}
	switch {
	case j.Nobag && j.Sample >= len(k):
		c.Obs("whole bags", 1)
	case j.Nobag:
		c.Obs("subset bags", 1)
	case j.BalBy != "":
		by := j.T.Col(j.BalBy)
		for _, i := range t.Cases {
			if by.Miss[i] {
				c.Fail("bag", "case %d without a value of %v is in bag %v", i, j.BalBy, t.Cases)
			}
		}
		c.Obs("balanced by bags", 1)
	case j.Bal:
		c.Obs("balanced bags", 1)
	default:
		c.Obs("bootstrap bags", 1)
	}
}

// checkTrees checks what holds for the trees of every run.
func (j *job) checkTrees(c *Ctx, forests, perForest int) {
	cnt := map[int]int{}
	for _, t := range j.Log {
		cnt[t.Forest]++
		j.checkBag(c, t)
	}
	for f := 0; f < forests; f++ {
		if cnt[f] != perForest {
			c.Fail("count", "%d trees in forest %d instead of %d", cnt[f], f, perForest)
		}
	}
	if len(cnt) > forests {
		c.Fail("count", "%d forests instead of %d", len(cnt), forests)
	}
}

func c11(c *Ctx) {
	r := c.Rng
	j := genJob(c, moreKinds(c), 8+r.Intn(40), 1+r.Intn(6))
	if j == nil {
		return
	}
	dir, done := c.dir()
	defer done()
	j.Dir = dir
	j.Cores = 2 + r.Intn(11)
	j.Trees = 1 + r.Intn(25)
	if j.Cores > j.Trees {
		c.Obs("more cores than trees", 1)
	}
	var more []string
	forests, ace, cutoff := 1, 0, false
	sf := r.Intn(4) != 0
	if sf {
		more = append(more, "-rfpred", "forest.sf")
	}
	imp := r.Intn(2) == 0
	if imp {
		more = append(more, "-importance", "imp.tsv")
	}
	oob := r.Intn(2) == 0
	if oob {
		more = append(more, [][]string{{"-oob"}, {"-oobpreds", "oob.tsv"}, {"-progress"}}[r.Intn(3)]...)
		c.Obs("with oob", 1)
	}
	if r.Intn(4) == 0 {
		ace = 2 + r.Intn(3)
		forests = ace
		more = append(more, "-ace", fmt.Sprint(ace))
		if cutoff = r.Intn(2) == 0; cutoff {
			more = append(more, "-cutoff", "0.7")
			forests++
		}
		c.Obs("ace forests", ace)
	}
	if !j.O.vet && r.Intn(5) == 0 && ace == 0 {
		more = append(more, j.jungle()...)
		sf = false
		more = replaceArg(more, "-rfpred")
	}
	if r.Intn(3) == 0 {
		more = append(more, "-selftest")
	}
	if r.Intn(8) == 0 {
		more = append(more, "-scikitforest", "sk.json")
	}
	j.run(c, "growforest-race", more...)
	j.checkTrees(c, forests, j.Trees)
	if sf {
		last := lastForest(j.Log)
		f := readForest(c, filepath.Join(dir, "forest.sf"))
		if d := diffTexts(texts(last), forestTexts(f)); d != "" {
			c.Fail("forest", "the forest written isn't the one grown: %v", d)
		}
		c.Obs("forest files", 1)
	}
	if strings.Contains(strings.Join(more, " "), "-progress") {
		n := 0
		for _, l := range lines(j.Out) {
			if strings.HasPrefix(l, "Model oob error after tree") {
				n++
			}
		}
		if n != forests*j.Trees {
			c.Fail("progress", "progress of %d trees reported instead of %d", n, forests*j.Trees)
		}
	}
	if len(j.Log) > 1 {
		sig := ""
		for _, t := range j.Log {
			sig += shape(t.Root) + " "
		}
		c.Sig("%v %v %v", j.Cores, j.Args, sig)
		c.Sample("%v cores, options %v %v: %d trees", j.Cores, j.Args, more, len(j.Log))
	}
}

func replaceArg(args []string, name string) (out []string) {
	for i := 0; i < len(args); i++ {
		if args[i] == name {
			i++
			continue
		}
		out = append(out, args[i])
	}
	return
}

func lastForest(ts []*gtree) (last []*gtree) {
	max := 0
	for _, t := range ts {
		if t.Forest > max {
			max = t.Forest
		}
	}
	for _, t := range ts {
		if t.Forest == max {
			last = append(last, t)
		}
	}
	return
}

func c12(c *Ctx) {
	r := c.Rng
	if c.Case%40 == 0 {
		bagFrequencies(c)
		return
	}
	if c.Case%40 == 20 {
		// nobody votes out of bag but splits may be chosen there
		c.trained()
		return
	}
	j := genJob(c, cliKinds, 6+r.Intn(30), 1+r.Intn(5))
	if j == nil {
		return
	}
	dir, done := c.dir()
	defer done()
	j.Dir = dir
	boosted := (j.Kind == "numeric" || j.Kind == "gini") && r.Intn(5) == 0
	if boosted {
		boost := "-adaboost"
		j.Args = append(without(j.Args, "-vet", "-evaloob"), boost)
		if j.Target.Num && r.Intn(2) == 0 {
			j.Args = append(j.Args[:len(j.Args)-1], "-gbt", []string{"0.1", "0.5", "1"}[r.Intn(3)])
		}
		j.Cores = 1
		j.O.vet, j.O.evaloob = false, false
		c.Obs("boosted forests", 1)
	}
	if !j.Target.Num && !j.Nobag && r.Intn(4) == 0 {
		// every label has to occur within every value of the other feature
		by := genCat(r, "C:by", j.T.N(), 2, .1)
		canonical(by)
		ok := len(by.Cats) == 2
		for k := 0; ok && k < 2; k++ {
			for l := range j.Target.Cats {
				found := false
				for i := range by.Miss {
					found = found || !by.Miss[i] && !j.Target.Miss[i] && by.K[i] == k && j.Target.K[i] == l
				}
				ok = ok && found
			}
		}
		if ok {
			j.T.Cols = append(j.T.Cols, by)
			j.BalBy = by.Name
			j.Args = append(j.Args, "-balanceby", by.Name)
		}
	}
	more := []string{"-oobpreds", "oob.tsv"}
	forests, ace := 1, 0
	if !boosted && !j.O.vet && r.Intn(8) == 0 {
		ace = 2 + r.Intn(2)
		forests = ace
		more = append(more, "-ace", fmt.Sprint(ace))
		if r.Intn(2) == 0 {
			more = append(more, "-cutoff", []string{"0.9", "0.5"}[r.Intn(2)])
			forests++
		}
		j.Data = true
		c.Obs("contrast analyses", 1)
	}
	var prep []string
	if ace == 0 {
		prep = j.prepare(r)
		more = append(more, prep...)
	}
	progress := ace == 0 && r.Intn(3) == 0
	if progress {
		more = append(more, "-progress")
	}
	j.run(c, "growforest", more...)
	if boosted && hasLine(j.Out, "Boosting Reached Weight") && len(j.Log) < j.Trees {
		j.Trees = len(j.Log)
	}
	if prep != nil {
		j = j.prepared(c)
	}
	if len(j.Log) > 0 {
		j.checkTrees(c, forests, j.Trees)
	}
	if ace > 0 {
		// only the trees of the last forest vote, on the data it was grown on
		frames := c.readFrames(filepath.Join(dir, "data.log"))
		if len(frames) != forests {
			c.Fail("data", "data of %d forests recorded instead of %d", len(frames), forests)
		}
		j = j.on(frames[forests-1].table(c, j.T), forests-1)
	} else if !boosted {
		j.checkOobRoots(c, nil)
	}
	var running []string
	if progress {
		for _, l := range strings.Split(j.Out, "\n") {
			const pre = "Model oob error after tree "
			if !strings.HasPrefix(l, pre) {
				continue
			}
			f := strings.SplitN(l[len(pre):], " : ", 2)
			if len(f) != 2 || f[0] != fmt.Sprint(len(running)+1) {
				c.Fail("progress", "%q after %d trees:\n%v", l, len(running), j.Out)
			}
			running = append(running, strings.TrimSpace(f[1]))
		}
		if len(running) != len(j.Log) {
			c.Fail("progress", "progress of %d of %d trees:\n%v", len(running), len(j.Log), j.Out)
		}
		c.Obs("progress", len(running))
	}
	p := newPoll(j.T.N())
	for k, t := range j.Log {
		if progress && j.Cores == 1 && k > 0 {
			j.checkRunning(c, p, running[k-1])
		}
		in := map[int]bool{}
		for _, i := range t.Cases {
			in[i] = true
		}
		for i := 0; i < j.T.N(); i++ {
			if !in[i] {
				p.cast(t.Root, t.Weight, j.T, i)
			}
		}
	}
	preds, voted := j.checkPreds(c, filepath.Join(dir, "oob.tsv"), p)
	c.Obs("oob predictions", voted)
	c.Obs("cases never out of bag", j.T.N()-voted)
	got := c.printed(j.Out, "Out of Bag Error :")
	j.checkError(c, got, preds)
	if n := len(running); n > 0 {
		// votes may be added up in another order, but nothing is left to vote
		j.checkError(c, running[n-1], preds)
	}
	c.Obs("oob errors", 1)
	if voted > 0 {
		c.Sig("%v %v", j.Args, preds)
	}
	c.Sample("options %v, %d trees: oob error %v, predictions %v", j.Args, len(j.Log), got, preds)
}

// outOfBag are the votes of all trees for cases that aren't in their bags.
func (j *job) outOfBag() *poll {
	p := newPoll(j.T.N())
	for _, t := range j.Log {
		in := map[int]bool{}
		for _, i := range t.Cases {
			in[i] = true
		}
		for i := 0; i < j.T.N(); i++ {
			if !in[i] {
				p.cast(t.Root, t.Weight, j.T, i)
			}
		}
	}
	return p
}

// checkPreds compares a file of predictions with the votes the harness counted.
func (j *job) checkPreds(c *Ctx, name string, p *poll) (preds []string, voted int) {
	rows := c.tsv(name, 3)
	if len(rows) != j.T.N() {
		c.Fail("predictions", "%d predictions for %d cases", len(rows), j.T.N())
	}
	for i, f := range rows {
		if f[0] != j.T.Labels[i] || f[2] != j.Target.Str(i) {
			c.Fail("predictions", "line %q for case %v with target %v", f, j.T.Labels[i], j.Target.Str(i))
		}
		e := ""
		if j.Target.Num {
			e = p.mean(i, f[1], maxAbs(j.Target.V))
		} else {
			e = p.mode(i, f[1])
		}
		if e != "" {
			c.Fail("predictions", "case %d: %v", i, e)
		}
		preds = append(preds, f[1])
		if f[1] != "NA" {
			voted++
		}
	}
	return
}

// checkRunning compares the error printed after a tree with that of the votes until then.
func (j *job) checkRunning(c *Ctx, p *poll, got string) {
	if preds, clear := p.predictions(j.Target.Num); clear {
		j.checkError(c, got, preds)
		c.Obs("running errors", 1)
	}
}

// checkError compares a printed error with the one of the predictions.
func (j *job) checkError(c *Ctx, got string, preds []string) {
	g := c.float(got)
	if j.Target.Num {
		if want, ok := relative(j.Target, preds); ok && !(math.Abs(g-want) <= 1e-6*(1+want)) {
			c.Fail("error", "error %v instead of %v", got, want)
		}
	} else if want := balanced(j.Target, preds); !near(g, want, 1) {
		c.Fail("error", "error %v instead of %v", got, want)
	}
}

// bagFrequencies counts how often cases are drawn over many bags.
func bagFrequencies(c *Ctx) {
	r := c.Rng
	n := 10 + r.Intn(20)
	t := &Table{Labels: caseLabels(n)}
	t.Cols = append(t.Cols, genNum(r, "N:f", n, 0), genCat(r, "C:target", n, 2+r.Intn(2), .15), genCat(r, "C:by", n, 2, .1))
	t.canonical()
	j := &job{T: t, Target: t.Cols[1], Kind: "gini", Cores: 1 + r.Intn(4), Trees: 400}
	k := known(j.Target)
	if len(k) < 4 || len(j.Target.Cats) < 2 {
		return
	}
	j.Sample = len(k)
	if r.Intn(3) == 0 {
		j.Sample = 1 + r.Intn(len(k))
		j.Args = append(j.Args, "-nSamples", fmt.Sprint(j.Sample))
	}
	j.Args = append(j.Args, "-maxDepth", "1")
	by := t.Cols[2]
	p := make([]float64, n) // chance that a draw is case i
	cell := func(b, l int) (m float64) {
		for _, i := range k {
			if j.Target.K[i] == l && (b < 0 || !by.Miss[i] && by.K[i] == b) {
				m++
			}
		}
		return
	}
	nl := float64(len(j.Target.Cats))
	mode := r.Intn(4)
	if mode == 3 {
		for b := range by.Cats {
			for l := range j.Target.Cats {
				if cell(b, l) == 0 {
					mode = 2
				}
			}
		}
	}
	switch mode {
	case 0:
		for _, i := range k {
			p[i] = 1 / float64(len(k))
		}
	case 1:
		j.Nobag = true
		j.Args = append(j.Args, "-nobag")
		for _, i := range k {
			p[i] = 1 / float64(len(k))
		}
	case 2:
		j.Bal = true
		j.Args = append(j.Args, "-balance")
		for _, i := range k {
			p[i] = 1 / nl / cell(-1, j.Target.K[i])
		}
	case 3:
		j.BalBy = by.Name
		j.Args = append(j.Args, "-balanceby", by.Name)
		total := 0.0
		for _, i := range k {
			if !by.Miss[i] {
				total++
			}
		}
		for _, i := range k {
			if !by.Miss[i] {
				b := by.K[i]
				nb := 0.0
				for l := range j.Target.Cats {
					nb += cell(b, l)
				}
				p[i] = nb / total / nl / cell(b, j.Target.K[i])
			}
		}
	}
	dir, done := c.dir()
	defer done()
	j.Dir = dir
	j.run(c, "growforest")
	j.checkTrees(c, 1, j.Trees)
	got := make([]float64, n)
	bags := map[string]int{}
	for _, t := range j.Log {
		for _, i := range t.Cases {
			got[i]++
		}
		bags[fmt.Sprint(sorted(t.Cases))]++
	}
	draws := float64(j.Trees * j.Sample)
	for i := range got {
		sd := math.Sqrt(draws * p[i] * (1 - p[i]))
		if unlikely(int(got[i]), int(draws), p[i]) {
			c.Fail("frequency", "%v: case %d was drawn %v times in %v draws, expected %v +- %v", j.Args, i, got[i], draws, draws*p[i], sd)
		}
	}
	if j.Sample >= 8 && !j.Nobag && len(bags) < j.Trees/10 {
		c.Fail("frequency", "%d trees use only %d different bags", j.Trees, len(bags))
	}
	c.Obs("frequencies", 1)
	c.Sig("freq %v %v %v", n, j.Args, j.Cores)
}
