package main

import (
	"fmt"
	"math"
	"math/rand"
	"path/filepath"
	"strconv"
	"strings"
)

// C25: from training to predictions. C28: sizes given as counts or portions.

func init() {
	register(&Check{Prop: "C25", Quick: 16000, Thorough: 250000,
		Rule:        "growforest trains with targets, boosting, sampling and growing options drawn from the seed and writes the forest, applyforest and growforest's own tests apply it to the training data and to other data with renumbered and unseen categories, reordered, additional and absent features and missing values; everything reported is recalculated from the recorded trees; non trivial = predictions of at least one case differ from another's, distinct by (options, way of voting, predictions)",
		Assumptions: []string{"predictions are compared with a relative tolerance of 1e-9, any of the labels with most votes within that is accepted", "gradient boosted classes are applied by summing votes as the documentation tells to"},
		Need:        []string{"runs of growforest", "runs of applyforest", "trees", "prepared data", "predictions", "no votes", "training data", "other data", "mode votes", "mean votes", "sum votes", "vote totals", "intercepts", "expit", "selftests", "tests", "without target", "data without a feature", "weighted forests"},
		Run:         c25})
	register(&Check{Prop: "C28", Quick: 2500, Thorough: 200000,
		Rule:        "terms for counts and portions are drawn from the seed and parsed, and growforest trains with samples per tree, candidates per split, leaf size and depth given as counts, portions or left to their defaults; what is reported and the bags, leaves and depths of the recorded trees have to follow from them, and how often features of known rank are chosen from the number of candidates; non trivial = at least one size isn't the default, distinct by (sizes, cases)",
		Assumptions: []string{"choices are only decided where a deviation from their frequency has a probability below 1e-13"},
		Need:        []string{"terms", "runs of growforest", "trees", "prepared data", "leaves", "portions", "counts", "defaults", "choices", "boosted few"},
		Run:         c28})
}

// other draws data a forest grown on t may be applied to.
func other(r *rand.Rand, t *Table, target *Col) *Table {
	n := 1 + r.Intn(30)
	if t.N() >= 100 {
		n = 1000 + r.Intn(1000)
	}
	o := &Table{Labels: caseLabels(n)}
	for i := range o.Labels {
		o.Labels[i] = fmt.Sprintf("new%d", i)
	}
	for _, col := range t.Cols {
		d := &Col{Name: col.Name, Num: col.Num, V: make([]float64, n), K: make([]int, n), Miss: make([]bool, n)}
		if !col.Num {
			d.Cats = append(append([]string{}, col.Cats...), "unseen")
			if col == target {
				d.Cats = d.Cats[:len(col.Cats)]
			}
			r.Shuffle(len(d.Cats), func(i, j int) { d.Cats[i], d.Cats[j] = d.Cats[j], d.Cats[i] })
		}
		rate := missRate(r)
		for i := range d.Miss {
			d.Miss[i] = r.Float64() < rate
			if col.Num {
				d.V[i] = col.V[r.Intn(len(col.V))]
				if r.Intn(3) == 0 {
					d.V[i] += r.NormFloat64()
				}
			} else {
				d.K[i] = r.Intn(len(d.Cats))
			}
		}
		o.Cols = append(o.Cols, d)
	}
	if k := r.Intn(4 * len(o.Cols)); k < len(o.Cols) && len(o.Cols) > 2 && o.Cols[k].Name != target.Name {
		o.Cols = append(o.Cols[:k:k], o.Cols[k+1:]...)
	}
	for k := r.Intn(3); k > 0; k-- {
		o.Cols = append(o.Cols, genNum(r, fmt.Sprintf("N:more%d", k), n, 0))
	}
	r.Shuffle(len(o.Cols), func(i, j int) { o.Cols[i], o.Cols[j] = o.Cols[j], o.Cols[i] })
	for _, col := range o.Cols {
		canonical(col)
	}
	return o
}

// oddities are what keeps a table from being used as test data.
func (t *Table) hasEmptyCat() bool {
	for _, col := range t.Cols {
		if !col.Num && len(col.Cats) == 0 {
			return true
		}
	}
	return false
}

func c25(c *Ctx) {
	r := c.Rng
	j := genJob(c, cliKinds, 6+r.Intn(40), 1+r.Intn(6))
	if j == nil {
		return
	}
	dir, done := c.dir()
	defer done()
	j.Dir = dir
	boost := ""
	if (j.Kind == "gini" || j.Kind == "numeric") && r.Intn(2) == 0 {
		j.Args = without(j.Args, "-vet", "-evaloob")
		b := j.boostArgs(r)
		boost = b[0]
		if b[0] == "-gbt" && !j.Target.Num && (len(j.Target.Cats) != 2 || j.Target.hasMissing()) {
			b, boost = []string{"-adaboost"}, "-adaboost"
		}
		j.Args = append(j.Args, b...)
		j.Cores = 1
	}
	more := []string{"-rfpred", "forest.sf"}
	if boost != "" && r.Intn(3) == 0 {
		// leaves of a third of the cases by default
		more = append(more, "-leafSize", "1")
	}
	foreign := other(r, j.T, j.Target)
	test := ""
	testOn := j.T
	switch r.Intn(3) {
	case 0:
		test = "selftests"
		more = append(more, "-selftest")
	case 1:
		if tc := foreign.Col(j.Target.Name); len(known(tc)) > 0 && !foreign.hasEmptyCat() {
			test = "tests"
			testOn = foreign
			write(filepath.Join(dir, "test.afm"), foreign.AFM())
			more = append(more, "-test", "test.afm")
		}
	}
	forests := 1
	if boost == "" && !j.O.vet && r.Intn(10) == 0 {
		forests = 3
		more = append(more, "-ace", "2", "-cutoff", []string{"0.9", "0.5"}[r.Intn(2)])
		c.Obs("contrast analyses", 1)
	}
	var prep []string
	if forests == 1 {
		prep = j.prepare(r)
		more = append(more, prep...)
	}
	raw := j.T
	j.run(c, "growforest", more...)
	if prep != nil {
		j = j.prepared(c)
		if test == "selftests" {
			testOn = j.T
		}
	}
	if forests > 1 {
		j.checkTrees(c, forests, j.Trees)
		j.Log = lastForest(j.Log)
	}
	if boost != "-gbt" && test != "" {
		j.checkTest(c, testOn)
		c.Obs(test, 1)
	}
	if boost == "" && forests == 1 {
		j.checkTrees(c, 1, j.Trees)
	}
	if len(j.Log) == 0 {
		c.Obs("empty forests", 1)
		return
	}
	intercept := 0.0
	f := readForest(c, filepath.Join(dir, "forest.sf"))
	if d := diffTexts(texts(j.Log), forestTexts(f)); d != "" {
		c.Fail("forest", "the forest written isn't the one grown: %v", d)
	}
	if f.Target != j.Target.Name {
		c.Fail("forest", "the forest written predicts %q", f.Target)
	}
	if boost == "-gbt" {
		k := known(j.Target)
		if j.Target.Num {
			intercept = meanOf(j.Target, k)
		} else {
			p := counts(j.Target, k)[0] / float64(len(k))
			intercept = math.Log(p / (1 - p))
		}
		if !near(f.Intercept, intercept, intercept) && !(math.Abs(intercept) < 1e-9 && math.Abs(f.Intercept) < 1e-9) {
			c.Fail("intercept", "the forest starts from %v instead of %v", f.Intercept, intercept)
		}
		c.Obs("intercepts", 1)
	}
	on := raw
	what := "training data"
	if r.Intn(2) == 0 {
		on, what = foreign, "other data"
	}
	if on.hasEmptyCat() && on.Col(j.Target.Name) != nil && !on.Col(j.Target.Name).Num && len(on.Col(j.Target.Name).Cats) == 0 {
		return
	}
	c.Obs(what, 1)
	tc := on.Col(j.Target.Name)
	if r.Intn(5) == 0 && len(on.Cols) > 1 {
		// nobody knows the target
		o := *on
		o.Cols = nil
		for _, col := range on.Cols {
			if col != tc {
				o.Cols = append(o.Cols, col)
			}
		}
		on, tc = &o, nil
		c.Obs("without target", 1)
	}
	write(filepath.Join(dir, "apply.afm"), on.AFM())
	c.Note("applied to %v", on)
	for _, col := range j.T.Cols {
		if col != j.Target && on.Col(col.Name) == nil {
			c.Obs("data without a feature", 1)
			break
		}
	}
	p := newPoll(on.N())
	for _, t := range j.Log {
		if t.Weight >= 0 {
			c.Obs("weighted forests", 1)
		}
		for i := 0; i < on.N(); i++ {
			p.cast(t.Root, t.Weight, on, i)
		}
	}
	args := []string{"-fm", "apply.afm", "-rfpred", "forest.sf", "-preds", "preds.tsv"}
	mean := strings.HasPrefix(j.Target.Name, "N")
	sum, expit, votes := false, false, false
	switch {
	case boost == "-gbt" && (!j.Target.Num || r.Intn(3) != 0):
		sum = true
	case r.Intn(6) == 0:
		sum = true
	case r.Intn(4) == 0:
		mean = true
		args = append(args, "-mean")
	case r.Intn(4) == 0 && f.Intercept == 0:
		mean = false
		args = append(args, "-mode")
	}
	if sum {
		args = append(args, "-sum")
		if r.Intn(2) == 0 {
			expit = true
			args = append(args, "-expit")
			c.Obs("expit", 1)
		}
	}
	if !sum && !mean && r.Intn(2) == 0 {
		votes = true
		args = append(args, "-votes", "votes.tsv")
	}
	c.Note("applyforest %q", args)
	out := c.must(dir, "applyforest", nil, args...)
	rows := c.tsv(filepath.Join(dir, "preds.tsv"), 3)
	if len(rows) != on.N() {
		c.Fail("predictions", "%d predictions for %d cases", len(rows), on.N())
	}
	scale := 1 + maxAbs(j.Target.V) + math.Abs(intercept)
	var preds []string
	different := false
	for i, row := range rows {
		actual := "NA"
		if tc != nil {
			actual = tc.Str(i)
		}
		if row[0] != on.Labels[i] || row[2] != actual {
			c.Fail("predictions", "line %q for case %v with target %v", row, on.Labels[i], actual)
		}
		e := ""
		switch {
		case sum:
			want := f.Intercept + p.sum[i]
			if expit {
				g, err := strconv.ParseFloat(row[1], 64)
				if w := 1 / (1 + math.Exp(-want)); err != nil || !near(g, w, 1) {
					e = fmt.Sprintf("predicted %v instead of %v", row[1], w)
				}
			} else {
				e = predFloat(want, scale*float64(len(j.Log)+1), row[1])
			}
		case mean && f.Intercept != 0:
			if p.w[i] == 0 {
				break // what is missing is no number
			}
			e = predFloat(p.sum[i]/p.w[i]+f.Intercept, scale, row[1])
		case mean:
			e = p.mean(i, row[1], scale)
		default:
			e = p.mode(i, row[1])
		}
		if e != "" {
			c.Fail("predictions", "%q: case %d: %v", args, i, e)
		}
		if len(p.votes[i]) == 0 {
			c.Obs("no votes", 1)
		}
		preds = append(preds, row[1])
		different = different || row[1] != preds[0]
	}
	c.Obs("predictions", len(preds))
	c.Obs(map[bool]string{true: "sum votes", false: map[bool]string{true: "mean votes", false: "mode votes"}[mean]}[sum], 1)
	if votes {
		p.checkTotals(c, filepath.Join(dir, "votes.tsv"), on)
		c.Obs("vote totals", 1)
	}
	if tc != nil && !sum && f.Intercept == 0 && mean == tc.Num && len(known(tc)) > 0 {
		jj := &job{T: on, Target: tc}
		jj.checkError(c, c.printed(out, "Error:"), preds)
	}
	if different {
		c.Sig("%v %v %v", j.Args, args, preds)
		c.Sample("options %v, applied with %v: %v", j.Args, args, preds)
	}
}

// checkTotals compares a table of votes per label.
func (p *poll) checkTotals(c *Ctx, name string, t *Table) {
	ls := lines(c.read(name))
	if len(ls) != t.N()+1 {
		c.Fail("totals", "%d lines of votes for %d cases", len(ls), t.N())
	}
	head := strings.Split(ls[0], "\t")
	for i, l := range ls[1:] {
		f := strings.Split(l, "\t")
		if len(f) != len(head) || f[0] != t.Labels[i] {
			c.Fail("totals", "line %q with labels %q for case %v", l, head, t.Labels[i])
		}
		left := map[string]float64{}
		for k, w := range p.votes[i] {
			left[k] = w
		}
		for k := 1; k < len(f); k++ {
			if g := c.float(f[k]); !near(g, left[head[k]], g) {
				c.Fail("totals", "case %d has %v votes for %q instead of %v", i, g, head[k], left[head[k]])
			}
			delete(left, head[k])
		}
		for k, w := range left {
			if w > 0 {
				c.Fail("totals", "case %d has no votes for %q instead of %v", i, k, w)
			}
		}
	}
}

// checkTest checks the report of a test of the forest on a table.
func (j *job) checkTest(c *Ctx, on *Table) {
	p := newPoll(on.N())
	tc := on.Col(j.Target.Name)
	for i := 0; i < on.N(); i++ {
		for _, t := range j.Log {
			p.cast(t.Root, t.Weight, on, i)
		}
	}
	var preds []string
	if tc.Num {
		for i := range p.w {
			if p.w[i] == 0 {
				preds = append(preds, "NA")
			} else {
				preds = append(preds, fmt.Sprint(p.sum[i]/p.w[i]))
			}
		}
	} else {
		correct, unpredicted := 0, 0
		for i, m := range p.votes {
			best, first, tie := 0.0, "NA", false
			for l, w := range m {
				switch {
				case w > best+1e-9*(1+w):
					best, first, tie = w, l, false
				case w > best-1e-9*(1+w):
					tie = true
					if l < first {
						first = l
					}
					best = math.Max(best, w)
				}
			}
			if best == 0 {
				first, tie = "NA", false
			}
			if tie && j.Log[0].Weight >= 0 {
				return // a matter of rounding
			}
			preds = append(preds, first)
			if first == "NA" {
				unpredicted++
			} else if first == tc.Str(i) {
				correct++
			}
		}
		want := fmt.Sprintf("%v / %v = %v", correct, on.N(), float64(correct)/float64(on.N()))
		if got := c.printed(j.Out, "Classified:"); got != want {
			c.Fail("classified", "classified %v instead of %v", got, want)
		}
		if unpredicted > 0 {
			if got := c.printed(j.Out, "Couldn't predict"); !strings.HasPrefix(got, fmt.Sprintf("%d cases", unpredicted)) {
				c.Fail("classified", "couldn't predict %v instead of %v", got, unpredicted)
			}
		}
		for l, lab := range tc.Cats {
			total, right, wrong, predicted := 0, 0, 0, 0
			for i, pr := range preds {
				if pr == lab {
					predicted++
					if tc.Str(i) != lab {
						wrong++
					}
				}
				if !tc.Miss[i] && tc.K[i] == l {
					total++
					if pr == lab {
						right++
					}
				}
			}
			got := c.printed(j.Out, fmt.Sprintf("Label %v Percision (Actuall/Predicted):", lab))
			if want := fmt.Sprintf("%v / %v =", wrong, predicted); !strings.HasPrefix(got, want) {
				c.Fail("label", "label %v: %v of predictions wrong instead of %v", lab, got, want)
			}
			got = c.printed(j.Out, fmt.Sprintf("Label %v Missed/Actuall Rate:", lab))
			if want := fmt.Sprintf("%v / %v =", total-right, total); !tc.hasMissing() && !strings.HasPrefix(got, want) {
				c.Fail("label", "label %v: %v missed instead of %v", lab, got, want)
			}
		}
	}
	if len(known(tc)) > 0 {
		jj := &job{T: on, Target: tc}
		jj.checkError(c, c.printed(j.Out, "Error:"), preds)
	}
}
