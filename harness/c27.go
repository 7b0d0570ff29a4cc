package main

import (
	"encoding/json"
	"fmt"
	"math"
	"math/rand"
	"path/filepath"
	"sort"
	"strings"
)

// C27: imputing, permuting, shuffling and contrasts. C32: artificial contrasts with
// ensembles.

func init() {
	register(&Check{Prop: "C27", Quick: 20000, Thorough: 300000,
		Rule:        "growforest trains with imputation, a permuted target, shuffled features, contrasts and ACE drawn from the seed; the hook records the data every forest is grown on, which is compared value by value with what the options make of the data the harness wrote; the recorded trees are checked to be grown on exactly that data (bags, predictions of all leaves, best split at roots); non trivial = at least one column changed or added, distinct by (options, permutations)",
		Assumptions: []string{"permutations are only recognized in columns of at least 15 different values; that they are uniform is decided by C18"},
		Need:        []string{"runs of growforest", "trees", "values", "imputed values", "permuted targets", "shuffled features", "contrasts", "contrasts of all", "contrasts of contrasts", "ace forests", "permutations", "leaves", "density estimation", "roots proven best"},
		Run:         c27})
	register(&Check{Prop: "C32", Quick: 9000, Thorough: 300000,
		Rule:        "growforest performs ACE analyses with targets, sampling, threads, exclusions, mTry and cutoff drawn from the seed; importances of all features and contrasts are recalculated forest by forest from the recorded trees and data, and from those the test, the selection and the size of the last forest; non trivial = at least one p value compared, distinct by the p values",
		Assumptions: []string{"p values are compared where the spread of the importances exceeds their rounding", "vetting and evaluation on out of bag cases, which change what a split is worth, are left out"},
		Need:        []string{"runs of growforest", "trees", "ace forests", "p values", "mean importances", "cutoffs", "features selected", "features rejected", "excluded features", "forest files", "prepared data"},
		Run:         c32})
}

// frame is the data a forest was grown on as the hook recorded it.
type frame struct {
	Forest   int
	Features []struct {
		Name   string
		Num    bool
		Values []*string
	}
}

func (c *Ctx) readFrames(name string) (fs []*frame) {
	for _, l := range lines(c.read(name)) {
		f := &frame{}
		if err := json.Unmarshal([]byte(l), f); err != nil {
			c.Fail("log", "%v in %q", err, l)
		}
		fs = append(fs, f)
	}
	return
}

// table makes a table of recorded data, numbering categories as like does.
func (f *frame) table(c *Ctx, like *Table) *Table {
	t := &Table{Labels: like.Labels}
	for _, x := range f.Features {
		base := like.Col(strings.TrimSuffix(x.Name, ":SHUFFLED"))
		if base == nil { // of a contrast
			base = like.Col(strings.TrimSuffix(x.Name, ":SHUFFLED:SHUFFLED"))
		}
		if base == nil {
			c.Fail("data", "unknown feature %q", x.Name)
		}
		if base.Num != x.Num {
			c.Fail("data", "%v is a number: %v, instead of %v", x.Name, x.Num, base.Num)
		}
		if len(x.Values) != like.N() {
			c.Fail("data", "%v has %d values for %d cases", x.Name, len(x.Values), like.N())
		}
		col := &Col{Name: x.Name, Num: x.Num, Miss: make([]bool, like.N()), Cats: base.Cats}
		if x.Num {
			col.V = make([]float64, like.N())
		} else {
			col.K = make([]int, like.N())
		}
		for i, v := range x.Values {
			switch {
			case v == nil:
				col.Miss[i] = true
			case x.Num:
				col.V[i] = c.float(*v)
			default:
				col.K[i] = -1
				for k, s := range base.Cats {
					if s == *v {
						col.K[i] = k
					}
				}
				if col.K[i] < 0 {
					c.Fail("data", "%v has a value %q which isn't one of %v", x.Name, *v, base.Cats)
				}
			}
		}
		t.Cols = append(t.Cols, col)
	}
	return t
}

// imputed is a copy of the column with the mean or the mode for missing values, fill are
// all values that are fine as the mode.
func imputed(col *Col) (o *Col, modes map[int]bool) {
	o = col.clone()
	k := known(col)
	if len(k) == 0 {
		return
	}
	mode := 0
	if !col.Num {
		cnt := counts(col, k)
		modes = map[int]bool{}
		best := cnt[argmax(cnt)]
		for j, x := range cnt {
			if x == best {
				modes[j] = true
				mode = j
			}
		}
	}
	for i, m := range col.Miss {
		if m {
			if col.Num {
				o.V[i] = meanOf(col, k)
			} else {
				o.K[i] = mode
			}
			o.Miss[i] = false
		}
	}
	return
}

// sameCol compares two columns value by value, was tells what was missing before imputing.
func sameCol(want, got *Col, was []bool, modes map[int]bool) string {
	for i := range want.Miss {
		if want.Miss[i] != got.Miss[i] {
			return fmt.Sprintf("case %d is missing: %v", i, got.Miss[i])
		}
		if want.Miss[i] {
			continue
		}
		imp := was != nil && was[i]
		switch {
		case want.Num && !imp && want.V[i] != got.V[i],
			want.Num && imp && !near(want.V[i], got.V[i], maxAbs(want.V)),
			!want.Num && !imp && want.K[i] != got.K[i],
			!want.Num && imp && !modes[got.K[i]]:
			return fmt.Sprintf("case %d is %v instead of %v", i, got.Str(i), want.Str(i))
		}
	}
	return ""
}

// permuted tells if got holds the values of want in any order.
func permuted(want, got *Col, was []bool, modes map[int]bool) string {
	missing := 0
	var a, b []float64
	ca, cb := make([]int, len(want.Cats)), make([]int, len(want.Cats))
	filled := 0
	for i := range want.Miss {
		if got.Miss[i] {
			missing--
		} else if got.Num {
			b = append(b, got.V[i])
		} else {
			cb[got.K[i]]++
		}
		if want.Miss[i] {
			missing++
		} else if want.Num {
			a = append(a, want.V[i])
		} else if was != nil && was[i] {
			filled++
		} else {
			ca[want.K[i]]++
		}
	}
	if missing != 0 {
		return "a different number of values is missing"
	}
	sort.Float64s(a)
	sort.Float64s(b)
	for i := range a {
		if a[i] != b[i] && !(was != nil && near(a[i], b[i], maxAbs(a))) {
			return fmt.Sprintf("value %v became %v", a[i], b[i])
		}
	}
	// all missing labels were replaced by the same mode
	ok := false
	for j := range ca {
		if filled > 0 && !modes[j] {
			continue
		}
		ca[j] += filled
		ok = ok || eqInts(ca, cb)
		ca[j] -= filled
	}
	if !want.Num && len(ca) > 0 && !ok {
		return fmt.Sprintf("labels occur %v times instead of %v and %v imputed", cb, ca, filled)
	}
	return ""
}

// order is the permutation that made got of want, "" if that is ambiguous or short.
func orderOf(want, got *Col) string {
	if !want.Num {
		return ""
	}
	at := map[float64]int{}
	for i, x := range want.V {
		if !want.Miss[i] {
			at[x] = i
		}
	}
	if len(at) < 15 || len(at) < len(known(want)) {
		return ""
	}
	s := ""
	for i, x := range got.V {
		if got.Miss[i] {
			continue
		}
		k, ok := at[x]
		if !ok {
			k = -1 // imputed
		}
		s += fmt.Sprint(i, "<", k, " ")
	}
	return s
}

func identity(want *Col) string { return orderOf(want, want) }

// rename gives the features names some of which are parts of others, false if two become
// alike.
func (j *job) rename(r *rand.Rand) (names []string, ok bool) {
	for i, col := range j.T.Cols {
		if i != j.Ti {
			col.Name = fmt.Sprintf("%s%d%s", col.Name[:2], r.Intn(4), []string{"", "a", "b", "ab", " x"}[r.Intn(5)])
			for j.T.Col(col.Name) != col {
				col.Name += "q"
			}
			names = append(names, col.Name)
		}
	}
	seen := map[string]bool{}
	for _, col := range j.T.Cols {
		if seen[col.Name] {
			return nil, false
		}
		seen[col.Name] = true
	}
	return names, true
}

// on makes the harness' view of the job that of a forest grown on other data.
func (j *job) on(t *Table, forest int) *job {
	k := *j
	k.T = t
	k.Target = t.Cols[j.Ti]
	k.RT = makeTarget(rand.New(rand.NewSource(j.Seed)), j.Kind, k.Target, k.Target.Feature(), t.FM(), t)
	k.Log = nil
	for _, x := range j.Log {
		if x.Forest == forest {
			k.Log = append(k.Log, x)
		}
	}
	return &k
}

// prepare are options that change the data that is trained on, none most of the time.
func (j *job) prepare(r *rand.Rand) (more []string) {
	if j.Kind == "trans" || hasArg(j.Args, "-gbt") || r.Intn(4) != 0 {
		// the residuals of gradient boosting replace the target
		return nil
	}
	if r.Intn(2) == 0 && !(j.Kind == "ordinal" && j.Target.hasMissing()) {
		more = append(more, "-impute")
		if !hasArg(j.Args, "-nSamples") {
			j.Sample = j.T.N()
		}
	}
	if r.Intn(2) == 0 {
		more = append(more, "-permute")
	}
	if r.Intn(3) == 0 {
		more = append(more, "-shuffleRE", []string{".", "N:", "1"}[r.Intn(3)])
	}
	if r.Intn(3) == 0 {
		more = append(more, "-contrastall")
	}
	j.Data = true
	return more
}

func hasArg(args []string, name string) bool {
	for _, a := range args {
		if a == name {
			return true
		}
	}
	return false
}

// prepared is the job on the data that was trained on.
func (j *job) prepared(c *Ctx) *job {
	frames := c.readFrames(filepath.Join(j.Dir, "data.log"))
	if len(frames) != 1 {
		c.Fail("data", "data of %d forests recorded instead of one", len(frames))
	}
	c.Obs("prepared data", 1)
	return j.on(frames[0].table(c, j.T), frames[0].Forest)
}

// checkLeaves checks that the recorded trees fit the data they were grown on.
func (j *job) checkLeaves(c *Ctx) {
	for _, t := range j.Log {
		j.walk(c, t.Root, t.Cases, 0, func(n *RNode, cs, l, rr, m []int, d int) {
			if len(cs) == 0 {
				c.Fail("empty", "no case of the bag reaches a node predicting %q in %v", n.Pred, t.Root)
			}
			if n.Feature == "" {
				if e := j.RT.Pred(cs, n.Pred); e != "" {
					c.Fail("leaf", "cases %v reach a leaf of %v: %v", cs, t.Root, e)
				}
				c.Obs("leaves", 1)
				return
			}
			if len(l) < j.O.leaf || len(rr) < j.O.leaf {
				c.Fail("leafsize", "split on %v leaves %d cases left and %d right with a leaf size of %d", n.Feature, len(l), len(rr), j.O.leaf)
			}
			if j.O.depth > 0 && d >= j.O.depth {
				c.Fail("depth", "split at depth %d with a limit of %d", d, j.O.depth)
			}
			if (n.M != nil) != (j.O.splitmissing && len(m) > 0) {
				c.Fail("missing", "split on %v with %d missing cases, missing branch %v", n.Feature, len(m), n.M != nil)
			}
		})
	}
}

// checkRoots checks that the roots make the best split of the features that aren't
// excluded.
func (j *job) checkRoots(c *Ctx, excluded map[string]bool) {
	var cands []int
	for i, col := range j.T.Cols {
		if !excluded[col.Name] && i != j.Ti {
			cands = append(cands, i)
		}
	}
	if j.O.mTry < len(cands) || j.O.vet || j.O.evaloob || j.O.rnd {
		return
	}
	s := &Search{T: j.T, RT: j.RT, Leaf: j.O.leaf}
	for _, t := range j.Log {
		if len(t.Cases) < 2*j.O.leaf {
			continue
		}
		s.Cases = t.Cases
		best, f := s.bestFull(cands)
		if f == "" || !s.impure() || best <= minImp+4*s.tol() {
			continue
		}
		got := 0.0
		if t.Root.Feature != "" {
			l, rr, m := j.divide(t.Root, t.Cases)
			got = j.RT.Decrease(l, rr)
			if len(m) > 0 {
				got = j.RT.Full(l, rr, m)
			}
		}
		if got < best-4*s.tol() {
			c.Fail("ignored", "the root splits on %q decreasing impurity by %v, %q would by %v", t.Root.Feature, got, f, best)
		}
		c.Obs("roots proven best", 1)
	}
}

// checkOobRoots checks roots chosen by the decrease out of bag: no other feature's best
// split decreases impurity more both in and out of the bag.
func (j *job) checkOobRoots(c *Ctx, excluded map[string]bool) {
	if j.RT.Score || j.Kind == "trans" || j.O.vet || j.O.rnd || !j.O.evaloob || j.Target.hasMissing() {
		return
	}
	var cands []int
	for i, col := range j.T.Cols {
		if !excluded[col.Name] && i != j.Ti {
			cands = append(cands, i)
		}
	}
	if j.O.mTry < len(cands) {
		return
	}
	s := &Search{T: j.T, RT: j.RT, Leaf: j.O.leaf}
	for _, t := range j.Log {
		in := map[int]bool{}
		for _, i := range t.Cases {
			in[i] = true
		}
		var oob []int
		for i := range j.Target.Miss {
			if !in[i] {
				oob = append(oob, i)
			}
		}
		s.Cases = t.Cases
		if len(t.Cases) < 2*j.O.leaf || len(oob) < 2 || !s.impure() {
			continue
		}
		got := minImp
		if t.Root.Feature != "" {
			l, rr, m := j.divide(t.Root, oob)
			if len(l) == 0 || len(rr) == 0 {
				continue // not defined what such a split is worth
			}
			got = j.RT.Imp(oob) - j.RT.Split(l, rr, m)
			if !(got > minImp-4*s.tol()) {
				c.Fail("oob", "the root splits on %q that decreases impurity out of bag by %v with bag %v", t.Root.Feature, got, t.Cases)
			}
		}
		for _, i := range cands {
			if col := j.T.Cols[i]; col.Name != t.Root.Feature {
				if d := s.oobWorth(col, oob); d > got+4*s.tol() {
					c.Fail("oob", "the root splits on %q decreasing impurity by %v out of bag, %q does by %v with bag %v", t.Root.Feature, got, col.Name, d, t.Cases)
				}
			}
		}
		c.Obs("roots by oob decrease", 1)
	}
}

// oobWorth is the least that any of the best splits of a column decreases impurity, in or
// out of the bag, -Inf where that isn't clear.
func (s *Search) oobWorth(col *Col, oob []int) float64 {
	unclear := math.Inf(-1)
	nm := s.nonMissing(col)
	if len(nm) == 0 {
		return unclear
	}
	type split struct {
		l, r   []int
		goes   func(i int) int
		inside float64
	}
	var all []split
	var m []int
	for _, i := range s.Cases {
		if col.Miss[i] {
			m = append(m, i)
		}
	}
	if col.Num {
		if _, _, clear := s.numOptimum(col); !clear {
			return unclear
		}
		vs := map[float64]bool{}
		for _, i := range nm {
			vs[col.V[i]] = true
		}
		for v := range vs {
			next := math.Inf(1)
			for w := range vs {
				if w > v && w < next {
					next = w
				}
			}
			v, next := v, next
			x := split{goes: func(i int) int {
				switch {
				case col.V[i] <= v:
					return -1
				case col.V[i] >= next:
					return 1
				}
				return 0
			}}
			all = append(all, x)
		}
	} else {
		if len(col.Cats) > 5 {
			return unclear
		}
		for b := 1; b < 1<<uint(len(col.Cats)-1); b++ {
			b := b
			all = append(all, split{goes: func(i int) int { return 1 - b>>uint(col.K[i])&1*2 }})
		}
	}
	best := unclear
	for k := range all {
		x := &all[k]
		for _, i := range nm {
			if x.goes(i) < 0 {
				x.l = append(x.l, i)
			} else {
				x.r = append(x.r, i)
			}
		}
		x.inside = unclear
		if len(x.l) >= s.Leaf && len(x.r) >= s.Leaf && len(x.l) > 0 && len(x.r) > 0 {
			x.inside = s.RT.Decrease(x.l, x.r)
		}
		best = math.Max(best, x.inside)
	}
	if !(best > minImp+4*s.tol()) {
		return unclear
	}
	least := math.Inf(1)
	for _, x := range all {
		if x.inside < best-8*s.tol() {
			continue
		}
		d := x.inside
		if len(m) > 0 {
			d = s.RT.Full(x.l, x.r, m)
		}
		var l, r, o []int
		for _, i := range oob {
			switch {
			case col.Miss[i]:
				o = append(o, i)
			case x.goes(i) < 0:
				l = append(l, i)
			case x.goes(i) > 0:
				r = append(r, i)
			default:
				return unclear // depends on where between two values the threshold is
			}
		}
		if len(l) == 0 || len(r) == 0 {
			return unclear
		}
		out := s.RT.Imp(oob) - s.RT.Split(l, r, o)
		if math.IsNaN(out) || math.IsNaN(d) {
			return unclear
		}
		least = math.Min(least, math.Min(d, out))
	}
	return least
}

func c27(c *Ctx) {
	r := c.Rng
	j := genJob(c, moreKinds(c), 8+r.Intn(40), 2+r.Intn(6))
	if j == nil || j.Kind == "trans" {
		return
	}
	names, ok := j.rename(r)
	if !ok {
		return
	}
	dir, done := c.dir()
	defer done()
	j.Dir, j.Data = dir, true
	var more []string
	impute, permute, shuffle, ncon, all, ace := r.Intn(2) == 0, r.Intn(3) == 0, "", 0, false, 0
	if j.Kind == "ordinal" && j.Target.hasMissing() {
		impute = false // means aren't ordinal
	}
	if impute {
		more = append(more, "-impute")
	}
	if permute {
		more = append(more, "-permute")
		c.Obs("permuted targets", 1)
	}
	part := []string{"a", "b", "0", "1", "N:", "C:", "q", "ab", "2", "target", "3", ":", "SHUFFLED"}
	if r.Intn(2) == 0 {
		shuffle = part[r.Intn(len(part))]
		more = append(more, "-shuffleRE", shuffle)
	}
	switch r.Intn(4) {
	case 0:
		ncon = 1 + r.Intn(6)
		more = append(more, "-nContrasts", fmt.Sprint(ncon))
		switch r.Intn(6) {
		case 0, 1:
			all = true
			more = append(more, "-contrastall")
		case 2:
			ace = 2
			more = append(more, "-ace", "2")
		}
	case 1:
		all = true
		more = append(more, "-contrastall")
	case 2:
		if r.Intn(2) == 0 {
			ace = 2 + r.Intn(2)
			more = append(more, "-ace", fmt.Sprint(ace))
		}
	}
	excluded := map[string]bool{}
	if r.Intn(6) == 0 {
		more = append(more, "-blacklist", "black")
		f := names[r.Intn(len(names))]
		write(filepath.Join(dir, "black"), f+"\n")
		excluded[f] = true
		excluded[f+":SHUFFLED"] = ace > 0
	}
	base := j.T.clone()
	if permute || impute {
		// the sample is as large as the target had known values after that
		k := len(known(j.Target))
		if impute && j.Sample == k && k > 0 && !strings.Contains(strings.Join(j.Args, " "), "-nSamples") {
			j.Sample = j.T.N()
		}
	}
	j.run(c, "growforest", more...)
	forests := 1
	if ace > 0 {
		forests = ace
		c.Obs("ace forests", ace)
	}
	frames := c.readFrames(filepath.Join(dir, "data.log"))
	if len(frames) != forests {
		c.Fail("data", "data of %d forests recorded instead of %d", len(frames), forests)
	}
	// what the columns should be before shuffling
	want := make([]*Col, len(base.Cols))
	was := make([][]bool, len(base.Cols))
	modes := make([]map[int]bool, len(base.Cols))
	for i, col := range base.Cols {
		want[i] = col
		if impute {
			want[i], modes[i] = imputed(col)
			was[i] = col.Miss
		}
	}
	orders := map[string]bool{}
	sig := ""
	note := func(w, g *Col) {
		if o := orderOf(w, g); o != "" {
			if o == identity(w) {
				c.Fail("order", "%v was to be shuffled and wasn't", g.Name)
			}
			if orders[o] {
				c.Fail("order", "two columns were shuffled alike: %v", o)
			}
			orders[o] = true
			sig += o + ";"
			c.Obs("permutations", 1)
		}
	}
	shuffled := 0
	var first *Table
	for fi, f := range frames {
		t := f.table(c, base)
		if f.Forest != fi {
			c.Fail("data", "forest %d recorded instead of %d", f.Forest, fi)
		}
		m := len(base.Cols)
		if len(t.Cols) < m {
			c.Fail("data", "%d features instead of %d", len(t.Cols), m)
		}
		for i, w := range want {
			g := t.Cols[i]
			c.Obs("values", len(g.Miss))
			if g.Name != w.Name {
				c.Fail("data", "feature %d is %q instead of %q", i, g.Name, w.Name)
			}
			mixed := i == j.Ti && permute || i != j.Ti && shuffle != "" && strings.Contains(w.Name, shuffle)
			if fi > 0 {
				if e := sameCol(first.Cols[i], g, nil, nil); e != "" {
					c.Fail("changed", "%v changed after the first forest: %v", w.Name, e)
				}
				continue
			}
			if impute {
				for k, miss := range base.Cols[i].Miss {
					if miss && !want[i].Miss[k] {
						c.Obs("imputed values", 1)
					}
				}
			}
			if !mixed {
				if e := sameCol(w, g, was[i], modes[i]); e != "" {
					c.Fail("value", "%v: %v", w.Name, e)
				}
				continue
			}
			if e := permuted(w, g, was[i], modes[i]); e != "" {
				c.Fail("shuffle", "%v became %v: %v", w, g, e)
			}
			note(base.Cols[i], g)
			if i != j.Ti {
				shuffled++
				c.Obs("shuffled features", 1)
			}
		}
		// contrasts
		extra := t.Cols[m:]
		n := ncon
		if all || ace > 0 {
			// contrasts added before get contrasts too
			n = ncon + m + ncon
		}
		froms := make([]int, len(extra))
		if len(extra) != n {
			c.Fail("contrasts", "%d contrasts instead of %d", len(extra), n)
		}
		for i, g := range extra {
			from, name := i-ncon, ""
			switch {
			case i < ncon:
				for k, col := range base.Cols {
					if g.Name == col.Name+":SHUFFLED" {
						from = k
					}
				}
				if from < 0 {
					c.Fail("contrasts", "contrast %d is %q", i, g.Name)
				}
			case from >= m:
				from, name = froms[from-m], ":SHUFFLED"
				c.Obs("contrasts of contrasts", 1)
			}
			froms[i] = from
			if g.Name != base.Cols[from].Name+name+":SHUFFLED" {
				c.Fail("contrasts", "contrast %d is %q", i, g.Name)
			}
			w := want[from]
			if e := permuted(w, g, was[from], modes[from]); e != "" {
				c.Fail("contrasts", "%v has contrast %v: %v", w, g, e)
			}
			if ace > 0 && i < ncon && fi > 0 {
				// those added before aren't contrasts of the analysis
				if e := sameCol(first.Cols[m+i], g, nil, nil); e != "" {
					c.Fail("changed", "%v changed after the first forest: %v", g.Name, e)
				}
			} else if ace == 0 || !excluded[w.Name] && from != j.Ti {
				note(base.Cols[from], g)
			}
			if (ace == 0 || i < ncon) && fi == 0 && shuffle != "" && strings.Contains(g.Name, shuffle) {
				shuffled++
			}
			c.Obs("contrasts", 1)
			if i >= ncon && n >= m {
				c.Obs("contrasts of all", 1)
			}
		}
		if fi == 0 {
			first = t
		}
		names := map[string]bool{}
		for _, col := range t.Cols {
			names[col.Name] = true
		}
		if len(names) == len(t.Cols) {
			if ace > 0 {
				excluded[j.Target.Name+":SHUFFLED"] = true
			}
			k := j.on(t, fi)
			if len(k.Log) != j.Trees {
				c.Fail("count", "%d trees in forest %d instead of %d", len(k.Log), fi, j.Trees)
			}
			for _, tr := range k.Log {
				k.checkBag(c, tr)
			}
			k.checkLeaves(c)
			k.checkRoots(c, excluded)
		}
	}
	if shuffle != "" {
		if got, w := c.printed(j.Out, "Shuffled "), fmt.Sprintf("%d features matching %v", shuffled, shuffle); got != w {
			c.Fail("report", "Shuffled %v reported instead of %v", got, w)
		}
	}
	if len(more) > 0 {
		c.Sig("%v %v", more, sig)
		c.Sample("options %v %v: permutations %v", j.Args, more, sig)
	}
}

func c32(c *Ctx) {
	r := c.Rng
	j := genJob(c, cliKinds, 8+r.Intn(40), 2+r.Intn(7))
	if j == nil || j.Kind == "trans" {
		return
	}
	names, ok := j.rename(r)
	if !ok {
		return
	}
	j.Args = without(j.Args, "-vet", "-evaloob")
	j.O.vet, j.O.evaloob = false, false
	dir, done := c.dir()
	defer done()
	j.Dir, j.Data = dir, true
	ace := 2 + r.Intn(5)
	more := []string{"-ace", fmt.Sprint(ace), "-importance", "imp.tsv"}
	excluded := map[string]bool{}
	if r.Intn(4) == 0 {
		more = append(more, "-blacklist", "black")
		list := ""
		for _, f := range names {
			if r.Intn(3) == 0 {
				list += f + "\n"
				excluded[f] = true
			}
		}
		if len(excluded) == len(names) || list == "" {
			return
		}
		write(filepath.Join(dir, "black"), list)
		c.Obs("excluded features", len(excluded))
	}
	left := len(names) - len(excluded)
	j.Args = replaceArg(j.Args, "-mTry")
	portion := 0.0
	switch r.Intn(3) {
	case 0:
		j.O.mTry = 1 + r.Intn(2*left+1)
		j.Args = append(j.Args, "-mTry", fmt.Sprint(j.O.mTry))
	case 1:
		portion = float64(1+r.Intn(16)) / 16
		j.Args = append(j.Args, "-mTry", fmt.Sprint(portion)+dot(portion))
		j.O.mTry = int(math.Ceil(portion * float64(left)))
	default:
		j.O.mTry = int(math.Ceil(math.Sqrt(float64(left))))
	}
	cut := 0.0
	forests := ace
	if r.Intn(2) == 0 {
		cut = []float64{.9, .6, .3, .1}[r.Intn(4)]
		more = append(more, "-cutoff", fmt.Sprint(cut))
		forests++
		c.Obs("cutoffs", 1)
	}
	sf := r.Intn(3) == 0
	if sf {
		more = append(more, "-rfpred", "forest.sf")
	}
	oob, test := r.Intn(3) == 0, cut > 0 && r.Intn(3) == 0
	if oob {
		more = append(more, "-oobpreds", "oob.tsv")
	}
	if test {
		more = append(more, "-selftest")
	}
	prep := without(j.prepare(r), "-contrastall")
	more = append(more, prep...)
	j.Data = true
	j.run(c, "growforest", more...)
	if len(prep) > 0 {
		frames := c.readFrames(filepath.Join(dir, "data.log"))
		j.Target = frames[0].table(c, j.T).Cols[j.Ti]
		c.Obs("prepared data", 1)
	}
	j.checkTrees(c, forests, j.Trees)
	c.Obs("ace forests", ace)
	if sf {
		if d := diffTexts(texts(lastForest(j.Log)), forestTexts(readForest(c, filepath.Join(dir, "forest.sf")))); d != "" {
			c.Fail("forest", "the forest written isn't the last one grown: %v", d)
		}
		c.Obs("forest files", 1)
	}
	frames := c.readFrames(filepath.Join(dir, "data.log"))
	if len(frames) != forests {
		c.Fail("data", "data of %d forests recorded instead of %d", len(frames), forests)
	}
	if oob {
		// only the last forest votes
		last := j.on(frames[forests-1].table(c, j.T), forests-1)
		p := last.outOfBag()
		preds, voted := last.checkPreds(c, filepath.Join(dir, "oob.tsv"), p)
		last.checkError(c, c.printed(j.Out, "Out of Bag Error :"), preds)
		c.Obs("oob predictions", voted)
	}
	if test {
		last := j.on(frames[forests-1].table(c, j.T), forests-1)
		last.checkTest(c, last.T)
		c.Obs("selftests", 1)
	}
	n := len(j.T.Cols)
	imps := make([][]float64, 2*n)
	scale := make([]float64, 2*n)
	orders := map[string]int{}
	for f := 0; f < ace; f++ {
		t := frames[f].table(c, j.T)
		if len(t.Cols) != 2*n {
			c.Fail("contrasts", "%d features with contrasts instead of %d", len(t.Cols), 2*n)
		}
		for i, w := range j.T.Cols {
			if i == j.Ti || excluded[w.Name] {
				continue
			}
			// every forest has contrasts of its own
			if o := orderOf(t.Cols[i], t.Cols[n+i]); o != "" {
				if last, ok := orders[o]; ok {
					c.Fail("contrasts", "forests %d and %d have the same contrast: %v", last, f, o)
				}
				orders[o] = f
				c.Obs("contrast orders", 1)
			}
		}
		k := j.on(t, f)
		k.checkLeaves(c)
		sum := map[string]float64{}
		for _, tr := range k.Log {
			k.walk(c, tr.Root, tr.Cases, 0, func(x *RNode, cs, l, rr, m []int, d int) {
				if x.Feature == "" {
					return
				}
				if len(m) > 0 {
					sum[x.Feature] += k.RT.Full(l, rr, m)
				} else {
					sum[x.Feature] += k.RT.Decrease(l, rr)
				}
				for i, col := range t.Cols {
					if col.Name == x.Feature {
						scale[i] += 1 + k.RT.Scale
					}
				}
			})
		}
		for i, col := range t.Cols {
			imps[i] = append(imps[i], sum[col.Name]/float64(j.Trees))
		}
	}
	rows := c.tsv(filepath.Join(dir, "imp.tsv"), 4)
	if len(rows) != n {
		c.Fail("importance", "%d lines for %d features", len(rows), n)
	}
	sig := ""
	selected := 0
	chosen := map[string]bool{}
	for i, f := range rows {
		name := j.T.Cols[i].Name
		if f[0] != j.Target.Name || f[1] != name {
			c.Fail("importance", "line %q for feature %v and target %v", f, name, j.Target.Name)
		}
		p, mean := c.float(f[2]), c.float(f[3])
		ma, va := variance(imps[i])
		mb, vb := variance(imps[i+n])
		eps := 1e-9 * (1 + scale[i] + scale[i+n])
		if !(math.Abs(mean-ma) <= eps) {
			c.Fail("mean", "%v has mean importance %v, reported %v", name, ma, mean)
		}
		c.Obs("mean importances", 1)
		if (i == j.Ti || excluded[name]) && (mean != 0 || ma != 0 || mb != 0) {
			c.Fail("excluded", "%v has importance %v and contrast %v", name, ma, mb)
		}
		if p < cut && mean > 0 {
			selected++
			chosen[name] = true
			c.Obs("features selected", 1)
		} else if cut > 0 {
			c.Obs("features rejected", 1)
		}
		sa, sb := va/float64(ace), vb/float64(ace)
		spread := math.Sqrt(sa + sb)
		if !(spread > 20*eps) {
			continue
		}
		if constant(imps[i]) {
			sa = 0
		}
		if constant(imps[i+n]) {
			sb = 0
		}
		t := (ma - mb) / math.Sqrt(sa+sb)
		df := (sa + sb) * (sa + sb) / (sa*sa + sb*sb) * float64(ace-1)
		want := tail(math.Abs(t), df)
		if t < 0 {
			want = 1 - want
		}
		c.Obs("p values", 1)
		sig += fmt.Sprintf(" %.4f", p)
		if !(math.Abs(p-want) <= 1e-6+eps/spread*(1+math.Abs(t))) {
			c.Fail("p", "%v: p value %v instead of %v, importances %v and %v of its contrast", name, p, want, imps[i], imps[i+n])
		}
	}
	if cut > 0 {
		mTry := j.O.mTry
		if portion > 0 {
			mTry = int(math.Ceil(portion * float64(selected)))
		} else if !strings.Contains(strings.Join(j.Args, " "), "-mTry") {
			mTry = int(math.Ceil(math.Sqrt(float64(selected))))
		}
		if got, want := c.printed(j.Out, "Growing non-ACE forest with "), fmt.Sprintf("%d features with p-value < %v.", selected, cut); got != want {
			c.Fail("selection", "%q reported instead of %q", got, want)
		}
		k := 0
		for _, l := range lines(j.Out) {
			if strings.HasPrefix(l, "mTry") {
				if k++; k == 2 && strings.TrimSpace(strings.SplitN(l, ":", 2)[1]) != fmt.Sprint(mTry) {
					c.Fail("selection", "%q reported instead of %d", l, mTry)
				}
			}
		}
		t := frames[ace].table(c, j.T)
		l := j.on(t, ace)
		l.O.mTry = mTry
		l.checkLeaves(c)
		ex := map[string]bool{}
		for _, col := range t.Cols {
			ex[col.Name] = !chosen[col.Name]
		}
		for _, tr := range l.Log {
			tr.Root.walk(func(x *RNode, _ string) {
				if x.Feature != "" && ex[x.Feature] {
					c.Fail("selection", "the last forest splits on %q, selected were %v", x.Feature, keys(chosen))
				}
			}, "*")
		}
		l.checkRoots(c, ex)
	}
	if sig != "" {
		c.Sig("%v%v", j.Args, sig)
		c.Sample("options %v %v: p values%v", j.Args, more, sig)
	}
}
