package main

import (
	"fmt"
	"math"
	"math/rand"
	"path/filepath"
	"strings"

	CF "github.com/ryanbressler/CloudForest"
)

// genTerm draws how a size between 1 and total is given and what it has to be.
func genTerm(r *rand.Rand, total int) (term string, want int, kind string) {
	switch r.Intn(5) {
	case 0, 1:
		want = 1 + r.Intn(total)
		return fmt.Sprint(want), want, "counts"
	case 2:
		// portions that are exact in binary
		k := 1 + r.Intn(64)
		return fmt.Sprint(float64(k)/64+0) + dot(float64(k)/64), int(math.Ceil(float64(k) * float64(total) / 64)), "portions"
	case 3:
		f := float64(1+r.Intn(999)) / 1000
		return fmt.Sprint(f), int(math.Ceil(f * float64(total))), "portions"
	}
	return "", 0, "defaults"
}

// dot makes sure that a portion of everything has a dot.
func dot(f float64) string {
	if f == math.Floor(f) {
		return ".0"
	}
	return ""
}

func c28(c *Ctx) {
	r := c.Rng
	for k := 0; k < 40; k++ {
		total := r.Intn(5000)
		if r.Intn(3) == 0 {
			total = r.Intn(12)
		}
		term, want := "", 0
		switch r.Intn(6) {
		case 0:
			want = r.Intn(10000) - 2000
			term = fmt.Sprint(want)
		case 1:
			term = []string{"", "x", "1x", ".", "..", "0x1.z", "--1", "1 2", "1e400.", "ten", "-", "+", "0.5.5", ",5"}[r.Intn(14)]
		case 2:
			f := float64(r.Intn(4000)) / 1000
			term = fmt.Sprintf("%.3f", f)
			want = ceilPortion(f, total)
		case 3:
			f := float64(r.Intn(512)) / 64
			term = fmt.Sprint(f) + dot(f)
			want = ceilPortion(f, total)
		case 4:
			f := float64(r.Intn(100)) / 100
			term = strings.TrimPrefix(fmt.Sprintf("%.2f", f), "0")
			want = ceilPortion(f, total)
		case 5:
			f := math.Floor(r.Float64()*1e9) / 1e6
			term = fmt.Sprintf("%.9f", f)
			want = ceilPortion(f, total)
		}
		if got := CF.ParseAsIntOrFractionOfTotal(term, total); got != want {
			c.Fail("term", "%q of %d is %d instead of %d", term, total, got, want)
		}
		c.Obs("terms", 1)
	}
	if c.Case%5 == 0 {
		choices(c)
		return
	}
	kinds, n := cliKinds, 8+r.Intn(40)
	if r.Intn(4) == 0 { // those that can be boosted
		kinds = []string{"numeric", "gini"}
		if r.Intn(2) == 0 {
			n, kinds = 1+r.Intn(4), kinds[:1+r.Intn(2)]
		}
	}
	j := genJob(c, kinds, n, 1+r.Intn(7))
	if j == nil {
		return
	}
	dir, done := c.dir()
	defer done()
	j.Dir = dir
	args := j.Args
	for _, f := range []string{"-nSamples", "-mTry", "-leafSize", "-maxDepth"} {
		args = replaceArg(args, f)
	}
	j.Args = args
	boost := false
	if (j.Kind == "gini" || j.Kind == "numeric") && r.Intn(3) == 0 {
		boost = true
		j.Cores = 1
		j.Args = append(without(j.Args, "-vet", "-evaloob"), "-adaboost")
	}
	k := len(known(j.Target))
	feats := len(j.T.Cols) - 1
	var more []string
	if r.Intn(4) == 0 {
		// totals are those of the data that is trained on
		if r.Intn(2) == 0 && j.Kind != "trans" && !(j.Kind == "ordinal" && j.Target.hasMissing()) {
			more = append(more, "-impute")
			k = j.T.N()
		}
		if r.Intn(2) == 0 && j.Kind != "trans" {
			more = append(more, "-contrastall")
			feats = 2*len(j.T.Cols) - 1
		}
		list := ""
		for i, col := range j.T.Cols {
			if i != j.Ti && feats > 1 && r.Intn(3) == 0 {
				list += col.Name + "\n"
				feats--
			}
		}
		if list != "" {
			write(filepath.Join(dir, "black"), list)
			more = append(more, "-blacklist", "black")
		}
		j.Data = len(more) > 0
	}
	size := func(flag, printed string, total, def int) int {
		term, want, kind := genTerm(r, total)
		if term != "" {
			j.Args = append(j.Args, flag, term)
		}
		if want <= 0 {
			want = def
		}
		c.Obs(kind, 1)
		return want
	}
	j.Sample = size("-nSamples", "", k, k)
	mTry := size("-mTry", "", feats, int(math.Ceil(math.Sqrt(float64(feats)))))
	def := 1
	if j.Target.Num {
		def = 4
	}
	if boost {
		def = max(1, k/3)
		if k < 3 {
			c.Obs("boosted few", 1)
		}
	}
	leaf := size("-leafSize", "", k, def)
	depth := 0
	if r.Intn(2) == 0 {
		depth = 1 + r.Intn(4)
		j.Args = append(j.Args, "-maxDepth", fmt.Sprint(depth))
	}
	j.run(c, "growforest", more...)
	if j.Data {
		j = j.prepared(c)
	}
	for _, p := range []struct {
		name string
		want int
	}{{"nTrees :", j.Trees}, {"Non Target Features :", feats}, {"non-missing cases:", k}, {"mTry :", mTry}, {"leafSize :", leaf}, {"nSamples :", j.Sample}} {
		if got := c.printed(j.Out, p.name); got != fmt.Sprint(p.want) {
			c.Fail("reported", "%v %v instead of %v", p.name, got, p.want)
		}
	}
	if !boost {
		j.checkTrees(c, 1, j.Trees)
	}
	for _, t := range j.Log {
		j.checkBag(c, t)
		j.walk(c, t.Root, t.Cases, 0, func(n *RNode, cs, l, rr, m []int, d int) {
			if n.Feature == "" {
				c.Obs("leaves", 1)
				if len(m) == 0 && d > 0 && len(cs) < leaf && !j.O.splitmissing {
					c.Fail("leafsize", "a leaf holds %d cases with a leaf size of %d", len(cs), leaf)
				}
				return
			}
			if len(l) < leaf || len(rr) < leaf {
				c.Fail("leafsize", "split leaves %d cases left and %d right with a leaf size of %d", len(l), len(rr), leaf)
			}
			if depth > 0 && d >= depth {
				c.Fail("depth", "split at depth %d with a limit of %d", d, depth)
			}
		})
	}
	c.Sig("%v", j.Args)
	c.Sample("options %v: %d samples, mTry %d, leaf size %d, depth %d", j.Args, j.Sample, mTry, leaf, depth)
}

func ceilPortion(f float64, total int) int { return int(math.Ceil(f * float64(total))) }

// choices counts which features the roots are split on when it is known how they rank.
func choices(c *Ctx) {
	r := c.Rng
	n, m := 30, 3+r.Intn(6)
	t := &Table{Labels: caseLabels(n)}
	for k := 0; k < m; k++ {
		col := &Col{Name: fmt.Sprintf("N:f%d", k), Num: true, V: make([]float64, n), Miss: make([]bool, n)}
		for i := range col.V {
			col.V[i] = float64(i)
			if i < k { // the k-th says nothing about k cases
				col.V[i] = 100
			}
		}
		t.Cols = append(t.Cols, col)
	}
	tc := &Col{Name: "C:target", Cats: []string{"a", "b"}, K: make([]int, n), Miss: make([]bool, n)}
	for i := range tc.K {
		if i >= n/2 {
			tc.K[i] = 1
		}
	}
	r.Shuffle(m, func(a, b int) { t.Cols[a], t.Cols[b] = t.Cols[b], t.Cols[a] })
	t.Cols = append(t.Cols, tc)
	term, mTry, _ := genTerm(r, m)
	if term == "" {
		term, mTry = "0", int(math.Ceil(math.Sqrt(float64(m))))
	}
	j := &job{T: t, Target: tc, Cores: 1 + r.Intn(4), Trees: 1000, Sample: n, Nobag: true}
	j.Args = []string{"-nobag", "-maxDepth", "1", "-mTry", term}
	dir, done := c.dir()
	defer done()
	j.Dir = dir
	j.run(c, "growforest")
	j.checkTrees(c, 1, j.Trees)
	got := map[string]int{}
	for _, tr := range j.Log {
		got[tr.Root.Feature]++
	}
	for k := 0; k < m; k++ {
		// the k-th best is chosen if it is drawn and the better ones aren't
		p := choose(m-k-1, mTry-1) / choose(m, mTry)
		f := fmt.Sprintf("N:f%d", k)
		sd := math.Sqrt(float64(j.Trees) * p * (1 - p))
		if unlikely(got[f], j.Trees, p) {
			c.Fail("choices", "mTry %v of %d features (%d): the feature that ranks %d was chosen for %d of %d roots, expected %v +- %v", term, m, mTry, k, got[f], j.Trees, float64(j.Trees)*p, sd)
		}
	}
	c.Obs("choices", j.Trees)
	c.Sig("choices %v %v %v", m, mTry, got)
}

func choose(n, k int) float64 {
	if k < 0 || k > n {
		return 0
	}
	x := 1.0
	for i := 1; i <= k; i++ {
		x = x * float64(n-k+i) / float64(i)
	}
	return x
}
