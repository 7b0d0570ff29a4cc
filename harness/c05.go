package main

import (
	"fmt"
	"math"
	"strings"

	CF "github.com/ryanbressler/CloudForest"
)

// C05: the feature a node is split on is the best of at most mTry random candidates.

func init() {
	register(&Check{Prop: "C05", Quick: 250000, Thorough: 6000000,
		Rule:        "features, target, candidates, mTry and the options force, vet, oob evaluation and random splits are drawn from the seed and the search is followed down a few nodes with wrapped features recording what it evaluates; every 64th case counts how often each candidate is drawn; non trivial = at least two candidates evaluated and one chosen, distinct by (options, candidates, mTry, evaluated sequence, choice)",
		Assumptions: []string{"vetting is only checked for the plain targets and oob evaluation for targets with an impurity", "draw frequencies are only decided where a deviation has a probability below 1e-13"},
		Need:        []string{"searches", "chosen", "mTry covers all", "known constants", "new constants", "force", "vetted", "contrasts of their own", "oob evaluated", "pure", "frequencies"},
		Run:         c05})
}

// spyFeature records what is asked of a feature.
type spyFeature struct {
	CF.Feature
	i   int
	log *spyLog
}

type spyLog struct {
	s     *Search
	evals []spyEval
}

type spyEval struct {
	fi       int
	contrast bool
	coded    interface{}
	dec      float64
	constant bool
	cases    []int
	snapshot *Col
	random   bool
	leaf     int
}

func (f *spyFeature) BestSplit(target CF.Target, cases *[]int, parentImp float64, leafSize int, randomSplit bool, allocs *CF.BestSplitAllocs) (interface{}, float64, bool) {
	e := spyEval{fi: f.i, contrast: target != f.log.s.RT.T, cases: append([]int{}, *cases...), random: randomSplit, leaf: leafSize}
	if e.contrast {
		if tf, ok := target.(CF.Feature); ok {
			e.snapshot = colOf(tf)
		}
	}
	e.coded, e.dec, e.constant = f.Feature.BestSplit(target, cases, parentImp, leafSize, randomSplit, allocs)
	f.log.evals = append(f.log.evals, e)
	return e.coded, e.dec, e.constant
}

func c05(c *Ctx) {
	r := c.Rng
	if c.Case%200 == 101 {
		c.trained()
		return
	}
	if c.Case%64 == 0 {
		drawFrequencies(c)
		return
	}
	n := 6 + r.Intn(40)
	m := 1 + r.Intn(10)
	if c.large(1009) {
		n, m = 20+r.Intn(60), 60+r.Intn(300)
	}
	kind := anyKind(c)
	s := genSearch(r, kind, n, m, smallCats)
	if s == nil {
		return
	}
	log := &spyLog{s: s}
	var cands []int
	for i, col := range s.T.Cols {
		if i == s.Ti {
			continue
		}
		if r.Intn(6) == 0 { // constant
			for j := range col.Miss {
				if col.Num {
					col.V[j] = col.V[0]
				} else {
					col.K[j] = col.K[0]
				}
			}
		}
		if r.Intn(8) != 0 {
			cands = append(cands, i)
		}
	}
	r.Shuffle(len(cands), func(i, j int) { cands[i], cands[j] = cands[j], cands[i] })
	if len(cands) == 0 {
		return
	}
	for i, col := range s.T.Cols {
		if i != s.Ti {
			s.FM.Data[i] = &spyFeature{Feature: col.Feature(), i: i, log: log}
		}
	}
	if kind == "trans" {
		// the target looks at the features themselves
		var fs []CF.Feature
		for i, col := range s.T.Cols {
			if i == s.Ti {
				fs = append(fs, s.FM.Data[i])
			} else {
				fs = append(fs, col.Feature())
			}
		}
		s.RT.T.(*CF.TransTarget).Features = &fs
	}
	kind = s.RT.Kind
	mTry := 1 + r.Intn(len(cands)+2)
	force := r.Intn(4) == 0
	vet := (kind == "numeric" || kind == "gini") && r.Intn(4) == 0
	evaloob := !s.RT.Score && kind != "trans" && r.Intn(4) == 0
	random := r.Intn(8) == 0
	var oob []int
	for _, i := range known(s.RT.Col) {
		if r.Intn(2) == 0 {
			oob = append(oob, i)
		}
	}
	if len(oob) < 2 {
		evaloob = false
	}
	if evaloob && !s.RT.Col.Num {
		// an impurity needs to be defined
	}
	c.Note("target %v %v", kind, s.RT.Col)
	c.Note("%v", s.T)
	c.Note("mTry %d force %v vet %v evaloob %v random %v leaf size %d oob %v", mTry, force, vet, evaloob, random, s.Leaf, oob)

	cases := append([]int{}, s.Cases...)
	nconst := 0
	cans := append([]int{}, cands...)
	for depth := 0; depth < 4 && len(cases) > 0; depth++ {
		s.Cases = append([]int{}, cases...)
		log.evals = nil
		before := append([]int{}, cans...)
		o := append([]int{}, oob...)
		al := s.Al
		ref := s.RT.T.Impurity(&cases, al.Counter)
		fi, split, dec, nc := s.FM.BestSplitter(s.RT.T, &cases, &cans, mTry, &o, s.Leaf, force, vet, evaloob, random, al, nconst)
		c.Obs("searches", 1)
		where := fmt.Sprintf("depth %d cases %v candidates %v with %d constant", depth, s.Cases, before, nconst)
		if !sameBag(cases, s.Cases) || !sameBag(o, oob) {
			c.Fail("cases", "%v: cases became %v, oob %v", where, cases, o)
		}
		if !sameBag(before, cans) {
			c.Fail("candidates", "%v: candidates became %v", where, cans)
		}
		if nc < nconst || nc > len(cans) || !eqInts(before[len(before)-nconst:], cans[len(cans)-nconst:]) {
			c.Fail("constants-moved", "%v: %d constants, candidates became %v", where, nc, cans)
		}
		wasConst := map[int]bool{}
		for _, f := range before[len(before)-nconst:] {
			wasConst[f] = true
		}
		isConst := map[int]bool{}
		for _, f := range cans[len(cans)-nc:] {
			isConst[f] = true
		}
		// what was evaluated
		seen := map[int]bool{}
		evaluated, nonconstant := 0, 0
		var seq []string
		best, bestFi, unclear := minImp, -1, false
		var bestSplit interface{}
		contrasts := []*Col{s.RT.Col}
		for k := 0; k < len(log.evals); k++ {
			e := log.evals[k]
			if e.contrast {
				c.Fail("contrast", "%v: contrast evaluated for feature %d out of order", where, e.fi)
			}
			seq = append(seq, fmt.Sprint(e.fi))
			evaluated++
			in := false
			for _, f := range before {
				in = in || f == e.fi
			}
			if !in || seen[e.fi] || wasConst[e.fi] {
				c.Fail("evaluated", "%v: feature %d evaluated (candidate %v, again %v, constant before %v)", where, e.fi, in, seen[e.fi], wasConst[e.fi])
			}
			if !sameBag(e.cases, s.Cases) || e.leaf != s.Leaf || e.random != random {
				c.Fail("arguments", "%v: feature %d evaluated on cases %v leaf size %d random %v", where, e.fi, e.cases, e.leaf, e.random)
			}
			seen[e.fi] = true
			if !e.constant {
				nonconstant++
			} else {
				c.Obs("new constants", 1)
			}
			if e.constant && !isConst[e.fi] || !e.constant && isConst[e.fi] {
				c.Fail("constants", "%v: feature %d constant %v, %d constants of %v", where, e.fi, e.constant, nc, cans)
			}
			d := e.dec
			col := s.T.Cols[e.fi]
			if (evaloob || vet) && math.Abs(d-best) <= 2*s.tol() {
				unclear = true // it is a matter of rounding whether it is looked at again
			}
			if evaloob && d > best {
				l, rr, mm, _ := groups(col, e.coded, oob)
				if len(l) == 0 || len(rr) == 0 {
					// not defined what such a split is worth
					unclear = true
				} else {
					d = s.RT.Imp(oob) - s.RT.Split(l, rr, mm)
				}
				c.Obs("oob evaluated", 1)
			}
			if vet && k+1 < len(log.evals) && log.evals[k+1].contrast {
				if !unclear && d < best-2*s.tol() {
					c.Fail("contrast", "%v: feature %d is compared with its contrast though %v isn't better than %v", where, e.fi, d, best)
				}
				k++
				v := log.evals[k]
				on := s.Cases
				if evaloob {
					on = oob
				}
				if v.fi != e.fi || !sameBag(v.cases, on) {
					c.Fail("contrast", "%v: feature %d is compared with feature %d on cases %v", where, e.fi, v.fi, v.cases)
				}
				checkContrast(c, where, s.RT.Col, v.snapshot, on)
				if distinct(s.RT.Col, on) >= 16 {
					for _, old := range contrasts {
						if sameValues(old, v.snapshot, on) {
							c.Fail("contrast", "%v: the contrast of feature %d isn't shuffled anew: %v", where, e.fi, v.snapshot)
						}
					}
					contrasts = append(contrasts, v.snapshot)
					c.Obs("contrasts of their own", 1)
				}
				d -= v.dec
				c.Obs("vetted", 1)
			} else if vet && !unclear && d > best+2*s.tol() {
				c.Fail("contrast", "%v: feature %d with decrease %v isn't compared with its contrast", where, e.fi, d)
			}
			if math.Abs(d-best) <= 2*s.tol() && d != best {
				// too close to call: follow the code
				if fi == e.fi && split != nil && near(dec, d, s.RT.Scale) {
					best, bestFi, bestSplit = d, e.fi, e.coded
				}
			} else if d > best {
				best, bestFi, bestSplit = d, e.fi, e.coded
			}
		}
		if split != nil && bestFi != fi && bestFi >= 0 && math.Abs(dec-best) <= 4*s.tol() {
			bestFi, bestSplit, best = fi, split, dec // a tie
		}
		if split == nil && bestFi >= 0 && best <= minImp+4*s.tol() {
			bestFi = -1
		}
		if !unclear && (bestFi >= 0) != (split != nil) || !unclear && bestFi >= 0 && (bestFi != fi || !near(best, dec, s.RT.Scale) || fmt.Sprint(bestSplit) != fmt.Sprint(split)) {
			c.Fail("choice", "%v: chose feature %d split %v decrease %v instead of %d %v %v of %+v", where, fi, split, dec, bestFi, bestSplit, best, log.evals)
		}
		if evaluated > mTry && !force || evaluated > len(cans) {
			c.Fail("mtry", "%v: %d features evaluated with mTry %d", where, evaluated, mTry)
		}
		if split == nil && dec > minImp*1.0000001 {
			c.Fail("decrease", "%v: decrease %v without a split", where, dec)
		}
		if split != nil && !(dec > minImp) {
			c.Fail("decrease", "%v: split with decrease %v", where, dec)
		}
		if ref >= 0 && ref <= minImp {
			c.Obs("pure", 1)
			if evaluated != 0 || split != nil {
				c.Fail("pure", "%v: impurity %v is split", where, ref)
			}
			return
		}
		left := len(before) - nconst // non constant candidates
		if mTry >= len(cands) {
			c.Obs("mTry covers all", 1)
			if evaluated != left {
				c.Fail("coverage", "%v: %d of %d non constant candidates evaluated with mTry %d", where, evaluated, left, mTry)
			}
		} else if nconst == 0 && evaluated < mTry {
			c.Fail("coverage", "%v: %d candidates evaluated with mTry %d", where, evaluated, mTry)
		}
		if force {
			c.Obs("force", 1)
			if nonconstant == 0 && len(cans) > nc {
				c.Fail("force", "%v: no non constant feature evaluated out of %v with %d constant", where, cans, nc)
			}
		} else if evaluated+nconst < mTry && evaluated < left {
			c.Fail("coverage", "%v: %d candidates evaluated with mTry %d", where, evaluated, mTry)
		}
		if nconst > 0 {
			c.Obs("known constants", 1)
		}
		if split != nil {
			c.Obs("chosen", 1)
			if evaluated > 1 {
				c.Sig("%v %d %v%v%v%v %d %d %v %d", kind, n, force, vet, evaloob, random, len(cands), mTry, strings.Join(seq, " "), fi)
			}
			c.Sample("target %v, %v: evaluated features %v, chose %d split %v decrease %v", kind, where, seq, fi, split, dec)
		}
		nconst = nc
		if split == nil {
			return
		}
		l, rr, _, _ := groups(s.T.Cols[fi], split, s.Cases)
		cases = l
		if r.Intn(2) == 0 {
			cases = rr
		}
		cases = append([]int{}, cases...)
	}
}

// distinct counts the distinct values known of cases.
func distinct(col *Col, cases []int) int {
	m := map[string]bool{}
	for _, i := range cases {
		if !col.Miss[i] {
			m[col.Str(i)] = true
		}
	}
	return len(m)
}

// sameValues is true if two columns agree on cases.
func sameValues(a, b *Col, cases []int) bool {
	for _, i := range cases {
		if a.Str(i) != b.Str(i) {
			return false
		}
	}
	return true
}

// checkContrast checks that the target a split is compared with is the original one
// with the values of some cases shuffled.
func checkContrast(c *Ctx, where string, orig, got *Col, on []int) {
	if got == nil {
		c.Fail("contrast", "%v: contrast isn't a copy of the target", where)
	}
	in := map[int]bool{}
	for _, i := range on {
		in[i] = true
	}
	a, b := map[string]int{}, map[string]int{}
	for i := range orig.Miss {
		if in[i] {
			a[orig.Str(i)]++
			b[got.Str(i)]++
		} else if orig.Str(i) != got.Str(i) {
			c.Fail("contrast", "%v: the contrast changed case %d which isn't considered", where, i)
		}
	}
	for k, n := range a {
		if b[k] != n {
			c.Fail("contrast", "%v: the contrast isn't a permutation of the target: %v became %v", where, orig, got)
		}
	}
}

// drawFrequencies counts how often each candidate gets evaluated.
func drawFrequencies(c *Ctx) {
	r := c.Rng
	n, m := 8+r.Intn(8), 2+r.Intn(7)
	t := &Table{Labels: caseLabels(n)}
	for j := 0; j < m; j++ {
		col := &Col{Name: fmt.Sprintf("N:f%d", j), Num: true, V: make([]float64, n), Miss: make([]bool, n)}
		for i := range col.V {
			col.V[i] = float64(i)
		}
		t.Cols = append(t.Cols, col)
	}
	tc := genNum(r, "N:target", n, 0)
	tc.V[0], tc.V[1] = 1, 2
	t.Cols = append(t.Cols, tc)
	fm := t.FM()
	s := &Search{T: t, FM: fm, RT: &RefTarget{T: fm.Data[m].(CF.Target)}}
	log := &spyLog{s: s}
	var cans, cases []int
	for j := 0; j < m; j++ {
		fm.Data[j] = &spyFeature{Feature: fm.Data[j], i: j, log: log}
		cans = append(cans, j)
	}
	for i := 0; i < n; i++ {
		cases = append(cases, i)
	}
	mTry := 1 + r.Intn(m)
	al := CF.NewBestSplitAllocs(n, s.RT.T)
	got := make([]int, m)
	const rounds = 1500
	for k := 0; k < rounds; k++ {
		log.evals = nil
		cs := append([]int{}, cases...)
		fm.BestSplitter(s.RT.T, &cs, &cans, mTry, &cs, 1, false, false, false, false, al, 0)
		if len(log.evals) != mTry {
			c.Fail("mtry", "%d of %d features evaluated with mTry %d", len(log.evals), m, mTry)
		}
		for _, e := range log.evals {
			got[e.fi]++
		}
	}
	p := float64(mTry) / float64(m)
	sd := math.Sqrt(rounds * p * (1 - p))
	for j, k := range got {
		if unlikely(k, rounds, p) {
			c.Fail("frequency", "%d features, mTry %d: feature %d was evaluated %d times in %d searches, expected %v +- %v (%v)", m, mTry, j, k, rounds, rounds*p, sd, got)
		}
	}
	c.Obs("frequencies", 1)
	c.Sig("freq %d %d %d", n, m, mTry)
}
