package main

import (
	"fmt"
	"math"
	"math/big"
	"math/rand"
	"sort"

	CF "github.com/ryanbressler/CloudForest"
)

const minImp = 1e-7

// Search is a generated learning problem: a table, one column of which is the target.
type Search struct {
	T     *Table
	FM    *CF.FeatureMatrix
	RT    *RefTarget
	Ti    int
	Cases []int
	Leaf  int
	Al    *CF.BestSplitAllocs
}

// genSearch makes a learning problem with m features. It returns nil if the target has
// no cases.
func genSearch(r *rand.Rand, kind string, n, m int, cats func(*rand.Rand) int) *Search {
	t := genTable(r, n, m, cats)
	for _, c := range t.Cols {
		if c.Num && c.Name[0] == 'N' && r.Intn(2) == 0 {
			correlate(r, t, c)
		}
	}
	tc := genTargetCol(r, kind, n, []float64{0, 0, .2}[r.Intn(3)])
	ti := r.Intn(m + 1)
	t.Cols = append(t.Cols, nil)
	copy(t.Cols[ti+1:], t.Cols[ti:])
	t.Cols[ti] = tc
	k := known(tc)
	if len(k) < 2 {
		return nil
	}
	// make some of the features say something about the target
	for i, c := range t.Cols {
		if i == ti || r.Intn(2) == 0 {
			continue
		}
		all := 0.0
		if n > 5000 {
			all = maxAbs(c.V)
		}
		for j := range c.Miss {
			if r.Intn(4) == 0 {
				continue
			}
			switch {
			case c.Num && tc.Num:
				c.V[j] = math.Floor(4 * tc.V[j])
			case c.Num:
				by := all
				if n <= 5000 {
					by = maxAbs(c.V)
				}
				c.V[j] = float64(tc.K[j])*2 + c.V[j]/(1+by)
			case tc.Num:
				if tc.V[j] > 0 {
					c.K[j] /= 2
				}
			default:
				c.K[j] = (tc.K[j]*7 + r.Intn(2)) % len(c.Cats)
			}
		}
	}
	for i, c := range t.Cols {
		if i != ti && n > 5000 {
			coarse(c)
		}
	}
	s := &Search{T: t, FM: t.FM(), Ti: ti}
	s.RT = makeTarget(r, kind, tc, s.FM.Data[ti], s.FM, t)
	s.Cases = sampleOf(r, k)
	s.Leaf = 1 + r.Intn(1+r.Intn(5))
	size := n
	if len(s.Cases) > size {
		size = len(s.Cases)
	}
	if kind != "density" {
		s.Al = CF.NewBestSplitAllocs(size, s.RT.T)
	} else {
		s.Al = CF.NewBestSplitAllocs(size, s.FM.Data[ti].(CF.Target))
	}
	return s
}

// correlate makes a column a noisy function of another one.
func correlate(r *rand.Rand, t *Table, c *Col) {
	o := t.Cols[r.Intn(len(t.Cols))]
	if !o.Num || o == c {
		return
	}
	for i := range c.V {
		c.V[i] = o.V[i] + math.Floor(r.NormFloat64()*4)/4
	}
}

// groups divides the cases by a coded split, according to the harness.
func groups(col *Col, coded interface{}, cs []int) (l, r, m []int, err string) {
	for _, i := range cs {
		if col.Miss[i] {
			m = append(m, i)
			continue
		}
		left := false
		switch s := coded.(type) {
		case float64:
			left = col.V[i] <= s
		case int:
			left = s>>uint(col.K[i])&1 == 1
		case *big.Int:
			left = s.Bit(col.K[i]) == 1
		default:
			return nil, nil, nil, fmt.Sprintf("split is a %T", coded)
		}
		if left {
			l = append(l, i)
		} else {
			r = append(r, i)
		}
	}
	return
}

// decodedGroups divides the cases by the decoded form of a split.
func decodedGroups(col *Col, s *CF.Splitter, cs []int) (l, r, m []int) {
	for _, i := range cs {
		switch {
		case col.Miss[i]:
			m = append(m, i)
		case col.Num && col.V[i] <= s.Value, !col.Num && s.Left[col.Label(i)]:
			l = append(l, i)
		default:
			r = append(r, i)
		}
	}
	return
}

func (s *Search) tol() float64 { return 1e-9 * (1 + s.RT.Scale) }

// valid reports a split that a search must not return.
func (s *Search) valid(col *Col, coded interface{}) (l, r, m []int, err string) {
	l, r, m, err = groups(col, coded, s.Cases)
	if err == "" && (len(l) < s.Leaf || len(r) < s.Leaf) {
		err = fmt.Sprintf("split %v leaves %d cases left and %d right with a leaf size of %d", coded, len(l), len(r), s.Leaf)
	}
	return
}

// honest checks a split that has been returned with a usable decrease.
func (s *Search) honest(c *Ctx, f CF.Feature, col *Col, coded interface{}, dec float64) (l, r, m []int) {
	l, r, m, err := s.valid(col, coded)
	if err != "" {
		c.Fail("invalid-split", "%v: %v", col.Name, err)
	}
	dl, dr, dm := decodedGroups(col, f.DecodeSplit(coded), s.Cases)
	if !sameBag(l, dl) || !sameBag(r, dr) || !sameBag(m, dm) {
		c.Fail("decoded-split", "%v: split %v and its decoded form %+v divide the cases differently", col.Name, coded, f.DecodeSplit(coded))
	}
	want := s.RT.Decrease(l, r)
	if len(m) > 0 {
		want = s.RT.Full(l, r, m)
		if s.RT.Kind == "gradboost" || s.RT.Kind == "gradboostclass" {
			want = dec // scores of gradient boosting have no defined correction
		}
	}
	if !(math.Abs(want-dec) <= s.tol()) {
		c.Fail("decrease", "%v: split %v (left %v right %v missing %v) reported to decrease impurity by %v instead of %v", col.Name, coded, l, r, m, dec, want)
	}
	return
}

// numOptimum enumerates all thresholds for the non missing cases.
func (s *Search) numOptimum(col *Col) (best float64, valid int, clear bool) {
	cs := s.nonMissing(col)
	// by value
	sort.SliceStable(cs, func(i, j int) bool { return col.V[cs[i]] < col.V[cs[j]] })
	best = math.Inf(-1)
	clear = true
	for i := 1; i < len(cs); i++ {
		if d := col.V[cs[i]] - col.V[cs[i-1]]; d != 0 && d <= 1e-6 {
			clear = false
		}
	}
	for i := s.Leaf; i <= len(cs)-s.Leaf; i++ {
		if i == 0 || col.V[cs[i]] == col.V[cs[i-1]] {
			continue
		}
		valid++
		if d := s.RT.Decrease(cs[:i:i], cs[i:]); d > best {
			best = d
		}
	}
	return
}

func (s *Search) nonMissing(col *Col) (cs []int) {
	for _, i := range s.Cases {
		if !col.Miss[i] {
			cs = append(cs, i)
		}
	}
	return
}

func (s *Search) catDivide(col *Col, left func(k int) bool) (l, r []int) {
	for _, i := range s.nonMissing(col) {
		if left(col.K[i]) {
			l = append(l, i)
		} else {
			r = append(r, i)
		}
	}
	return
}

// present are the categories of the non missing cases.
func (s *Search) present(col *Col) (ks []int) {
	seen := map[int]bool{}
	for _, i := range s.nonMissing(col) {
		if !seen[col.K[i]] {
			seen[col.K[i]] = true
			ks = append(ks, col.K[i])
		}
	}
	return
}

// catDecrease is the decrease of a split of the non missing cases if it is valid.
func (s *Search) catDecrease(col *Col, left func(k int) bool) (float64, bool) {
	l, r := s.catDivide(col, left)
	if len(l) < s.Leaf || len(r) < s.Leaf {
		return 0, false
	}
	return s.RT.Decrease(l, r), true
}

// catOptimum enumerates all partitions of the categories.
func (s *Search) catOptimum(col *Col) (best float64, valid int) {
	best = math.Inf(-1)
	for b := 1; b < 1<<uint(len(col.Cats)-1); b++ {
		if d, ok := s.catDecrease(col, func(k int) bool { return b>>uint(k)&1 == 1 }); ok {
			valid++
			best = math.Max(best, d)
		}
	}
	return
}
