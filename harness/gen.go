package main

import (
	"fmt"
	"math"
	"math/rand"
	"sort"
	"strconv"
	"strings"

	CF "github.com/ryanbressler/CloudForest"
)

// Col is the harness' own model of one feature. It is the ground truth the oracles use.
type Col struct {
	Name string
	Num  bool
	V    []float64 // values of a numerical feature
	K    []int     // index into Cats of a categorical feature
	Cats []string  // labels in the order the feature numbers them
	Miss []bool
	Rand bool   // random search
	Imp  []bool // values a mean or mode was filled in for
}

// shows tells whether s is the text of the value of a case. An imputed mean may differ in
// its last digits, as sums may be taken in any order.
func (c *Col) shows(i int, s string) bool {
	if s == c.Str(i) {
		return true
	}
	if !c.Num || c.Miss[i] || c.Imp == nil || !c.Imp[i] {
		return false
	}
	x, err := strconv.ParseFloat(s, 64)
	return err == nil && near(x, c.V[i], maxAbs(c.V))
}

// Label is the string label of a case of a categorical column.
func (c *Col) Label(i int) string { return c.Cats[c.K[i]] }

func (c *Col) hasMissing() bool {
	for _, m := range c.Miss {
		if m {
			return true
		}
	}
	return false
}

func (c *Col) clone() *Col {
	d := *c
	d.V = append([]float64{}, c.V...)
	d.K = append([]int{}, c.K...)
	d.Cats = append([]string{}, c.Cats...)
	d.Miss = append([]bool{}, c.Miss...)
	return &d
}

// Feature builds the real feature for the column.
func (c *Col) Feature() CF.Feature {
	if c.Num {
		return c.NumF()
	}
	return c.CatF()
}

// stale picks what a feature holds behind a missing value, which nothing may depend on.
// Half of the features hold zeros as they do after parsing.
func (c *Col) stale() func(i int) int {
	h := uint32(2166136261)
	for j := range c.Miss {
		x := uint32(0)
		switch {
		case c.Miss[j]:
			x = 7
		case c.Num:
			x = uint32(math.Float64bits(c.V[j]) >> 32)
		default:
			x = uint32(c.K[j])
		}
		h = (h ^ x) * 16777619
	}
	if h>>16&1 == 0 {
		return func(int) int { return 0 }
	}
	return func(i int) int { return int((h ^ uint32(i)*2654435761) >> 8 & 0xffff) }
}

func (c *Col) NumF() *CF.DenseNumFeature {
	v, stale := append([]float64{}, c.V...), c.stale()
	for i, m := range c.Miss {
		if m {
			v[i] = []float64{0, 0, 1, 5, .5}[stale(i)%5]
		}
	}
	return &CF.DenseNumFeature{NumData: v, Missing: append([]bool{}, c.Miss...), Name: c.Name, HasMissing: c.hasMissing()}
}

func (c *Col) CatF() *CF.DenseCatFeature {
	m := map[string]int{}
	for i, s := range c.Cats {
		m[s] = i
	}
	k, stale := append([]int{}, c.K...), c.stale()
	for i, m := range c.Miss {
		if m {
			k[i] = 0
			if s := stale(i); s%2 == 0 && len(c.Cats) > 0 {
				k[i] = s % len(c.Cats)
			}
		}
	}
	return &CF.DenseCatFeature{CatMap: &CF.CatMap{Map: m, Back: append([]string{}, c.Cats...)},
		CatData: k, Missing: append([]bool{}, c.Miss...), Name: c.Name, RandomSearch: c.Rand, HasMissing: c.hasMissing()}
}

func (c *Col) String() string {
	s := make([]string, 0, len(c.Miss))
	for i := range c.Miss {
		switch {
		case c.Miss[i]:
			s = append(s, "NA")
		case c.Num:
			s = append(s, fmt.Sprintf("%g", c.V[i]))
		default:
			s = append(s, c.Label(i))
		}
	}
	return c.Name + "[" + strings.Join(s, " ") + "]"
}

// Table is the harness' model of a feature matrix.
type Table struct {
	Cols   []*Col
	Labels []string
}

func (t *Table) N() int { return len(t.Labels) }

func (t *Table) clone() *Table {
	o := &Table{Labels: append([]string{}, t.Labels...)}
	for _, c := range t.Cols {
		o.Cols = append(o.Cols, c.clone())
	}
	return o
}

func (t *Table) FM() *CF.FeatureMatrix {
	fm := &CF.FeatureMatrix{Map: map[string]int{}, CaseLabels: append([]string{}, t.Labels...)}
	for i, c := range t.Cols {
		fm.Data = append(fm.Data, c.Feature())
		fm.Map[c.Name] = i
	}
	return fm
}

func (t *Table) Col(name string) *Col {
	for _, c := range t.Cols {
		if c.Name == name {
			return c
		}
	}
	return nil
}

func (t *Table) String() string {
	s := make([]string, 0, len(t.Cols))
	for _, c := range t.Cols {
		s = append(s, c.String())
	}
	return strings.Join(s, "\n")
}

// AFM renders the table with one feature per row.
func (t *Table) AFM() string {
	var b strings.Builder
	b.WriteString(".")
	for _, l := range t.Labels {
		b.WriteString("\t" + l)
	}
	b.WriteString("\n")
	for _, c := range t.Cols {
		b.WriteString(c.Name)
		for i := range c.Miss {
			b.WriteString("\t" + c.Str(i))
		}
		b.WriteString("\n")
	}
	return b.String()
}

// Str is the text of a value.
func (c *Col) Str(i int) string {
	switch {
	case c.Miss[i]:
		return "NA"
	case c.Num:
		return fmt.Sprintf("%v", c.V[i])
	}
	return c.Label(i)
}

// numStyle picks how the values of a numerical column are distributed.
func genNum(r *rand.Rand, name string, n int, missing float64) *Col {
	c := &Col{Name: name, Num: true, V: make([]float64, n), Miss: make([]bool, n)}
	style := r.Intn(8)
	k := 1 + r.Intn(6)
	for i := range c.V {
		switch style {
		case 0, 1:
			c.V[i] = r.NormFloat64()
		case 2:
			c.V[i] = float64(r.Intn(k + 1)) // heavy ties
		case 3:
			c.V[i] = float64(r.Intn(2*n+1) - n)
		case 4:
			c.V[i] = 1e6 * r.NormFloat64()
		case 5:
			c.V[i] = float64(r.Intn(5)) * 0.25
		case 6:
			c.V[i] = float64(r.Intn(4)) / 3
		case 7:
			c.V[i] = math.Floor(r.NormFloat64()*20) / 10
		}
		c.Miss[i] = r.Float64() < missing
	}
	if r.Intn(12) == 0 { // constant
		for i := range c.V {
			c.V[i] = c.V[0]
		}
	}
	return c
}

// genDistinct draws a column of different numbers.
func genDistinct(r *rand.Rand, name string, n int) *Col {
	c := &Col{Name: name, Num: true, Miss: make([]bool, n)}
	for _, p := range r.Perm(n) {
		c.V = append(c.V, float64(p)/4)
	}
	return c
}

func genCat(r *rand.Rand, name string, n, k int, missing float64) *Col {
	c := &Col{Name: name, K: make([]int, n), Miss: make([]bool, n)}
	for j := 0; j < k; j++ {
		c.Cats = append(c.Cats, fmt.Sprintf("c%d", j))
	}
	r.Shuffle(k, func(i, j int) { c.Cats[i], c.Cats[j] = c.Cats[j], c.Cats[i] })
	skew := r.Intn(3) == 0
	for i := range c.K {
		c.K[i] = r.Intn(k)
		if skew && r.Intn(3) != 0 {
			c.K[i] = c.K[i] / 2
		}
		c.Miss[i] = r.Float64() < missing
	}
	return c
}

// genCats picks how many categories a generated categorical feature has.
func genCats(r *rand.Rand) int {
	switch r.Intn(8) {
	case 0, 1:
		return 2
	case 2, 3:
		return 3 + r.Intn(3)
	case 4:
		return 6 + r.Intn(8)
	case 5:
		return 25 + r.Intn(6)
	case 6:
		return 31 + r.Intn(10)
	}
	return 60 + r.Intn(12)
}

// coarse leaves a column few values, so that all thresholds of many cases can be tried.
func coarse(c *Col) {
	for i := range c.V {
		c.V[i] = math.Max(-8, math.Min(8, math.Floor(2*c.V[i])/2))
	}
}

func smallCats(r *rand.Rand) int {
	if r.Intn(2) == 0 {
		return 2
	}
	return 3 + r.Intn(3)
}

func missRate(r *rand.Rand) float64 {
	switch r.Intn(4) {
	case 0:
		return .15
	case 1:
		return .5
	}
	return 0
}

func caseLabels(n int) []string {
	l := make([]string, n)
	for i := range l {
		l[i] = fmt.Sprintf("case%d", i)
	}
	return l
}

// genTable makes a table of m columns over n cases.
func genTable(r *rand.Rand, n, m int, cats func(*rand.Rand) int) *Table {
	t := &Table{Labels: caseLabels(n)}
	for j := 0; j < m; j++ {
		if r.Intn(2) == 0 {
			t.Cols = append(t.Cols, genNum(r, fmt.Sprintf("N:f%d", j), n, missRate(r)))
		} else {
			c := genCat(r, fmt.Sprintf("C:f%d", j), n, cats(r), missRate(r))
			c.Rand = r.Intn(6) == 0
			t.Cols = append(t.Cols, c)
		}
	}
	return t
}

// genCases makes a list of cases out of n, sampled with replacement, without or all of them.
func genCases(r *rand.Rand, n int) []int {
	var cs []int
	switch r.Intn(4) {
	case 0:
		cs = r.Perm(n)
	case 1:
		cs = r.Perm(n)[:r.Intn(n+1)]
	default:
		k := r.Intn(2*n) + 1
		for i := 0; i < k; i++ {
			cs = append(cs, r.Intn(n))
		}
	}
	return cs
}

func bagOf(r *rand.Rand, n, k int) []int {
	cs := make([]int, k)
	for i := range cs {
		cs[i] = r.Intn(n)
	}
	return cs
}

func sorted(a []int) []int {
	b := append([]int{}, a...)
	sort.Ints(b)
	return b
}

func eqInts(a, b []int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func sameBag(a, b []int) bool { return eqInts(sorted(a), sorted(b)) }

// near compares floats with a tolerance relative to scale.
func near(a, b, scale float64) bool {
	if math.IsNaN(a) || math.IsNaN(b) {
		return math.IsNaN(a) && math.IsNaN(b)
	}
	if a == b {
		return true
	}
	return math.Abs(a-b) <= 1e-9*(1+math.Abs(scale))
}

// tableOf reads a feature matrix back into the harness' model through the features'
// exported data.
func colOf(f CF.Feature) *Col {
	switch x := f.(type) {
	case *CF.DenseNumFeature:
		return &Col{Name: x.Name, Num: true, V: append([]float64{}, x.NumData...), Miss: append([]bool{}, x.Missing...)}
	case *CF.DenseCatFeature:
		return &Col{Name: x.Name, K: append([]int{}, x.CatData...), Cats: append([]string{}, x.Back...), Miss: append([]bool{}, x.Missing...), Rand: x.RandomSearch}
	}
	return nil
}

// diffCols describes the first difference in what two columns say, or "".
func diffCols(a, b *Col) string {
	if a.Name != b.Name {
		return fmt.Sprintf("name %q became %q", a.Name, b.Name)
	}
	if a.Num != b.Num || len(a.Miss) != len(b.Miss) {
		return fmt.Sprintf("%v: type or length changed", a.Name)
	}
	for i := range a.Miss {
		if a.Miss[i] != b.Miss[i] {
			return fmt.Sprintf("%v: case %d missing %v became %v", a.Name, i, a.Miss[i], b.Miss[i])
		}
		if a.Miss[i] {
			continue
		}
		if a.Num {
			if math.Float64bits(a.V[i]) != math.Float64bits(b.V[i]) {
				return fmt.Sprintf("%v: case %d value %v became %v", a.Name, i, a.V[i], b.V[i])
			}
		} else if a.Label(i) != b.Label(i) {
			return fmt.Sprintf("%v: case %d label %q became %q", a.Name, i, a.Label(i), b.Label(i))
		}
	}
	return ""
}

func diffFM(t *Table, fm *CF.FeatureMatrix) string {
	if len(t.Cols) != len(fm.Data) {
		return fmt.Sprintf("%d features became %d", len(t.Cols), len(fm.Data))
	}
	for i, c := range t.Cols {
		if d := diffCols(c, colOf(fm.Data[i])); d != "" {
			return d
		}
		if fm.Map[c.Name] != i {
			return fmt.Sprintf("feature %v is looked up as %d instead of %d", c.Name, fm.Map[c.Name], i)
		}
	}
	for i, l := range t.Labels {
		if i >= len(fm.CaseLabels) || fm.CaseLabels[i] != l {
			return fmt.Sprintf("case label %d changed", i)
		}
	}
	return ""
}
