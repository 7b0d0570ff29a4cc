package main

import (
	"fmt"
	"math"
	"math/rand"
	"sort"
	"strings"

	CF "github.com/ryanbressler/CloudForest"
)

// C18: copies, shuffled copies, contrasts and imputed values.

func init() {
	register(&Check{Prop: "C18", Quick: 40000, Thorough: 1000000,
		Rule:        "a table is drawn from the seed and its features are copied, copied into others, shuffled as a whole or for chosen cases, contrasted and imputed, and changed after being copied; the data is compared with the harness' table after every step, and how often orders, cases and contrasts come up with their probability; non trivial = at least two cases that differ, distinct by the table",
		Assumptions: []string{"frequencies are only decided where a deviation has a probability below 1e-13"},
		Need:        []string{"copies", "copies into", "shuffled features", "shuffled cases", "contrasts", "all contrasted", "imputed numbers", "imputed labels", "features without values", "frequencies", "edits after copying"},
		Run:         c18})
}

// cells lists the values of a column as text, missing ones as NA.
func cells(col *Col) []string {
	s := make([]string, len(col.Miss))
	for i := range s {
		s[i] = "missing"
		switch {
		case col.Miss[i]:
		case col.Num:
			s[i] = fmt.Sprintf("%x", math.Float64bits(col.V[i]))
		default:
			s[i] = "=" + col.Label(i)
		}
	}
	return s
}

func sortedStrings(s []string) string {
	s = append([]string{}, s...)
	sort.Strings(s)
	return strings.Join(s, " ")
}

// checkShuffled checks that a feature holds the values of the column in another order.
func checkShuffled(c *Ctx, key string, col *Col, f CF.Feature) {
	g := colOf(f)
	if g.Num != col.Num || len(g.Miss) != len(col.Miss) || sortedStrings(cells(g)) != sortedStrings(cells(col)) {
		c.Fail(key, "%v became %v", col, g)
	}
	if f.MissingVals() != col.hasMissing() {
		c.Fail(key, "%v has missing values: %v", g, f.MissingVals())
	}
	for i := range g.Miss {
		if s := f.GetStr(i); s != g.Str(i) && !g.Miss[i] || f.IsMissing(i) != g.Miss[i] {
			c.Fail(key, "%v of case %d is %q", g, i, s)
		}
	}
}

// scribble changes a feature in every way there is.
func scribble(r *rand.Rand, f CF.Feature) {
	n := f.Length()
	for k := 0; k < 3; k++ {
		i := r.Intn(n)
		switch r.Intn(3) {
		case 0:
			f.PutMissing(i)
		case 1:
			f.PutStr(i, "12345.5")
		case 2:
			f.PutStr(i, fmt.Sprintf("-%d", r.Intn(100)))
		}
	}
	f.Append("77")
	f.Append("NA")
	switch x := f.(type) {
	case *CF.DenseNumFeature:
		x.Name = "N:other"
		for i := range x.NumData {
			x.Put(i, 99)
		}
	case *CF.DenseCatFeature:
		x.Name = "C:other"
		for i := range x.CatData {
			x.Puti(i, x.CatToNum("other"))
		}
		x.Back[0] = "changed"
	}
}

// usable checks that a feature still takes the values put into others.
func usable(c *Ctx, f CF.Feature) {
	for _, v := range []string{"77", "12345.5", "-5", "3"} {
		i := c.Rng.Intn(f.Length())
		f.PutStr(i, v)
		if f.IsMissing(i) || f.GetStr(i) != v {
			c.Fail("usable", "%v put into case %d of %v is %v", v, i, f.GetName(), f.GetStr(i))
		}
	}
}

func c18(c *Ctx) {
	r := c.Rng
	n, m := 1+r.Intn(12), 1+r.Intn(5)
	switch {
	case c.large(4001):
		n = 66000 + r.Intn(3000)
	case c.large(997):
		n, m = 20+r.Intn(300), 20+r.Intn(300)
	}
	t := genTable(r, n, m, smallCats)
	if r.Intn(10) == 0 { // nothing is known
		col := t.Cols[r.Intn(m)]
		for i := range col.Miss {
			col.Miss[i] = true
		}
		if !col.Num && r.Intn(2) == 0 {
			col.Cats = nil
		}
	}
	fm := t.FM()
	c.Note("%v", t)
	c.Sig("%v", t)
	j := r.Intn(m)
	col, f := t.Cols[j], fm.Data[j]
	switch r.Intn(7) {
	case 0:
		g := f.Copy()
		checkFeature(c, "copy", col, g)
		c.Obs("copies", 1)
		if r.Intn(2) == 0 {
			scribble(r, g)
			checkFeature(c, "original of a changed copy", col, f)
			usable(c, f)
		} else {
			scribble(r, f)
			checkFeature(c, "copy of a changed original", col, g)
			usable(c, g)
		}
		c.Obs("edits after copying", 1)
	case 1:
		// into a copy made before the values changed
		g := f.Copy()
		o := col.clone()
		for k := r.Intn(6); k > 0; k-- {
			i := r.Intn(n)
			if r.Intn(3) == 0 {
				f.PutMissing(i)
				o.Miss[i] = true
			} else if p := r.Intn(n); !col.Miss[p] {
				f.PutStr(i, col.Str(p))
				o.Miss[i] = false
				if o.Num {
					o.V[i] = col.V[p]
				} else {
					o.K[i] = col.K[p]
				}
			}
		}
		if f.MissingVals() && !o.hasMissing() {
			fixHas(f)
		}
		if r.Intn(2) == 0 {
			f.CopyInTo(g)
		} else {
			g, f = f, g
			o = col
			f.CopyInTo(g)
		}
		checkFeature(c, "copied into", o, g)
		checkFeature(c, "copied from", o, f)
		c.Obs("copies into", 1)
		if r.Intn(2) == 0 {
			f, g = g, f
		}
		switch x := f.(type) { // labels may be shared, values may not
		case *CF.DenseNumFeature:
			for i := range x.NumData {
				x.Put(i, 99)
			}
		case *CF.DenseCatFeature:
			for i := range x.CatData {
				x.CatData[i] = 0
				x.Missing[i] = !x.Missing[i]
			}
		}
		checkFeature(c, "copied into and changed", o, g)
		c.Obs("edits after copying", 1)
	case 2:
		var g CF.Feature
		if r.Intn(2) == 0 {
			g = f.ShuffledCopy()
			if d := diffCols(col, colOf(f)); d != "" {
				c.Fail("shuffled copy", "changes the original: %v", d)
			}
			if g.GetName() != col.Name+":SHUFFLED" {
				c.Fail("shuffled copy", "is named %q", g.GetName())
			}
			scribble(r, f)
		} else {
			g = f
			g.Shuffle()
			if g.GetName() != col.Name {
				c.Fail("shuffle", "renames to %q", g.GetName())
			}
		}
		checkShuffled(c, "shuffle", col, g)
		usable(c, g)
		c.Obs("shuffled features", 1)
	case 3:
		allocs := CF.NewBestSplitAllocs(n, fm.Data[r.Intn(m)].(CF.Target))
		cases := r.Perm(n)[:r.Intn(n+1)]
		before := append([]int{}, cases...)
		f.(CF.Target).(interface {
			ShuffleCases(*[]int, *CF.BestSplitAllocs)
		}).ShuffleCases(&cases, allocs)
		if !eqInts(cases, before) {
			c.Fail("shuffled cases", "cases %v became %v", before, cases)
		}
		g := colOf(f)
		in := map[int]bool{}
		for _, i := range cases {
			in[i] = true
		}
		a, b := cells(col), cells(g)
		for i := range a {
			if !in[i] && a[i] != b[i] {
				c.Fail("shuffled cases", "case %d changed shuffling %v: %v", i, cases, g)
			}
		}
		checkShuffled(c, "shuffled cases", col, f)
		c.Obs("shuffled cases", len(cases))
	case 4:
		k := r.Intn(6)
		want := 2 * m
		if r.Intn(2) == 0 {
			want = m + k
			fm.AddContrasts(k)
			c.Obs("contrasts", k)
		} else {
			fm.ContrastAll()
			c.Obs("all contrasted", 1)
			for j, col := range t.Cols {
				if fm.Data[m+j].GetName() != col.Name+":SHUFFLED" || fm.Map[col.Name+":SHUFFLED"] != m+j {
					c.Fail("contrast", "feature %d of all contrasts is %q", m+j, fm.Data[m+j].GetName())
				}
			}
		}
		if len(fm.Data) != want {
			c.Fail("contrast", "%d features instead of %d", len(fm.Data), want)
		}
		if len(fm.CaseLabels) != n {
			c.Fail("contrast", "%d case labels", len(fm.CaseLabels))
		}
		names := map[string]bool{}
		for p, g := range fm.Data {
			name := g.GetName()
			names[name] = true
			if p < m {
				if d := diffCols(t.Cols[p], colOf(g)); d != "" {
					c.Fail("contrast", "changes the original: %v", d)
				}
				checkFeature(c, "contrast", t.Cols[p], g)
				continue
			}
			orig := t.Col(strings.TrimSuffix(name, ":SHUFFLED"))
			if orig == nil || !strings.HasSuffix(name, ":SHUFFLED") {
				c.Fail("contrast", "named %q", name)
			}
			checkShuffled(c, "contrast", orig, g)
			if fm.Data[fm.Map[name]].GetName() != name {
				c.Fail("contrast", "%q is looked up as %q", name, fm.Data[fm.Map[name]].GetName())
			}
		}
		if len(fm.Map) != len(names) {
			c.Fail("contrast", "%d names for features %v", len(fm.Map), fm.Map)
		}
		// features don't share anything
		p := r.Intn(len(fm.Data))
		scribble(r, fm.Data[p])
		for q, g := range fm.Data {
			if q == p {
				continue
			}
			if q < m {
				checkFeature(c, "changed contrast", t.Cols[q], g)
			} else {
				checkShuffled(c, "changed contrast", t.Col(strings.TrimSuffix(g.GetName(), ":SHUFFLED")), g)
			}
			usable(c, g)
		}
	case 5:
		fm.ImputeMissing()
		for j, col := range t.Cols {
			g := colOf(fm.Data[j])
			if !col.hasMissing() {
				if d := diffCols(col, g); d != "" {
					c.Fail("impute", "%v", d)
				}
				continue
			}
			if len(known(col)) == 0 {
				c.Obs("features without values", 1)
				checkFeature(c, "impute", col, fm.Data[j])
				continue
			}
			if col.Num {
				c.Obs("imputed numbers", 1)
			} else {
				c.Obs("imputed labels", 1)
			}
			why := ""
			for _, w := range imputedWays(col) {
				why = ""
				for i := range w.Miss {
					switch {
					case g.Miss[i]:
						why = fmt.Sprintf("case %d is still missing", i)
					case col.Num && col.Miss[i] && !near(g.V[i], w.V[i], maxAbs(col.V)), col.Num && !col.Miss[i] && g.V[i] != w.V[i]:
						why = fmt.Sprintf("case %d is %v instead of %v", i, g.V[i], w.V[i])
					case !col.Num && g.Label(i) != w.Label(i):
						why = fmt.Sprintf("case %d is %v instead of %v", i, g.Label(i), w.Label(i))
					}
				}
				if why == "" {
					break
				}
			}
			if why != "" {
				c.Fail("impute", "%v: %v", why, g)
			}
			checkFeature(c, "imputed", g, fm.Data[j])
			if g.Name != col.Name {
				c.Fail("impute", "%q renamed to %q", col.Name, g.Name)
			}
		}
	default:
		shuffles(c)
	}
	c.Sample("%v", t)
}

// shuffles compares how often values end up where and features get contrasted with their
// probabilities.
func shuffles(c *Ctx) {
	r := c.Rng
	n := 2 + r.Intn(3)
	col := &Col{Name: "N:a", Num: true}
	if r.Intn(2) == 0 {
		col = &Col{Name: "C:a"}
	}
	for i := 0; i < n; i++ {
		col.V = append(col.V, float64(i))
		col.K = append(col.K, i)
		col.Cats = append(col.Cats, fmt.Sprint(i))
		col.Miss = append(col.Miss, i == 1 && r.Intn(2) == 0)
	}
	a := cells(col)
	f := col.Feature()
	allocs := CF.NewBestSplitAllocs(n, f.(CF.Target))
	way := r.Intn(4)
	tries := 1200
	if r.Intn(10) == 0 { // finds smaller deviations
		tries = 60000
	}
	perms := map[string]int{}
	fact := []int{1, 1, 2, 6, 24}[n]
	for k := 0; k < tries; k++ {
		g := f.Copy()
		switch way {
		case 0:
			g.Shuffle()
		case 1:
			g = f.ShuffledCopy()
		case 2:
			cases := r.Perm(n)
			g.(interface {
				ShuffleCases(*[]int, *CF.BestSplitAllocs)
			}).ShuffleCases(&cases, allocs)
		case 3:
			o := &CF.FeatureMatrix{Data: []CF.Feature{f.Copy(), f.Copy()}, Map: map[string]int{}}
			o.AddContrasts(1)
			g = o.Data[2]
		}
		perms[strings.Join(cells(colOf(g)), " ")]++
	}
	for p, k := range perms {
		if unlikely(k, tries, 1/float64(fact)) {
			c.Fail("uniform", "way %d orders %v as %v %d times of %d, there are %d orders", way, a, p, k, tries, fact)
		}
	}
	if unlikely(tries, tries, float64(len(perms))/float64(fact)) {
		c.Fail("uniform", "way %d makes %d of %d orders of %v in %d tries", way, len(perms), fact, a, tries)
	}
	c.Obs("frequencies", len(perms))
	// features are contrasted with the same probability
	m := 2 + r.Intn(4)
	t := genTable(r, 2, m, smallCats)
	fm := t.FM()
	fm.AddContrasts(1500)
	counts := map[string]int{}
	for _, g := range fm.Data[m:] {
		counts[g.GetName()]++
	}
	for _, o := range t.Cols {
		c.Obs("frequencies", 1)
		if k := counts[o.Name+":SHUFFLED"]; unlikely(k, 1500, 1/float64(m)) {
			c.Fail("uniform", "%v of %d features is contrasted %d times of 1500", o.Name, m, k)
		}
	}
}
