package main

import (
	"fmt"
	"math/rand"

	CF "github.com/ryanbressler/CloudForest"
)

// C29: encoding features and anonymizing tables.

func init() {
	register(&Check{Prop: "C29", Quick: 80000, Thorough: 2000000,
		Rule: "a table with odd names and labels is drawn from the seed, encoded as numbers, one hot, and anonymized, feature by feature and as a whole; results are compared with those the harness makes of its own table and the original has to be as it was unless it is what gets anonymized; non trivial = a feature has two or more categories, distinct by the table",
		Need: []string{"encoded as numbers", "one hot", "anonymized", "features encoded alone", "missing", "values", "changed after encoding"},
		Run:  c29})
}

func c29(c *Ctx) {
	r := c.Rng
	n, m := 1+r.Intn(10), 1+r.Intn(6)
	switch {
	case c.large(4001):
		n = 500 + r.Intn(2000)
	case c.large(4003):
		m = 300 + r.Intn(300)
	}
	t := genFileTable(r, n, m)
	if c.large(1009) { // many categories
		n = 600 + r.Intn(1000)
		k := 300 + r.Intn(700)
		t = genFileTable(r, n, m)
		x := genCat(r, "C:many", n, k, missRate(r))
		t.Cols = append(t.Cols, x)
		m++
		r.Shuffle(m, func(i, j int) { t.Cols[i], t.Cols[j] = t.Cols[j], t.Cols[i] })
	}
	fm := t.FM()
	c.Note("%v", t)
	for _, col := range t.Cols {
		if len(col.Cats) > 1 {
			c.Sig("%v", t)
			break
		}
	}
	c.Sample("%v", t)
	check := func(key string, want []*Col, got []CF.Feature) {
		if len(want) != len(got) {
			c.Fail(key, "%d features instead of %d", len(got), len(want))
		}
		for j, col := range want {
			checkFeature(c, key, col, got[j])
		}
	}
	names := func(key string, o *CF.FeatureMatrix) {
		used := map[string]int{}
		for _, f := range o.Data {
			used[f.GetName()]++
		}
		for j, f := range o.Data {
			name := f.GetName()
			if used[name] == 1 && o.Map[name] != j {
				c.Fail(key, "%q is looked up as feature %d instead of %d", name, o.Map[name], j)
			}
		}
		if len(o.Map) != len(used) {
			c.Fail(key, "%d names for %d features", len(o.Map), len(used))
		}
	}
	all := func(f func(*Col) []*Col) *Table {
		o := &Table{Labels: t.Labels}
		for _, col := range t.Cols {
			o.Cols = append(o.Cols, f(col)...)
		}
		return o
	}
	switch r.Intn(5) {
	case 0:
		o := fm.EncodeToNum()
		check("encode", all(encode).Cols, o.Data)
		names("encode", o)
		checkFM(c, "encode changes", t, fm)
		c.Obs("encoded as numbers", len(o.Data))
		after(c, r, t, fm, o)
	case 1:
		o := fm.OneHot()
		check("one hot", all(oneHot).Cols, o.Data)
		names("one hot", o)
		checkFM(c, "one hot changes", t, fm)
		c.Obs("one hot", len(o.Data))
		after(c, r, t, fm, o)
	case 2:
		for j, col := range t.Cols {
			f, ok := fm.Data[j].(CF.CatFeature)
			if !ok {
				continue
			}
			check("encode alone", encode(col), f.EncodeToNum())
			if len(col.Cats) > 2 {
				check("one hot alone", oneHot(col), f.OneHot())
			}
			checkFeature(c, "encoding alone changes", col, f)
			c.Obs("features encoded alone", 1)
		}
	default:
		target := t.Cols[r.Intn(m)].Name
		if r.Intn(8) == 0 {
			target = "not there"
		}
		cases := caseLabels(n)
		for i := range cases {
			if r.Intn(2) == 0 {
				t.Labels[i] = fmt.Sprint(r.Intn(20))
			}
		}
		fm = t.FM()
		fm.StripStrings(target)
		checkFM(c, "anonymize", t.strip(target), fm)
		c.Obs("anonymized", 1)
		// again is the same
		fm.StripStrings("C:0")
		fm.StripStrings("N:0")
		checkFM(c, "anonymize again", t.strip(target), fm)
	}
}

// after changes the encoded features of categorical ones: the original stays as it was.
func after(c *Ctx, r *rand.Rand, t *Table, fm *CF.FeatureMatrix, o *CF.FeatureMatrix) {
	orig := map[CF.Feature]bool{}
	for _, f := range fm.Data {
		orig[f] = true
	}
	// each of the new features has its own values
	text := func(f CF.Feature) string {
		v := ""
		for i := 0; i < f.Length(); i++ {
			v += f.GetStr(i) + "\t"
		}
		return v
	}
	small := len(o.Data)*o.Data[0].Length() < 2000
	for k, f := range o.Data {
		if !orig[f] {
			next := (k + 1) % len(o.Data)
			prev := (k + len(o.Data) - 1) % len(o.Data)
			was := [2]string{}
			if small {
				was = [2]string{text(o.Data[next]), text(o.Data[prev])}
			}
			if r.Intn(3) == 0 {
				f.ImputeMissing()
			}
			scribble(r, f)
			c.Obs("changed after encoding", 1)
			if small && next != k && prev != k {
				if now := [2]string{text(o.Data[next]), text(o.Data[prev])}; now != was {
					c.Fail("shared", "changing the encoded feature %v changes others", f.GetName())
				}
			}
		}
	}
	kept := map[CF.Feature]bool{}
	for _, f := range o.Data {
		kept[f] = true
	}
	for j, col := range t.Cols {
		if !kept[fm.Data[j]] {
			checkFeature(c, "changed after encoding", col, fm.Data[j])
		}
	}
	if len(fm.CaseLabels) != len(o.CaseLabels) {
		c.Fail("labels", "%d case labels became %d", len(fm.CaseLabels), len(o.CaseLabels))
	}
	for i, l := range t.Labels {
		if o.CaseLabels[i] != l {
			c.Fail("labels", "case %d is %q instead of %q", i, o.CaseLabels[i], l)
		}
	}
}
