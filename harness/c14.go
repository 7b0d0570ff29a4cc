package main

import (
	"archive/zip"
	"bytes"
	"fmt"
	"math"
	"math/rand"
	"os"
	"path/filepath"
	"strconv"
	"strings"

	CF "github.com/ryanbressler/CloudForest"
)

// C14: annotated feature matrices.

func init() {
	register(&Check{Prop: "C14", Quick: 100000, Thorough: 2000000,
		Rule:        "a table with odd names, labels, values and spellings of missing values is drawn from the seed, rendered by the harness with features in rows or in columns, as text or in a zip file, parsed by the code, edited value by value, written as chosen cases and parsed again, and compared with the harness' table; non trivial = at least two cases, distinct by the table and its spelling",
		Assumptions: []string{"fields don't contain tabs, quotes or line breaks, case labels of matrices with features in rows don't start with a type prefix"},
		Need:        []string{"features in rows", "features in columns", "zipped", "missing", "values", "edits", "cases written", "loaded from files"},
		Run:         c14})
}

var missTokens = []string{"", "NA", "na", "Na", "nA", "?", "NaN", "nan", "NAN", "null", "NULL", "Null"}

// spelling is a way to write a value so that it parses as exactly that value.
func spelling(r *rand.Rand, x float64) string {
	if math.IsInf(x, 1) {
		return []string{"Inf", "+Inf", "inf", "INF", "Infinity", "+infinity"}[r.Intn(6)]
	}
	if math.IsInf(x, -1) {
		return []string{"-Inf", "-inf", "-INF", "-Infinity"}[r.Intn(4)]
	}
	switch r.Intn(6) {
	case 0:
		return strconv.FormatFloat(x, 'e', -1, 64)
	case 1:
		if math.Abs(x) < 1e15 {
			return strconv.FormatFloat(x, 'f', -1, 64)
		}
	case 2:
		if x >= 0 {
			return "+" + strconv.FormatFloat(x, 'g', -1, 64)
		}
	case 3:
		return strings.ToUpper(strconv.FormatFloat(x, 'e', 17, 64))
	case 4:
		if x == math.Floor(x) && math.Abs(x) < 1e6 {
			return fmt.Sprintf("%d.%s", int(x), strings.Repeat("0", r.Intn(3)))
		}
	}
	return fmt.Sprintf("%v", x)
}

// notNumbers are missing values of numerical features only.
var notNumbers = []string{"abc", "1.2.3", "1,5", "--1", "1e", "12 ", " 12", "N/A", "NaN()", "1e999", "-", "."}

// genAFMTable draws a table as files carry it and a spelling for all of its values.
func genAFMTable(r *rand.Rand, n, m int) (*Table, [][]string) {
	t := &Table{}
	used := map[string]bool{}
	for i := 0; i < n; i++ {
		l := fmt.Sprintf("case%d", i)
		switch r.Intn(4) {
		case 0:
			l = strings.Replace(oddName(r), ":", ".", -1) + fmt.Sprint(i)
		case 1:
			l = fmt.Sprint(i)
		case 2: // the spaces are part of the label
			if r.Intn(4) == 0 {
				l = []string{" " + l, l + " ", "  " + l + " "}[r.Intn(3)]
			}
		}
		t.Labels = append(t.Labels, l)
	}
	var sp [][]string
	for j := 0; j < m; j++ {
		var c *Col
		if r.Intn(2) == 0 {
			c = genNum(r, fmt.Sprintf("N:f%d", j), n, missRate(r))
			for i := range c.V {
				switch r.Intn(9) {
				case 0, 1, 2:
					c.V[i] = oddFloat(r)
				case 3:
					if r.Intn(4) == 0 {
						c.V[i] = math.Inf(r.Intn(2)*2 - 1)
					}
				}
			}
		} else {
			c = genCat(r, []string{"C:", "B:"}[r.Intn(2)]+fmt.Sprintf("f%d", j), n, 1+r.Intn(8), missRate(r))
			if r.Intn(2) == 0 {
				labels := map[string]bool{}
				for k := range c.Cats {
					s := oddLabel(r)
					switch r.Intn(12) {
					case 0: // the spaces are part of the label
						s = " " + s
					case 1:
						s += " "
					case 2:
						s = []string{"NAN1", "nulls", "N A", "??", "n/a", "none", "None", "nil", "-", "."}[r.Intn(10)]
					}
					for labels[s] || isMissToken(s) {
						s += "'"
					}
					labels[s] = true
					c.Cats[k] = s
				}
			}
		}
		if r.Intn(3) == 0 {
			p := c.Name[:2]
			c.Name = p + oddName(r)
			if r.Intn(6) == 0 {
				c.Name = p
			}
			if !c.Num && r.Intn(3) == 0 { // other types are categorical
				c.Name = []string{"x", "y1", "n:", "X:", "Nn", "T"}[r.Intn(6)] + fmt.Sprint(j)[:r.Intn(2)]
			}
		}
		for used[c.Name] {
			c.Name += "'"
		}
		used[c.Name] = true
		canonical(c)
		s := make([]string, n)
		for i := range s {
			switch {
			case c.Miss[i] && c.Num && r.Intn(4) == 0:
				s[i] = notNumbers[r.Intn(len(notNumbers))]
			case c.Miss[i]:
				s[i] = missTokens[r.Intn(len(missTokens))]
			case c.Num:
				s[i] = spelling(r, c.V[i])
			default:
				s[i] = c.Label(i)
			}
		}
		t.Cols = append(t.Cols, c)
		sp = append(sp, s)
	}
	return t, sp
}

func isMissToken(s string) bool {
	for _, m := range missTokens {
		if s == m {
			return true
		}
	}
	return false
}

// render writes a table with features in rows or columns.
func render(t *Table, sp [][]string, cols bool, corner string) string {
	var b strings.Builder
	b.WriteString(corner)
	if cols {
		for _, c := range t.Cols {
			b.WriteString("\t" + c.Name)
		}
		b.WriteString("\n")
		for i, l := range t.Labels {
			b.WriteString(l)
			for j := range t.Cols {
				b.WriteString("\t" + sp[j][i])
			}
			b.WriteString("\n")
		}
		return b.String()
	}
	for _, l := range t.Labels {
		b.WriteString("\t" + l)
	}
	b.WriteString("\n")
	for j, c := range t.Cols {
		b.WriteString(c.Name)
		for i := range t.Labels {
			b.WriteString("\t" + sp[j][i])
		}
		b.WriteString("\n")
	}
	return b.String()
}

// checkFM compares a parsed matrix with the table through the features' methods.
func checkFM(c *Ctx, key string, t *Table, fm *CF.FeatureMatrix) {
	if fm == nil {
		c.Fail(key, "no feature matrix")
	}
	if d := diffFM(t, fm); d != "" {
		c.Fail(key, "%v", d)
	}
	if len(fm.CaseLabels) != len(t.Labels) || len(fm.Map) != len(t.Cols) {
		c.Fail(key, "%d case labels and %d names instead of %d and %d", len(fm.CaseLabels), len(fm.Map), len(t.Labels), len(t.Cols))
	}
	for j, col := range t.Cols {
		checkFeature(c, key, col, fm.Data[j])
	}
}

// checkFeature compares what the methods of a feature say with the column.
func checkFeature(c *Ctx, key string, col *Col, f CF.Feature) {
	if f.Length() != len(col.Miss) || f.GetName() != col.Name {
		c.Fail(key, "%q of length %d instead of %q of length %d", f.GetName(), f.Length(), col.Name, len(col.Miss))
	}
	if f.MissingVals() != col.hasMissing() {
		c.Fail(key, "%v has missing values: %v instead of %v", col.Name, f.MissingVals(), col.hasMissing())
	}
	ncats := 0
	if !col.Num {
		ncats = len(col.Cats)
	}
	if f.NCats() != ncats {
		c.Fail(key, "%v has %d categories instead of %d", col.Name, f.NCats(), ncats)
	}
	for i := range col.Miss {
		want := "NA"
		if !col.Miss[i] {
			want = col.Str(i)
		}
		if got := f.GetStr(i); got != want || f.IsMissing(i) != col.Miss[i] {
			c.Fail(key, "%v of case %d is %q (missing %v) instead of %q (missing %v)", col.Name, i, got, f.IsMissing(i), want, col.Miss[i])
		}
		if col.Miss[i] {
			c.Obs("missing", 1)
			continue
		}
		c.Obs("values", 1)
		switch x := f.(type) {
		case CF.NumFeature:
			if math.Float64bits(x.Get(i)) != math.Float64bits(col.V[i]) {
				c.Fail(key, "%v of case %d is %v instead of %v", col.Name, i, x.Get(i), col.V[i])
			}
		case CF.CatFeature:
			if l := x.NumToCat(x.Geti(i)); l != col.Label(i) {
				c.Fail(key, "%v of case %d is number %d, %q, instead of %q", col.Name, i, x.Geti(i), l, col.Label(i))
			}
		}
	}
	if x, ok := f.(CF.CatFeature); ok && !col.Num {
		for k, s := range col.Cats {
			if x.NumToCat(k) != s || x.CatToNum(s) != k {
				c.Fail(key, "%v: category %d is %q, %q is %d", col.Name, k, x.NumToCat(k), s, x.CatToNum(s))
			}
		}
		if x.NCats() != len(col.Cats) {
			c.Fail(key, "%v: looking up categories adds some", col.Name)
		}
	}
}

func c14(c *Ctx) {
	r := c.Rng
	n, m := 1+r.Intn(12), 1+r.Intn(6)
	switch {
	case c.large(9973):
		n, m = 2000+r.Intn(12000), 1+r.Intn(3)
	case c.large(9967):
		n, m = 1+r.Intn(3), 500+r.Intn(1500)
	case c.large(29989):
		n, m = 66000+r.Intn(3000), 1
	}
	t, sp := genAFMTable(r, n, m)
	cols := r.Intn(2) == 0
	if cols {
		first := t.Cols[0].Name
		if len(first) < 2 || !strings.Contains("N:C:B:", first[:2]) {
			t.Cols[0].Name = "C:" + first
			for _, o := range t.Cols[1:] {
				if o.Name == t.Cols[0].Name {
					return
				}
			}
		}
		c.Obs("features in columns", 1)
	} else {
		c.Obs("features in rows", 1)
	}
	text := render(t, sp, cols, []string{".", "", "id", "N:", "x y"}[r.Intn(5)])
	if r.Intn(5) == 0 {
		text = strings.TrimSuffix(text, "\n")
	}
	if r.Intn(8) == 0 {
		text = strings.Replace(text, "\n", "\r\n", -1)
	}
	if strings.HasPrefix(text, "\n") || strings.HasPrefix(text, "\r") {
		return // there is no header
	}
	c.Note("parsed:\n%v", text)
	var fm *CF.FeatureMatrix
	switch {
	case r.Intn(16) == 0:
		fm = viaFile(c, text, "data.afm", r.Intn(2) == 0)
	default:
		fm = CF.ParseAFM(strings.NewReader(text))
	}
	checkFM(c, "parsed", t, fm)
	c.Sig("%v", text)

	// features parsed on their own
	j := r.Intn(m)
	f := CF.ParseFeature(append([]string{t.Cols[j].Name}, sp[j]...))
	checkFeature(c, "feature", t.Cols[j], f)

	// edits
	for k := r.Intn(8); k > 0; k-- {
		j, i := r.Intn(m), r.Intn(n)
		col := t.Cols[j]
		switch r.Intn(4) {
		case 0:
			fm.Data[j].PutMissing(i)
			col.Miss[i] = true
		case 1:
			tok := missTokens[r.Intn(len(missTokens))]
			fm.Data[j].PutStr(i, tok)
			col.Miss[i] = true
		case 2:
			if col.Num {
				x := oddFloat(r)
				fm.Data[j].PutStr(i, spelling(r, x))
				col.V[i], col.Miss[i] = x, false
				break
			}
			s := oddLabel(r)
			if r.Intn(2) == 0 && len(col.Cats) > 0 {
				s = col.Cats[r.Intn(len(col.Cats))]
			}
			if isMissToken(s) {
				break
			}
			fm.Data[j].PutStr(i, s)
			putLabel(col, i, s)
		case 3:
			if col.Num {
				x := oddFloat(r)
				fm.Data[j].(CF.NumFeature).Put(i, x)
				col.V[i], col.Miss[i] = x, false
			} else if len(col.Cats) > 0 {
				k := r.Intn(len(col.Cats))
				fm.Data[j].(CF.CatFeature).Puti(i, k)
				col.K[i], col.Miss[i] = k, false
			}
		}
		c.Obs("edits", 1)
	}
	// whether values are missing isn't tracked back when they are put
	for j, col := range t.Cols {
		if !col.hasMissing() && fm.Data[j].MissingVals() {
			fixHas(fm.Data[j])
		}
	}
	checkFM(c, "edited", t, fm)

	// adding a case
	if r.Intn(4) == 0 {
		j := r.Intn(m)
		col := t.Cols[j].clone()
		g := fm.Data[j].Copy()
		s := "7.25"
		if r.Intn(3) == 0 {
			s = missTokens[r.Intn(len(missTokens))]
		}
		g.Append(s)
		col.V = append(col.V, 7.25)
		col.K = append(col.K, 0)
		col.Miss = append(col.Miss, s != "7.25")
		if s == "7.25" && !col.Num {
			putLabel(col, len(col.Miss)-1, s)
		}
		checkFeature(c, "appended", col, g)
	}

	// chosen cases
	var cases []int
	for k := r.Intn(2*n) + 1; k > 0; k-- {
		cases = append(cases, r.Intn(n))
	}
	var buf bytes.Buffer
	if err := fm.WriteCases(&buf, cases); err != nil {
		c.Fail("write", "%v", err)
	}
	c.Obs("cases written", len(cases))
	checkFM(c, "written from", t, fm)
	u := t.pick(cases)
	rows := strings.Split(strings.TrimSuffix(buf.String(), "\n"), "\n")
	if len(rows) != m+1 {
		c.Fail("write", "%d lines for %d features:\n%v", len(rows), m, buf.String())
	}
	for j, row := range rows {
		fs := strings.Split(row, "\t")
		if len(fs) != len(cases)+1 || j == 0 && fs[0] != "." || j > 0 && fs[0] != t.Cols[j-1].Name {
			c.Fail("write", "line %d is %q", j, row)
		}
		for k, i := range cases {
			want := t.Labels[i]
			if j > 0 {
				want = t.Cols[j-1].Str(i)
			}
			if fs[k+1] != want {
				c.Fail("write", "%q instead of %q in column %d of %q", fs[k+1], want, k+1, row)
			}
		}
	}
	for _, l := range u.Labels {
		if len(l) > 1 && strings.Contains("N:C:B:", l[:2]) {
			return
		}
	}
	checkFM(c, "written", u, CF.ParseAFM(&buf))
	c.Sample("%.500s", text)
}

// fixHas resets the mark of a feature whose missing values were all replaced.
func fixHas(f CF.Feature) {
	switch x := f.(type) {
	case *CF.DenseNumFeature:
		x.HasMissing = false
	case *CF.DenseCatFeature:
		x.HasMissing = false
	}
}

func putLabel(col *Col, i int, s string) {
	col.Miss[i] = false
	for k, l := range col.Cats {
		if l == s {
			col.K[i] = k
			return
		}
	}
	col.K[i] = len(col.Cats)
	col.Cats = append(col.Cats, s)
}

// pick makes a table of the cases.
func (t *Table) pick(cases []int) *Table {
	o := &Table{}
	for _, i := range cases {
		o.Labels = append(o.Labels, t.Labels[i])
	}
	for _, c := range t.Cols {
		d := &Col{Name: c.Name, Num: c.Num, Cats: append([]string{}, c.Cats...)}
		for _, i := range cases {
			if c.Num {
				d.V = append(d.V, c.V[i])
			} else {
				d.K = append(d.K, c.K[i])
			}
			d.Miss = append(d.Miss, c.Miss[i])
		}
		canonical(d)
		o.Cols = append(o.Cols, d)
	}
	return o
}

// viaFile parses the text from a file, zipped or not.
func viaFile(c *Ctx, text, name string, zipped bool) *CF.FeatureMatrix {
	dir, done := c.dir()
	defer done()
	path := filepath.Join(dir, name)
	if zipped {
		path += ".zip"
		f, err := os.Create(path)
		if err != nil {
			panic(err)
		}
		z := zip.NewWriter(f)
		w, err := z.Create(name)
		if err != nil {
			panic(err)
		}
		w.Write([]byte(text))
		z.Close()
		f.Close()
		c.Obs("zipped", 1)
	} else {
		write(path, text)
	}
	c.Obs("loaded from files", 1)
	fm, err := CF.LoadAFM(path)
	if err != nil {
		c.Fail("load", "%v", err)
	}
	return fm
}
