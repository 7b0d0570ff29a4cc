package main

import (
	"bytes"
	"fmt"
	"math"
	"math/rand"
	"path/filepath"
	"strconv"
	"strings"

	CF "github.com/ryanbressler/CloudForest"
)

// C15: arff and libsvm files.

func init() {
	register(&Check{Prop: "C15", Quick: 60000, Thorough: 1500000,
		Rule:        "a table is drawn from the seed and either rendered as arff or libsvm by the harness and parsed by the code, or written as arff or libsvm by the code and read by a parser of the harness and by the code; every 60th case goes through the converting tool; non trivial = at least two cases, distinct by the text",
		Assumptions: []string{"names and labels of arff files don't contain white space, quotes, commas, braces or begin with a percent sign, the first target of a libsvm file for regression has a decimal point"},
		Need:        []string{"arff parsed", "arff written", "libsvm parsed", "libsvm written", "imputed", "categories encoded", "runs of toafm", "chosen cases", "missing", "values"},
		Run:         c15})
}

// safeLabel draws names and labels every format can express.
func safeLabel(r *rand.Rand) string {
	parts := []string{"a", "b", "X1", "=", "::", "-", "_x", "é", ".5", "|", "(", "%", "#", ";", "@data", "N:", "/"}
	s := []string{"q", "c", "7", "-1", "+1", "T"}[r.Intn(6)]
	for k := r.Intn(4); k > 0; k-- {
		s += parts[r.Intn(len(parts))]
	}
	return s
}

func genSafeTable(r *rand.Rand, n, m int) *Table {
	t := &Table{}
	for i := 0; i < n; i++ {
		t.Labels = append(t.Labels, fmt.Sprint(i))
	}
	used := map[string]bool{}
	for j := 0; j < m; j++ {
		var c *Col
		name := fmt.Sprintf("f%d", j)
		if r.Intn(2) == 0 {
			c = genNum(r, "N:"+name, n, missRate(r))
			for i := range c.V {
				if r.Intn(4) == 0 {
					c.V[i] = oddFloat(r) / 16
				}
			}
		} else {
			c = genCat(r, []string{"C:", "B:"}[r.Intn(2)]+name, n, 1+r.Intn(6), missRate(r))
			if r.Intn(2) == 0 {
				labels := map[string]bool{}
				for k := range c.Cats {
					s := safeLabel(r)
					for labels[s] {
						s += "x"
					}
					labels[s] = true
					c.Cats[k] = s
				}
			}
		}
		switch r.Intn(3) {
		case 0:
			c.Name = safeLabel(r)
			for used[c.Name] {
				c.Name += "x"
			}
		case 1:
			c.Name = name
		}
		used[c.Name] = true
		canonical(c)
		t.Cols = append(t.Cols, c)
	}
	return t
}

func randCase(r *rand.Rand, s string) string {
	switch r.Intn(3) {
	case 0:
		return strings.ToUpper(s)
	case 1:
		return strings.Title(s)
	}
	return s
}

// arff renders the table in weka's format.
func arff(r *rand.Rand, t *Table) string {
	var b strings.Builder
	comment := func() {
		switch r.Intn(6) {
		case 0:
			b.WriteString("\n")
		case 1:
			b.WriteString("% a comment, with @attribute and @data\n")
		}
	}
	comment()
	fmt.Fprintf(&b, "%v name\n", "@"+randCase(r, "relation"))
	for _, c := range t.Cols {
		comment()
		kind := []string{"numeric", "real", "integer"}[r.Intn(3)]
		kind = randCase(r, kind)
		if !c.Num {
			kind = "{" + strings.Join(c.Cats, []string{",", ", "}[r.Intn(2)]) + "}"
			if r.Intn(4) == 0 {
				kind = "string"
			}
		}
		fmt.Fprintf(&b, "%v%v%v%v%v\n", "@"+randCase(r, "attribute"), []string{" ", "\t", "  "}[r.Intn(3)], c.Name, []string{" ", "\t", "  "}[r.Intn(3)], kind)
	}
	comment()
	fmt.Fprintf(&b, "%v\n", "@"+randCase(r, "data"))
	sep := ","
	if r.Intn(4) == 0 {
		sep = ", "
	}
	for i := range t.Labels {
		comment()
		for j, c := range t.Cols {
			if j > 0 {
				b.WriteString(sep)
			}
			switch {
			case c.Miss[i] && r.Intn(3) == 0:
				s := missTokens[r.Intn(len(missTokens))]
				if s == "" {
					s = "?"
				}
				b.WriteString(s)
			case c.Miss[i]:
				b.WriteString("?")
			case c.Num:
				b.WriteString(spelling(r, c.V[i]))
			default:
				b.WriteString(c.Label(i))
			}
		}
		b.WriteString("\n")
	}
	s := b.String()
	if r.Intn(5) == 0 && len(t.Labels) > 0 {
		s = strings.TrimRight(s, "\n")
	}
	if r.Intn(8) == 0 {
		s = strings.Replace(s, "\n", "\r\n", -1)
	}
	return s
}

// readArff is the harness' reader of written arff files.
func readArff(c *Ctx, text string, relation string) (attrs [][2]string, rows [][]string) {
	data := false
	for k, l := range strings.Split(strings.TrimRight(text, "\n"), "\n") {
		switch {
		case k == 0:
			if l != "@RELATION "+relation {
				c.Fail("arff", "first line %q", l)
			}
		case data:
			rows = append(rows, strings.Split(l, ","))
		case l == "":
		case strings.HasPrefix(l, "@ATTRIBUTE "):
			f := strings.SplitN(l, " ", 3)
			if len(f) != 3 {
				c.Fail("arff", "line %q", l)
			}
			attrs = append(attrs, [2]string{f[1], f[2]})
		case l == "@DATA":
			data = true
		default:
			c.Fail("arff", "line %q", l)
		}
	}
	return
}

// someCases draws a list of cases to write.
func someCases(r *rand.Rand, n int) []int {
	if r.Intn(2) == 0 {
		cs := make([]int, n)
		for i := range cs {
			cs[i] = i
		}
		return cs
	}
	return bagOf(r, n, 1+r.Intn(2*n))
}

func checkArff(c *Ctx, t *Table, cases []int, relation, text string) {
	attrs, rows := readArff(c, text, relation)
	if len(attrs) != len(t.Cols) || len(rows) != len(cases) {
		c.Fail("arff", "%d attributes and %d rows for %d features and %d cases:\n%v", len(attrs), len(rows), len(t.Cols), len(cases), text)
	}
	for j, col := range t.Cols {
		kind := "NUMERIC"
		if !col.Num {
			kind = "{" + strings.Join(col.Cats, ",") + "}"
		}
		if attrs[j] != [2]string{col.Name, kind} {
			c.Fail("arff", "attribute %q for %q of type %q", attrs[j], col.Name, kind)
		}
	}
	for k, i := range cases {
		if len(rows[k]) != len(t.Cols) {
			c.Fail("arff", "row %q", rows[k])
		}
		for j, col := range t.Cols {
			want := "?"
			if !col.Miss[i] {
				want = col.Str(i)
			}
			if rows[k][j] != want && !(!col.Miss[i] && col.shows(i, rows[k][j])) {
				c.Fail("arff", "%q instead of %q for %v of case %d", rows[k][j], want, col.Name, i)
			}
		}
	}
}

// coding is how a column may be coded as numbers for every case, in one of several ways.
type coding struct {
	names []string
	ways  [][][]float64
}

// imputedWays are the ways missing values of a column may be imputed.
func imputedWays(col *Col) []*Col {
	ks := known(col)
	if !col.hasMissing() || len(ks) == 0 {
		return []*Col{col}
	}
	fill := func(v float64, k int) *Col {
		d := col.clone()
		d.Imp = make([]bool, len(d.Miss))
		for i, m := range d.Miss {
			if m {
				d.Miss[i] = false
				d.Imp[i] = true
				if d.Num {
					d.V[i] = v
				} else {
					d.K[i] = k
				}
			}
		}
		return d
	}
	if col.Num {
		s := 0.0
		for _, i := range ks {
			s += col.V[i]
		}
		return []*Col{fill(s/float64(len(ks)), 0)}
	}
	counts := make([]int, len(col.Cats))
	best := 0
	for _, i := range ks {
		counts[col.K[i]]++
		if counts[col.K[i]] > best {
			best = counts[col.K[i]]
		}
	}
	var ways []*Col
	for k, n := range counts {
		if n == best {
			ways = append(ways, fill(0, k))
		}
	}
	return ways
}

// encode codes a column as the numbers documented: itself, one number for up to two
// categories or one per category.
func encode(col *Col) []*Col {
	if col.Num {
		return []*Col{col}
	}
	n := len(col.Miss)
	mk := func(name string) *Col {
		return &Col{Name: name, Num: true, V: make([]float64, n), Miss: append([]bool{}, col.Miss...)}
	}
	if len(col.Cats) <= 2 {
		d := mk(col.Name)
		for i := range d.V {
			if !d.Miss[i] {
				d.V[i] = float64(col.K[i])
			}
		}
		return []*Col{d}
	}
	var ds []*Col
	for k, s := range col.Cats {
		d := mk(col.Name + "==" + s)
		for i := range d.V {
			if !d.Miss[i] && col.K[i] == k {
				d.V[i] = 1
			}
		}
		ds = append(ds, d)
	}
	return ds
}

// checkLibsvm checks the text of a libsvm file written for the cases.
func checkLibsvm(c *Ctx, key string, t *Table, cases []int, target string, text string) {
	tc := t.Col(target)
	rows := strings.Split(strings.TrimSuffix(text, "\n"), "\n")
	if len(rows) != len(cases) {
		c.Fail(key, "%d lines for %d cases:\n%v", len(rows), len(cases), text)
	}
	type row map[int]float64
	var parsed []row
	for k, l := range rows {
		f := strings.Split(l, " ")
		i := cases[k]
		if !tc.Miss[i] {
			if tc.Num && !tc.shows(i, f[0]) || !tc.Num && f[0] != fmt.Sprint(tc.K[i]) {
				c.Fail(key, "target of case %d is %q instead of %v", i, f[0], tc.Str(i))
			}
		}
		m, last := row{}, 0
		for _, e := range f[1:] {
			p := strings.Split(e, ":")
			if len(p) != 2 {
				c.Fail(key, "entry %q in %q", e, l)
			}
			j, err := strconv.Atoi(p[0])
			x, err2 := strconv.ParseFloat(p[1], 64)
			if err != nil || err2 != nil || j <= last || math.IsNaN(x) {
				c.Fail(key, "entry %q in %q", e, l)
			}
			m[j], last = x, j
		}
		parsed = append(parsed, m)
	}
	next := 1
	for _, col := range t.Cols {
		if col == tc {
			continue
		}
		width, why := 0, ""
		for _, w := range imputedWays(col) {
			es := encode(w)
			width = len(es)
			why = ""
			scale := maxAbs(col.V)
			for k, i := range cases {
				for j, e := range es {
					x := e.V[i]
					if e.Miss[i] {
						x = 0
					}
					got := parsed[k][next+j]
					exact := col.Num && !col.Miss[i] && (col.Imp == nil || !col.Imp[i])
					if exact && got != x || !near(got, x, scale) {
						why = fmt.Sprintf("%v of case %d is %v instead of %v", e.Name, i, got, x)
					}
				}
			}
			if why == "" {
				break
			}
		}
		if why != "" {
			c.Fail(key, "%v in\n%v", why, text)
		}
		if width > 1 {
			c.Obs("categories encoded", width)
		}
		if col.hasMissing() {
			c.Obs("imputed", 1)
		}
		next += width
	}
	for k, m := range parsed {
		for j := range m {
			if j >= next {
				c.Fail(key, "entry %d of line %q, there are %d features", j, rows[k], next-1)
			}
		}
	}
}

// svm is a table as libsvm files hold it.
func genSvm(r *rand.Rand, n, m int) (*Table, string) {
	t := &Table{}
	reg := r.Intn(2) == 0
	tc := &Col{Name: "0", Num: reg, Miss: make([]bool, n)}
	if reg {
		tc.V = make([]float64, n)
	} else {
		tc.K = make([]int, n)
	}
	t.Cols = append(t.Cols, tc)
	labels := []string{"1", "-1", "+1", "0", "2", "c", "3.5", "1e3"}
	top := 0
	x := make([][]float64, n)
	miss := make([][]bool, n)
	var b strings.Builder
	for i := 0; i < n; i++ {
		t.Labels = append(t.Labels, fmt.Sprint(i))
		x[i] = make([]float64, m+1)
		miss[i] = make([]bool, m+1)
		if r.Intn(12) == 0 {
			b.WriteString([]string{"\n", " \n"}[r.Intn(2)])
		}
		if reg {
			v := oddFloat(r)
			tc.V[i] = v
			s := spelling(r, v)
			if i == 0 && !strings.Contains(s, ".") {
				tc.V[i] = 2.5
				s = "2.5"
			}
			b.WriteString(s)
		} else {
			l := labels[r.Intn(len(labels))]
			if i == 0 {
				l = labels[r.Intn(6)]
			}
			putLabel(tc, i, l)
			b.WriteString(l)
		}
		perm := r.Perm(m)
		if r.Intn(3) != 0 {
			perm = sorted(perm)
		}
		p := r.Float64()
		for _, j := range perm {
			j++
			if r.Float64() < p {
				continue
			}
			if j > top {
				top = j
			}
			v := oddFloat(r)
			s := spelling(r, v)
			if r.Intn(20) == 0 {
				s = []string{"NaN", "?", "NA"}[r.Intn(3)]
				miss[i][j] = true
			} else {
				x[i][j] = v
			}
			b.WriteString([]string{" ", "  ", "\t"}[r.Intn(3)] + fmt.Sprint(j) + ":" + s)
		}
		if r.Intn(6) == 0 {
			b.WriteString(" ")
		}
		b.WriteString("\n")
	}
	for j := 1; j <= top; j++ {
		c := &Col{Name: fmt.Sprint(j), Num: true, V: make([]float64, n), Miss: make([]bool, n)}
		for i := range c.V {
			c.V[i], c.Miss[i] = x[i][j], miss[i][j]
		}
		t.Cols = append(t.Cols, c)
	}
	s := b.String()
	if r.Intn(4) == 0 {
		s = strings.TrimSuffix(s, "\n")
	}
	if r.Intn(6) == 0 {
		s += "\n"
	}
	if r.Intn(8) == 0 {
		s = strings.Replace(s, "\n", "\r\n", -1)
	}
	return t, s
}

func c15(c *Ctx) {
	r := c.Rng
	n, m := 1+r.Intn(12), 1+r.Intn(6)
	switch {
	case c.large(4001):
		n, m = 1000+r.Intn(4000), 1+r.Intn(3)
	case c.large(4003):
		n, m = 1+r.Intn(3), 300+r.Intn(1500)
	}
	if c.Case%60 == 0 {
		c15tool(c)
		return
	}
	switch r.Intn(4) {
	case 0:
		t := genSafeTable(r, n, m)
		text := arff(r, t)
		c.Note("%v", text)
		c.Sig("%v", text)
		fm := CF.ParseARFF(strings.NewReader(text))
		if r.Intn(16) == 0 {
			fm = viaFile(c, text, "data.arff", false)
		}
		checkFM(c, "arff parsed", t, fm)
		c.Obs("arff parsed", 1)
		c.Sample("%.500s", text)
	case 1:
		t := genSafeTable(r, n, m)
		cases := someCases(r, n)
		fm := t.FM()
		var buf bytes.Buffer
		rel := safeLabel(r)
		if err := CF.WriteArffCases(fm, cases, rel, &buf); err != nil {
			c.Fail("arff", "%v", err)
		}
		c.Note("%v\n%v\n%v", t, cases, buf.String())
		c.Sig("%v", buf.String())
		checkFM(c, "arff changes", t, fm)
		checkArff(c, t, cases, rel, buf.String())
		u := t.pick(cases)
		for i := range u.Labels {
			u.Labels[i] = fmt.Sprint(i)
		}
		checkFM(c, "arff read back", u, CF.ParseARFF(&buf))
		c.Obs("arff written", 1)
		c.Obs("chosen cases", len(cases))
	case 2:
		if m < 100 {
			m = r.Intn(8)
		}
		t, text := genSvm(r, n, m)
		c.Note("%v", text)
		c.Sig("%v", text)
		fm := CF.ParseLibSVM(strings.NewReader(text))
		if r.Intn(16) == 0 {
			fm = viaFile(c, text, "data.libsvm", false)
		}
		checkFM(c, "libsvm parsed", t, fm)
		c.Obs("libsvm parsed", 1)
	default:
		t := genSafeTable(r, n, m+1)
		target := t.Cols[r.Intn(m+1)].Name
		fm := t.FM()
		var buf bytes.Buffer
		var err error
		cases := someCases(r, n)
		if r.Intn(2) == 0 {
			cases = make([]int, n)
			for i := range cases {
				cases[i] = i
			}
			err = CF.WriteLibSvm(fm, target, &buf)
		} else {
			err = CF.WriteLibSvmCases(fm, cases, target, &buf)
			c.Obs("chosen cases", len(cases))
		}
		if err != nil {
			c.Fail("libsvm", "%v", err)
		}
		c.Note("%v\n%v\ntarget %v\n%v", t, cases, target, buf.String())
		c.Sig("%v", buf.String())
		checkFM(c, "libsvm changes", t, fm)
		checkLibsvm(c, "libsvm", t, cases, target, buf.String())
		c.Obs("libsvm written", 1)
		if CF.WriteLibSvm(fm, target+"?", &buf) == nil || CF.WriteLibSvmCases(fm, cases, target+"?", &buf) == nil {
			c.Fail("libsvm", "no error without target")
		}
	}
}

// strip is what anonymizing a table with the target in front makes of it.
func (t *Table) strip(target string) *Table {
	o := t.clone()
	for i := range o.Labels {
		o.Labels[i] = fmt.Sprint(i)
	}
	for j, c := range o.Cols {
		if c.Name == target {
			o.Cols[0], o.Cols[j] = c, o.Cols[0]
			break
		}
	}
	for j, c := range o.Cols {
		c.Name = fmt.Sprintf("C:%d", j)
		if c.Num {
			c.Name = fmt.Sprintf("N:%d", j)
		}
		for k := range c.Cats {
			c.Cats[k] = fmt.Sprint(k)
		}
	}
	return o
}

// c15tool converts a file with toafm.
func c15tool(c *Ctx) {
	r := c.Rng
	n, m := 2+r.Intn(10), 2+r.Intn(5)
	switch {
	case c.large(4021):
		n = 1000 + r.Intn(4000)
	case c.large(4027):
		m = 300 + r.Intn(300)
	}
	var t *Table
	var text, name string
	switch r.Intn(3) {
	case 0:
		t = genSafeTable(r, n, m)
		text, name = arff(r, t), "in.arff"
	case 1:
		t, text = genSvm(r, n, m)
		name = "in.libsvm"
	default:
		t = genSafeTable(r, n, m)
		for _, col := range t.Cols {
			if !col.Num || strings.HasPrefix(col.Name, "N:") {
				continue
			}
			col.Name = "N:" + col.Name
		}
		for _, col := range t.Cols {
			if !col.Num && strings.HasPrefix(col.Name, "N:") {
				col.Name = "C:" + col.Name
			}
		}
		text, name = t.AFM(), "in.afm"
	}
	names := map[string]bool{}
	for _, col := range t.Cols {
		p := "C:"
		if col.Num {
			p = "N:"
		}
		if names[col.Name] || names[p+col.Name] {
			return
		}
		names[col.Name], names[p+col.Name] = true, true
	}
	dir, done := c.dir()
	defer done()
	write(filepath.Join(dir, name), text)
	args := []string{"-data", name, "-out", "out"}
	target := ""
	mode := r.Intn(3)
	if mode > 0 {
		target = t.Cols[r.Intn(len(t.Cols))].Name
	}
	if r.Intn(2) == 0 {
		var list, keep []string
		o := &Table{Labels: t.Labels}
		for _, col := range t.Cols {
			if r.Intn(3) == 0 && (col.Name == target || len(o.Cols)+1 < len(t.Cols) && len(keep)+1 < len(t.Cols)) {
				list = append(list, col.Name)
				if col.Name != target {
					keep = append(keep, col.Name)
					continue
				}
			}
			o.Cols = append(o.Cols, col)
		}
		if len(o.Cols) > 0 && len(list) > 0 {
			list = append(list, "not there")
			t = o
			write(filepath.Join(dir, "black"), strings.Join(list, "\n")+"\n")
			args = append(args, "-blacklist", "black")
		}
	}
	switch mode {
	case 1:
		args = append(args, "-libsvmtarget", target)
	case 2:
		args = append(args, "-anontarget", target)
	}
	c.Note("toafm %q\n%v", args, text)
	c.must(dir, "toafm", nil, args...)
	out := c.read(filepath.Join(dir, "out"))
	c.Note("%v", out)
	c.Sig("%v", out)
	switch mode {
	case 1:
		cases := make([]int, n)
		for i := range cases {
			cases[i] = i
		}
		checkLibsvm(c, "toafm libsvm", t, cases, target, out)
		return
	case 2:
		t = t.strip(target)
	default:
		for _, col := range t.Cols {
			if col.Num && !strings.HasPrefix(col.Name, "N:") {
				col.Name = "N:" + col.Name
			}
			if !col.Num && !strings.HasPrefix(col.Name, "C:") && !strings.HasPrefix(col.Name, "B:") {
				col.Name = "C:" + col.Name
			}
		}
	}
	checkFM(c, "toafm", t, CF.ParseAFM(strings.NewReader(out)))
}
