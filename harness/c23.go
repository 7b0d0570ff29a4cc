package main

import (
	"fmt"
	"io/ioutil"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

// C23: folds for cross validation.

func init() {
	register(&Check{Prop: "C23", Quick: 5000, Thorough: 40000,
		Rule:        "a table with a number for every case, options (formats, stratification, folds, imputing, encoding, limits on categories, excluded features) are drawn from the seed and given to nfold; the cases in every file written are identified and the files compared with the table; every 100th case runs nfold often and compares how often cases end up in folds with the probability; non trivial = folds aren't empty, distinct by the folds written",
		Assumptions: []string{"the most common label of imputed features is unique, names and labels are ones all formats can express"},
		Need:        []string{"runs of nfold", "folds", "stratified", "unstratified", "afm files", "arff files", "libsvm files", "imputed", "one hot", "encoded as numbers", "excluded features", "limited categories", "frequencies", "missing targets", "targets not in the data"},
		Run:         c23})
}

// oneHot is what one hot encoding makes of a column.
func oneHot(col *Col) []*Col {
	if col.Num || len(col.Cats) <= 2 {
		return []*Col{col}
	}
	var ds []*Col
	for k, s := range col.Cats {
		d := &Col{Name: col.Name + "==" + s, K: make([]int, len(col.Miss)), Cats: []string{"false", "true"}, Miss: append([]bool{}, col.Miss...), Rand: col.Rand}
		for i := range d.K {
			if !d.Miss[i] && col.K[i] == k {
				d.K[i] = 1
			}
		}
		ds = append(ds, d)
	}
	return ds
}

// idsOf reads which cases a file holds, by the number of the case in the first feature.
func (c *Ctx) idsOf(text, format string, libsvm int) (ids []int) {
	var vals []string
	switch format {
	case "":
		ls := lines(text)
		if len(ls) < 2 {
			c.Fail("file", "too short: %q", text)
		}
		for _, l := range ls[1:] {
			f := strings.Split(l, "\t")
			if f[0] == "N:id" {
				vals = f[1:]
			}
		}
	case ".arff":
		data := false
		for _, l := range lines(text) {
			if data {
				vals = append(vals, strings.Split(l, ",")[0])
			}
			data = data || l == "@DATA"
		}
	case ".libsvm":
		for _, l := range lines(text) {
			v := ""
			for _, e := range strings.Split(l, " ")[1:] {
				if strings.HasPrefix(e, "1:") {
					v = e[2:]
				}
			}
			vals = append(vals, v)
		}
	}
	for _, v := range vals {
		x, err := strconv.ParseFloat(v, 64)
		if err != nil {
			c.Fail("file", "number %q of a case in\n%v", v, text)
		}
		ids = append(ids, int(x)-1)
	}
	return
}

func genFoldTable(c *Ctx) (*Table, int) {
	r := c.Rng
	n := 2 + r.Intn(40)
	m := 1 + r.Intn(5)
	switch {
	case c.large(397):
		n = 1000 + r.Intn(3000)
	case c.large(401):
		m = 300 + r.Intn(300)
	}
	t := genSafeTable(r, n, m)
	id := &Col{Name: "N:id", Num: true, Miss: make([]bool, n)}
	for i := 0; i < n; i++ {
		id.V = append(id.V, float64(i+1))
		if r.Intn(2) == 0 {
			t.Labels[i] = "case" + t.Labels[i]
		}
	}
	for _, col := range t.Cols {
		p := col.Name[:1]
		if col.Num && !strings.HasPrefix(col.Name, "N:") {
			col.Name = "N:" + col.Name
		} else if !col.Num && strings.HasPrefix(col.Name, "N:") {
			col.Name = "C:" + col.Name
		}
		_ = p
	}
	used := map[string]bool{"N:id": true}
	for _, col := range t.Cols {
		for used[col.Name] {
			col.Name += "y"
		}
		used[col.Name] = true
	}
	t.Cols = append([]*Col{id}, t.Cols...)
	return t, 1 + r.Intn(len(t.Cols)-1)
}

func c23(c *Ctx) {
	r := c.Rng
	if c.Case%100 == 7 {
		c23often(c)
		return
	}
	t, ti := genFoldTable(c)
	n := t.N()
	target := t.Cols[ti].Name
	folds := 1 + r.Intn(6)
	dir, done := c.dir()
	defer done()
	write(filepath.Join(dir, "data.afm"), t.AFM())
	args := []string{"-fm", "data.afm", "-target", target, "-train", "tr_%v", "-test", "te_%v.x"}
	if folds != 5 || r.Intn(2) == 0 {
		args = append(args, "-folds", fmt.Sprint(folds))
	}
	c.Note("%v", t.AFM())

	// what is left of the features
	if r.Intn(3) == 0 {
		list := []string{"not there"}
		o := &Table{Labels: t.Labels}
		for j, col := range t.Cols {
			if j > 0 && r.Intn(3) == 0 {
				list = append(list, col.Name)
				if r.Intn(3) == 0 {
					list = append(list, col.Name)
				}
				if col.Name != target {
					continue
				}
			}
			o.Cols = append(o.Cols, col)
		}
		t = o
		r.Shuffle(len(list), func(i, j int) { list[i], list[j] = list[j], list[i] })
		write(filepath.Join(dir, "black"), strings.Join(list, "\n")+"\n")
		args = append(args, "-blacklist", "black")
		c.Obs("excluded features", len(list)-1)
	}
	if r.Intn(4) == 0 {
		max := r.Intn(6)
		o := &Table{Labels: t.Labels}
		for _, col := range t.Cols {
			if col.Num || len(col.Cats) <= max {
				o.Cols = append(o.Cols, col)
			}
		}
		t = o
		args = append(args, "-maxcats", fmt.Sprint(max))
		c.Obs("limited categories", 1)
	}
	if r.Intn(3) == 0 {
		ok := true
		o := &Table{Labels: t.Labels}
		for _, col := range t.Cols {
			w := imputedWays(col)
			ok = ok && len(w) == 1
			o.Cols = append(o.Cols, w[0])
		}
		if ok {
			t = o
			args = append(args, "-impute")
			c.Obs("imputed", 1)
		}
	}
	recode := func(f func(*Col) []*Col) {
		o := &Table{Labels: t.Labels}
		for _, col := range t.Cols {
			o.Cols = append(o.Cols, f(col)...)
		}
		t = o
	}
	switch r.Intn(5) {
	case 0:
		recode(oneHot)
		args = append(args, "-onehot")
		c.Obs("one hot", 1)
	case 1:
		recode(encode)
		args = append(args, "-num")
		c.Obs("encoded as numbers", 1)
	}
	tc := t.Col(target)
	strat := tc != nil && !tc.Num
	if r.Intn(4) == 0 {
		strat = false
		args = append(args, "-unstratified")
	}
	formats := []string{""}
	switch r.Intn(6) {
	case 0:
		args = append(args, "-writeall")
		formats = []string{"", ".arff", ".libsvm"}
	case 1:
		args = append(args, "-writearff")
		formats = []string{".arff"}
	case 2:
		args = append(args, "-writelibsvm")
		formats = []string{".libsvm"}
	case 3:
		args = append(args, "-writelibsvm", "-writearff")
		formats = []string{".arff", ".libsvm"}
	}
	if tc == nil {
		c.Obs("targets not in the data", 1)
		for _, f := range formats {
			if f == ".libsvm" {
				// can't be written without
				o, e, ok := c.tool(dir, "nfold", nil, args...)
				if ok {
					c.Fail("libsvm", "nfold %q reports success without the target\n%v%v", args, o, e)
				}
				c.Obs("refused", 1)
				return
			}
		}
	}
	c.Note("nfold %q", args)
	c.must(dir, "nfold", nil, args...)
	if strat {
		c.Obs("stratified", 1)
		if tc.hasMissing() {
			c.Obs("missing targets", 1)
		}
	} else {
		c.Obs("unstratified", 1)
	}
	var sig []string
	for _, format := range formats {
		kind := format
		if kind == "" {
			kind = ".afm"
		}
		c.Obs(kind[1:]+" files", 2*folds)
		var tests, trains [][]int
		for k := 0; k < folds; k++ {
			for _, train := range []bool{false, true} {
				name := fmt.Sprintf("te_%v.x%v", k, format)
				if train {
					name = fmt.Sprintf("tr_%v%v", k, format)
				}
				b, err := ioutil.ReadFile(filepath.Join(dir, name))
				if err != nil {
					c.Fail("file", "%v", err)
				}
				text := string(b)
				ids := c.idsOf(text, format, 1)
				for _, i := range ids {
					if i < 0 || i >= n {
						c.Fail("file", "case %d in %v:\n%v", i, name, text)
					}
				}
				switch format {
				case "":
					checkText(c, name, t, ids, text)
				case ".arff":
					checkArff(c, t, ids, target, text)
				case ".libsvm":
					if len(ids) > 0 {
						checkLibsvm(c, "libsvm", t, ids, target, text)
					}
				}
				if train {
					trains = append(trains, ids)
				} else {
					tests = append(tests, ids)
				}
			}
		}
		sig = append(sig, fmt.Sprint(tests))
		checkFolds(c, t, tc, strat, folds, tests, trains)
	}
	for _, s := range sig {
		if s != sig[0] {
			c.Fail("formats", "folds of formats differ: %v", sig)
		}
	}
	if len(sig) > 0 {
		c.Sig("%v", sig[0])
		c.Sample("nfold %q: %v", args, sig[0])
	}
}

// checkText compares a written matrix with the table line by line.
func checkText(c *Ctx, name string, t *Table, ids []int, text string) {
	got := strings.Split(strings.TrimSuffix(text, "\n"), "\n")
	if len(got) != len(t.Cols)+1 {
		c.Fail("afm", "%d lines in %v instead of %d", len(got), name, len(t.Cols)+1)
	}
	head := "."
	for _, i := range ids {
		head += "\t" + t.Labels[i]
	}
	if got[0] != head {
		c.Fail("afm", "%v starts with %q instead of %q", name, got[0], head)
	}
	for k, col := range t.Cols {
		f := strings.Split(got[k+1], "\t")
		if len(f) != len(ids)+1 || f[0] != col.Name {
			c.Fail("afm", "line %d of %v is %q, for %v of %d cases", k+1, name, got[k+1], col.Name, len(ids))
		}
		for j, i := range ids {
			if !col.shows(i, f[j+1]) {
				c.Fail("afm", "%q instead of %q for %v of case %d in %v:\n%v", f[j+1], col.Str(i), col.Name, i, name, text)
			}
		}
	}
}

func checkFolds(c *Ctx, t *Table, tc *Col, strat bool, folds int, tests, trains [][]int) {
	c.Obs("folds", folds)
	seen := map[int]int{}
	for k, ids := range tests {
		for _, i := range ids {
			if p, ok := seen[i]; ok {
				c.Fail("twice", "case %d is tested in fold %d and %d: %v", i, p, k, tests)
			}
			seen[i] = k
		}
		if !strat {
			if len(ids) != t.N()/folds {
				c.Fail("size", "%d of %d cases in fold %d of %d", len(ids), t.N(), k, folds)
			}
			continue
		}
		total, in := map[string]int{}, map[string]int{}
		for i := range tc.Miss {
			if !tc.Miss[i] {
				total[tc.Label(i)]++
			}
		}
		for _, i := range ids {
			if tc.Miss[i] {
				c.Fail("missing", "case %d of fold %d is missing the target", i, k)
			}
			in[tc.Label(i)]++
		}
		for l, x := range total {
			if in[l] != x/folds {
				c.Fail("strata", "%d of %d cases of %q in fold %d of %d", in[l], x, l, k, folds)
			}
		}
	}
	for k := range tests {
		var want []int
		for o, ids := range tests {
			if o != k {
				want = append(want, ids...)
			}
		}
		if !sameBag(want, trains[k]) {
			sort.Ints(want)
			c.Fail("train", "fold %d trains on %v instead of %v", k, sorted(trains[k]), want)
		}
	}
}

// c23often compares how often cases end up in folds with the probability.
func c23often(c *Ctx) {
	r := c.Rng
	n := 4 + r.Intn(8)
	folds := 2 + r.Intn(2)
	t := &Table{Labels: caseLabels(n)}
	id := &Col{Name: "N:id", Num: true, Miss: make([]bool, n)}
	tc := &Col{Name: "C:t", Cats: []string{"a", "b"}, Miss: make([]bool, n)}
	size := map[int]int{}
	for i := 0; i < n; i++ {
		id.V = append(id.V, float64(i+1))
		tc.K = append(tc.K, r.Intn(2))
		size[tc.K[i]]++
	}
	t.Cols = []*Col{id, tc}
	strat := r.Intn(2) == 0
	dir, done := c.dir()
	defer done()
	write(filepath.Join(dir, "data.afm"), t.AFM())
	args := []string{"-fm", "data.afm", "-target", "C:t", "-folds", fmt.Sprint(folds)}
	if !strat {
		args = append(args, "-unstratified")
	}
	c.Note("nfold %q of\n%v", args, t)
	tries := 150
	counts := map[[2]int]int{}
	pairs := 0
	for k := 0; k < tries; k++ {
		c.must(dir, "nfold", nil, args...)
		in := map[int]int{}
		for f := 0; f < folds; f++ {
			for _, i := range c.idsOf(c.read(filepath.Join(dir, fmt.Sprintf("test_%d.fm", f))), "", 1) {
				counts[[2]int{i, f}]++
				in[i] = f + 1
			}
		}
		if in[0] > 0 && in[0] == in[1] {
			pairs++
		}
	}
	for i := 0; i < n; i++ {
		m := n
		if strat {
			m = size[tc.K[i]]
		}
		p := float64(m/folds) / float64(m)
		for f := 0; f < folds; f++ {
			c.Obs("frequencies", 1)
			if unlikely(counts[[2]int{i, f}], tries, p) {
				c.Fail("frequency", "case %d is in fold %d of %d in %d of %d runs instead of with %v", i, f, folds, counts[[2]int{i, f}], tries, p)
			}
		}
	}
	p := 0.0
	if m := n; !strat {
		s := m / folds
		p = float64(folds*s*(s-1)) / float64(m) / float64(m-1)
		if unlikely(pairs, tries, p) {
			c.Fail("frequency", "cases 0 and 1 share a fold in %d of %d runs instead of with %v", pairs, tries, p)
		}
	}
	c.Sig("often %v %v", t, args)
}
