package main

import (
	"bytes"
	"fmt"
	"io"
	"math"
	"math/rand"
	"strconv"
	"strings"

	CF "github.com/ryanbressler/CloudForest"
)

// C13: forest files.

func init() {
	register(&Check{Prop: "C13", Quick: 120000, Thorough: 3000000,
		Rule:        "one to three forests of generated trees (odd names, missing branches, weights, predictions in inner nodes) are drawn from the seed, written by the writer and read back by a parser of the harness, by the reader as forests and tree by tree; files in rf-ace's style written by the harness, files cut at every line and concatenated files are read too; non trivial = the trees split at least once, distinct by the text of the forests",
		Assumptions: []string{"labels don't contain colons, quotes or line breaks and predictions don't begin or end with space, which the format can't express"},
		Need:        []string{"trees written", "trees read", "several forests", "missing branches", "cut files", "concatenated files", "foreign files", "trees read one by one", "names with commas", "names with equal signs", "votes of read trees"},
		Run:         c13})
}

type rtree struct {
	root   *RNode
	target string
	weight float64
}

func (t rtree) String() string {
	w := t.weight
	if w < 0 {
		w = -1
	}
	return fmt.Sprintf("target %q %v", t.target, treeText(t.root, w))
}

type rforest struct {
	target    string
	intercept float64
	trees     []rtree
}

func (f *rforest) String() string {
	var b strings.Builder
	fmt.Fprintf(&b, "forest for %q intercept %v\n", f.target, f.intercept)
	for _, t := range f.trees {
		fmt.Fprintf(&b, "  %v\n", t)
	}
	return b.String()
}

// oddName draws a name as forest files have to carry.
func oddName(r *rand.Rand) string {
	parts := []string{"a", "b", "X1", ",", "=", " ", "::", "-", "LVALUES=", ", ", "_x", "é", ".5", "'", "|", "(", "NODE=*L", "TREE", "/", "%", "#", ";"}
	s := []string{"q", "N:", "C:", "B:", "7", "GEXP:"}[r.Intn(6)]
	for k := r.Intn(5); k >= 0; k-- {
		s += parts[r.Intn(len(parts))]
	}
	return s + []string{"", "z", "9"}[r.Intn(3)]
}

// oddLabel draws the label of a category.
func oddLabel(r *rand.Rand) string {
	s := strings.TrimSpace(strings.Replace(oddName(r), ":", ".", -1))
	if r.Intn(8) == 0 {
		s = []string{"true", "1", "0.5", ",", "=", "a=b", "x, y", ",,", "-", "a,b=c"}[r.Intn(10)]
	}
	return s
}

func oddFloat(r *rand.Rand) float64 {
	switch r.Intn(8) {
	case 0:
		return math.Ldexp(r.Float64()-.5, r.Intn(600)-300)
	case 1:
		return float64(r.Intn(5) - 2)
	case 2:
		return []float64{math.MaxFloat64, -math.MaxFloat64, math.SmallestNonzeroFloat64, 1e21, 123456789012345680, 0.1, 1.0 / 3}[r.Intn(7)]
	}
	return r.NormFloat64()
}

// genFileTable draws columns with odd names to grow trees on.
func genFileTable(r *rand.Rand, n, m int) *Table {
	t := genTable(r, n, m, smallCats)
	used := map[string]bool{}
	for _, c := range t.Cols {
		if r.Intn(3) != 0 {
			for c.Name = oddName(r); used[c.Name]; {
				c.Name += "'"
			}
		}
		used[c.Name] = true
		if !c.Num && r.Intn(2) == 0 {
			labels := map[string]bool{}
			for i := range c.Cats {
				for c.Cats[i] = oddLabel(r); labels[c.Cats[i]]; {
					c.Cats[i] += "'"
				}
				labels[c.Cats[i]] = true
			}
		}
		for i := range c.V {
			if r.Intn(4) == 0 {
				c.V[i] = oddFloat(r)
			}
		}
	}
	return t
}

func fixEmpty(n *RNode, t *Table) {
	n.walk(func(n *RNode, _ string) {
		if n.Feature != "" && !n.Num && len(keys(n.Left)) == 0 {
			n.Left[t.Col(n.Feature).Cats[0]] = true
		}
	}, "")
}

func genForest(r *rand.Rand, t *Table, target string, ntrees int) *rforest {
	f := &rforest{target: target}
	for k := 0; k < ntrees; k++ {
		w := -1.0
		switch r.Intn(5) {
		case 0:
			w = r.ExpFloat64()
		case 1:
			w = []float64{0, 1, math.Inf(1), 1e-300, .1}[r.Intn(5)]
		}
		pred := func() string {
			switch r.Intn(3) {
			case 0:
				return oddLabel(r)
			case 1:
				return fmt.Sprintf("%v", oddFloat(r))
			}
			return fmt.Sprintf("c%d", r.Intn(3))
		}
		root := genTree(r, t, r.Intn(5), pred, r.Intn(3) == 0)
		fixEmpty(root, t)
		f.trees = append(f.trees, rtree{root, target, w})
	}
	if r.Intn(2) == 0 {
		f.intercept = oddFloat(r)
	}
	return f
}

// real builds the forest with the types of the code.
func (f *rforest) real() *CF.Forest {
	o := &CF.Forest{Target: f.target, Intercept: f.intercept}
	for _, t := range f.trees {
		o.Trees = append(o.Trees, t.root.build(t.target, t.weight))
	}
	return o
}

func forestOf(f *CF.Forest) *rforest {
	o := &rforest{target: f.Target, intercept: f.Intercept}
	for _, t := range f.Trees {
		o.trees = append(o.trees, rtree{modelOf(t.Root), t.Target, t.Weight})
	}
	return o
}

// sfField is a key and a value of a line of a forest file.
func sfFields(line string) (m map[string]string, err error) {
	m = map[string]string{}
	i := 0
	for i < len(line) {
		j := strings.IndexByte(line[i:], '=')
		if j < 0 {
			return nil, fmt.Errorf("no key at %q of %q", line[i:], line)
		}
		key := line[i : i+j]
		i += j + 1
		var v string
		if i < len(line) && line[i] == '"' {
			k := strings.IndexByte(line[i+1:], '"')
			if k < 0 {
				return nil, fmt.Errorf("quote isn't closed in %q", line)
			}
			v = line[i+1 : i+1+k]
			i += k + 2
		} else {
			k := strings.IndexByte(line[i:], ',')
			if k < 0 {
				k = len(line) - i
			}
			v = line[i : i+k]
			i += k
		}
		if i < len(line) {
			if line[i] != ',' {
				return nil, fmt.Errorf("no comma before %q of %q", line[i:], line)
			}
			i++
		}
		if _, dup := m[key]; dup {
			return nil, fmt.Errorf("%v repeated in %q", key, line)
		}
		m[key] = v
	}
	return m, nil
}

// put adds a node at path, nodes above it have to be there.
func put(root **RNode, path string, n *RNode) error {
	p := root
	for _, b := range path {
		if *p == nil {
			return fmt.Errorf("no node above %q", path)
		}
		switch b {
		case 'L':
			p = &(*p).L
		case 'R':
			p = &(*p).R
		case 'M':
			p = &(*p).M
		default:
			return fmt.Errorf("path %q", path)
		}
	}
	if *p != nil {
		return fmt.Errorf("second node at %q", path)
	}
	*p = n
	return nil
}

// parseSF is the harness' own reader of forest files.
func parseSF(text string) (fs []*rforest, err error) {
	var cur *rforest
	header := false
	for _, line := range lines(text) {
		m, err := sfFields(line)
		if err != nil {
			return nil, err
		}
		switch {
		case strings.HasPrefix(line, "FOREST="):
			cur = &rforest{target: m["TARGET"]}
			if s, ok := m["INTERCEPT"]; ok {
				if cur.intercept, err = strconv.ParseFloat(s, 64); err != nil {
					return nil, err
				}
			}
			fs = append(fs, cur)
			header = true
		case strings.HasPrefix(line, "TREE="):
			if cur == nil {
				cur = &rforest{target: m["TARGET"]}
				fs = append(fs, cur)
			}
			t := rtree{target: m["TARGET"], weight: -1}
			if s, ok := m["WEIGHT"]; ok {
				if t.weight, err = strconv.ParseFloat(s, 64); err != nil {
					return nil, err
				}
			}
			cur.trees = append(cur.trees, t)
		case strings.HasPrefix(line, "NODE=*"):
			if cur == nil || len(cur.trees) == 0 {
				return nil, fmt.Errorf("node outside of a tree: %q", line)
			}
			n := &RNode{Pred: m["PRED"], Feature: m["SPLITTER"]}
			switch m["SPLITTERTYPE"] {
			case "NUMERICAL":
				n.Num = true
				if n.Value, err = strconv.ParseFloat(m["LVALUES"], 64); err != nil {
					return nil, err
				}
				if m["RVALUES"] != m["LVALUES"] {
					return nil, fmt.Errorf("two thresholds in %q", line)
				}
			case "CATEGORICAL":
				n.Left = map[string]bool{}
				for _, s := range strings.Split(m["LVALUES"], ":") {
					n.Left[s] = true
				}
			case "":
				if n.Feature != "" {
					return nil, fmt.Errorf("no type of splitter in %q", line)
				}
			default:
				return nil, fmt.Errorf("type of splitter %q", m["SPLITTERTYPE"])
			}
			if err := put(&cur.trees[len(cur.trees)-1].root, m["NODE"][1:], n); err != nil {
				return nil, err
			}
		default:
			return nil, fmt.Errorf("line %q", line)
		}
	}
	_ = header
	return fs, nil
}

// foreign writes a forest in the style of other programs that use the format.
func foreign(r *rand.Rand, f *rforest, num int, header bool) string {
	var b strings.Builder
	nl := "\n"
	if r.Intn(6) == 0 {
		nl = "\r\n"
	}
	if header {
		fmt.Fprintf(&b, `FOREST=%v,TARGET="%v",NTREES=%d,CATEGORIES="",SHRINKAGE=0`, []string{"RF", fmt.Sprint(num)}[r.Intn(2)], f.target, len(f.trees))
		if f.intercept != 0 {
			fmt.Fprintf(&b, ",INTERCEPT=%v", f.intercept)
		}
		b.WriteString(nl)
	}
	for k, t := range f.trees {
		fmt.Fprintf(&b, `TREE=%d,TARGET="%v"`, k, t.target)
		if t.weight >= 0 {
			fmt.Fprintf(&b, `,WEIGHT=%v`, t.weight)
		}
		b.WriteString(nl)
		var ls []string
		t.root.walk(func(n *RNode, path string) {
			l := "NODE=*" + path
			if n.Pred != "" {
				l += fmt.Sprintf(",PRED=\"%v\"", n.Pred)
			}
			if n.Feature != "" {
				l += fmt.Sprintf(`,SPLITTER="%v"`, n.Feature)
				if n.Num {
					q := ""
					if r.Intn(4) == 0 {
						q = "\""
					}
					l += fmt.Sprintf(",SPLITTERTYPE=NUMERICAL,LVALUES=%v%v%v,RVALUES=%v%v%v", q, n.Value, q, q, n.Value, q)
				} else {
					l += fmt.Sprintf(`,SPLITTERTYPE=CATEGORICAL,LVALUES="%v",RVALUES="other:values"`, strings.Join(keys(n.Left), ":"))
				}
			}
			ls = append(ls, l)
		}, "")
		if r.Intn(2) == 0 { // level by level
			var byDepth []string
			for d := 0; len(byDepth) < len(ls); d++ {
				for _, l := range ls {
					if len(strings.SplitN(l, ",", 2)[0]) == len("NODE=*")+d {
						byDepth = append(byDepth, l)
					}
				}
			}
			ls = byDepth
		}
		for _, l := range ls {
			b.WriteString(l + nl)
		}
	}
	return b.String()
}

func diffForests(want, got []*rforest) string {
	if len(want) != len(got) {
		return fmt.Sprintf("%d forests instead of %d", len(got), len(want))
	}
	for i := range want {
		if a, b := want[i].String(), got[i].String(); a != b {
			al, bl := strings.Split(a, "\n"), strings.Split(b, "\n")
			for k := range al {
				if k >= len(bl) || al[k] != bl[k] {
					return fmt.Sprintf("forest %d: instead of\n%v\nthere is\n%v", i, al[k], append(bl, "")[k])
				}
			}
			return fmt.Sprintf("forest %d: instead of\n%v\nthere is\n%v", i, a, b)
		}
	}
	return ""
}

// readAll reads all forests of a text with the real reader.
func readAll(c *Ctx, text string, max int) (fs []*rforest, real []*CF.Forest) {
	fr := CF.NewForestReader(strings.NewReader(text))
	for {
		f, err := fr.ReadForest()
		if f != nil {
			fs = append(fs, forestOf(f))
			real = append(real, f)
		}
		if err == io.EOF {
			return
		}
		if err != nil {
			c.Fail("read", "%v reading\n%v", err, text)
		}
		if len(fs) > max {
			c.Fail("read", "more than %d forests in\n%v", max, text)
		}
	}
}

func c13(c *Ctx) {
	r := c.Rng
	t := genFileTable(r, 6, 1+r.Intn(5))
	nf := 1
	if r.Intn(3) == 0 {
		nf = 2 + r.Intn(2)
		c.Obs("several forests", 1)
	}
	var want []*rforest
	for k := 0; k < nf; k++ {
		want = append(want, genForest(r, t, oddName(r), 1+r.Intn(4)))
	}
	switch {
	case c.large(4001): // many trees
		want[0] = genForest(r, t, oddName(r), 200+r.Intn(400))
	case c.large(4003): // deep trees
		n := 0
		for k := range want[0].trees {
			x := genDistinct(r, fmt.Sprintf("%v%v", oddName(r), k), 600)
			want[0].trees[k].root = genChain(r, x, 500, func() string { n++; return fmt.Sprint(n) })
			nl := len(t.Labels)
			x.V, x.Miss = x.V[:nl], x.Miss[:nl]
			t.Cols = append(t.Cols, x)
		}
	case c.large(997): // many categories, long lines
		x := genCat(r, oddName(r)+"big", len(t.Labels), []int{600, 2000, 5000, 20000}[r.Intn(4)]+r.Intn(2000), 0)
		t.Cols = append(t.Cols, x)
		for k := range want[0].trees {
			n := &RNode{Feature: x.Name, Left: map[string]bool{x.Cats[0]: true}, L: &RNode{Pred: "1"}, R: want[0].trees[k].root}
			for _, s := range x.Cats {
				if r.Intn(2) == 0 {
					n.Left[s] = true
				}
			}
			want[0].trees[k].root = n
		}
	}
	splits := 0
	for _, f := range want {
		for _, tr := range f.trees {
			tr.root.walk(func(n *RNode, _ string) {
				if n.Feature != "" {
					splits++
				}
				if n.M != nil {
					c.Obs("missing branches", 1)
				}
				if strings.Contains(n.Feature, ",") {
					c.Obs("names with commas", 1)
				}
				if strings.Contains(n.Feature, "=") {
					c.Obs("names with equal signs", 1)
				}
			}, "")
		}
	}
	// what the code writes
	var buf bytes.Buffer
	w := CF.NewForestWriter(&buf)
	var ends []int
	for k, f := range want {
		real := f.real()
		switch {
		case nf == 1 && r.Intn(2) == 0:
			w.WriteForest(real)
		default:
			w.WriteForestHeader(k, f.target, f.intercept)
			for i, tr := range real.Trees {
				if r.Intn(3) == 0 {
					w.WriteTreeHeader(i, tr.Target, tr.Weight)
					w.WriteNodeAndChildren(tr.Root, "*")
				} else {
					w.WriteTree(tr, i)
				}
				ends = append(ends, buf.Len())
			}
		}
		if d := diffForests([]*rforest{f}, []*rforest{forestOf(real)}); d != "" {
			c.Fail("changed", "writing changes the forest: %v", d)
		}
		c.Obs("trees written", len(f.trees))
	}
	text := buf.String()
	c.Note("written:\n%v", text)
	got, err := parseSF(text)
	if err != nil {
		c.Fail("format", "written file is malformed: %v", err)
	}
	if d := diffForests(want, got); d != "" {
		c.Fail("written", "%v", d)
	}
	back, real := readAll(c, text, nf)
	if d := diffForests(want, back); d != "" {
		c.Fail("read", "%v", d)
	}
	c.Obs("trees read", len(back[0].trees))

	// trees that were read vote like the ones written
	f := r.Intn(nf)
	fm := t.FM()
	for k, tr := range want[f].trees {
		spy := newSpyVotes()
		real[f].Trees[k].Vote(fm, spy)
		weight := tr.weight
		if weight < 0 {
			weight = 1
		}
		for i := range t.Labels {
			leaf := tr.root.reach(t, i)
			vs := spy.votes[i]
			if leaf == nil && len(vs) != 0 || leaf != nil && (len(vs) != 1 || vs[0].pred != leaf.Pred || vs[0].weight != weight) {
				c.Fail("vote", "tree %d of forest %d votes %v for case %d, leaf %v", k, f, vs, i, leaf)
			}
			c.Obs("votes of read trees", 1)
		}
	}

	// tree by tree
	fr := CF.NewForestReader(strings.NewReader(text))
	for k, f := range want {
		for i := range f.trees {
			tr, fo, err := fr.ReadTree()
			last := k == nf-1 && i == len(f.trees)-1
			if tr == nil || err != nil && !(last && err == io.EOF) {
				c.Fail("tree", "reading tree %d of forest %d: tree %v error %v", i, k, tr, err)
			}
			if g := (rtree{modelOf(tr.Root), tr.Target, tr.Weight}).String(); g != f.trees[i].String() {
				c.Fail("tree", "reading tree %d of forest %d: instead of\n%v\nthere is\n%v", i, k, f.trees[i], g)
			}
			hasHeader := ends != nil || f.intercept != 0
			if (fo != nil) != (i == 0 && hasHeader) {
				c.Fail("tree", "reading tree %d of forest %d: forest %v", i, k, fo)
			}
			if fo != nil && (fo.Target != f.target || fo.Intercept != f.intercept) {
				c.Fail("tree", "forest %d: target %q intercept %v", k, fo.Target, fo.Intercept)
			}
			c.Obs("trees read one by one", 1)
		}
	}
	if tr, _, err := fr.ReadTree(); tr != nil || err != io.EOF {
		c.Fail("tree", "after the last tree: %v %v", tr, err)
	}

	// a file that ends early has all trees written before
	if len(ends) > 0 {
		cut := 1 + r.Intn(len(text)-1)
		if j := strings.IndexByte(text[cut:], '\n'); j >= 0 {
			cut += j + 1
		}
		if r.Intn(4) == 0 {
			cut-- // last line without its end
		}
		part, _ := readAll(c, text[:cut], nf)
		k := 0
		for fi, f := range want {
			for i := range f.trees {
				if ends[k] <= cut+1 {
					if fi >= len(part) || i >= len(part[fi].trees) || part[fi].trees[i].String() != f.trees[i].String() {
						c.Fail("cut", "tree %d of forest %d, complete in the first %d bytes, isn't read from them", i, fi, cut)
					}
				}
				k++
			}
		}
		for fi, f := range part {
			if len(f.trees) > len(want[fi].trees) || len(f.trees) > 0 && f.target != want[fi].target {
				c.Fail("cut", "forest %d of the first %d bytes is %v", fi, cut, f)
			}
		}
		c.Obs("cut files", 1)
	}

	// small forests are combined by concatenation
	a := genForest(r, t, want[0].target, 1+r.Intn(3))
	a.intercept = 0
	var one, two bytes.Buffer
	b := &rforest{target: want[0].target, trees: want[0].trees}
	CF.NewForestWriter(&one).WriteForest(b.real())
	CF.NewForestWriter(&two).WriteForest(a.real())
	both, _ := readAll(c, one.String()+two.String(), 1)
	if d := diffForests([]*rforest{{target: b.target, trees: append(append([]rtree{}, b.trees...), a.trees...)}}, both); d != "" {
		c.Fail("concatenated", "%v", d)
	}
	c.Obs("concatenated files", 1)

	// files written by other programs
	var fb strings.Builder
	header := nf > 1 || want[0].intercept != 0 || r.Intn(2) == 0
	for k, f := range want {
		fb.WriteString(foreign(r, f, k, header))
	}
	ft := fb.String()
	if r.Intn(3) == 0 {
		ft = strings.TrimRight(ft, "\r\n")
	}
	fgot, _ := readAll(c, ft, nf)
	if d := diffForests(want, fgot); d != "" {
		c.Fail("foreign", "%v\nin\n%v", d, ft)
	}
	c.Obs("foreign files", 1)
	if splits > 0 {
		c.Sig("%v", want)
		c.Sample("%.600s", text)
	}
}
