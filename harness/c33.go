package main

import (
	"archive/zip"
	"bytes"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"os"
	"path/filepath"
	"strings"
	"syscall"

	CF "github.com/ryanbressler/CloudForest"
)

// C33: failures to read or write are reported.

func init() {
	register(&Check{Prop: "C33", Quick: 3000, Thorough: 100000,
		Rule:        "a tool, its options, its input files and the outputs it is asked for are drawn from the seed; it has to succeed, then one fault at a time is injected: an output on a full disk, in a directory that isn't there or cut off at a byte by a limit on the size of files, an input that is missing, is a directory, ends within a row, has a row of another length, a stray quote, a damaged byte in a zip file or damaged lines of a forest, an option that can't be followed; every 6th case writes and reads through the package with writers and readers that fail after some bytes; distinct by (tool, fault, file, quarter of the file at which it hits)",
		Assumptions: []string{"errors that only appear when a file is closed are not injected", "a file that ends at the end of a row isn't damaged"},
		Need: []string{"growforest faults", "applyforest faults", "leafcount faults", "nfold faults", "toafm faults", "full disk", "no directory", "size limit", "missing input", "directory for input", "damaged data", "damaged forest", "damaged zip", "refused options",
			"failing writers", "failing readers", "succeeded"},
		Run: c33})
}

// limited runs a tool that can't write files of more than n bytes.
func (c *Ctx) limited(dir, name string, n int, env []string, args ...string) (out, errout string, ok bool) {
	self, err := os.Executable()
	if err != nil {
		panic(err)
	}
	args = append([]string{"-fsize", fmt.Sprint(n), filepath.Join(c.Bin, name)}, args...)
	return c.exec(dir, self, name, env, args...)
}

// fsize runs what follows with a limit on the size of the files it writes.
func fsize(args []string) {
	var n uint64
	fmt.Sscan(args[0], &n)
	if err := syscall.Setrlimit(syscall.RLIMIT_FSIZE, &syscall.Rlimit{Cur: n, Max: n}); err != nil {
		panic(err)
	}
	panic(syscall.Exec(args[1], args[1:], os.Environ()))
}

type failJob struct {
	tool    string
	args    []string
	data    []string // data files
	forests []string
	lists   []string // blacklists
	outs    []string
}

// genFailTable makes data every tool can do something with.
func genFailTable(r *rand.Rand, n int) *Table {
	t := &Table{Labels: make([]string, n)}
	for i := range t.Labels {
		t.Labels[i] = fmt.Sprintf("case%d", i)
	}
	for j := 2 + r.Intn(4); j >= 0; j-- {
		var col *Col
		if r.Intn(2) == 0 {
			col = genNum(r, fmt.Sprintf("N:f%d", j), n, missRate(r)/2)
		} else {
			col = genCat(r, fmt.Sprintf("C:f%d", j), n, 2+r.Intn(4), missRate(r)/2)
		}
		t.Cols = append(t.Cols, col)
	}
	num := &Col{Name: "N:t", Num: true, Miss: make([]bool, n)}
	cat := &Col{Name: "C:t", Miss: make([]bool, n), Cats: []string{"a", "b", "c"}}
	for i := 0; i < n; i++ {
		num.V = append(num.V, r.NormFloat64())
		cat.K = append(cat.K, (i+r.Intn(2))%3)
	}
	t.Cols = append(t.Cols, num, cat)
	r.Shuffle(len(t.Cols), func(i, j int) { t.Cols[i], t.Cols[j] = t.Cols[j], t.Cols[i] })
	t.canonical()
	return t
}

func transpose(text string) string {
	rows := lines(text)
	var cells [][]string
	for _, l := range rows {
		cells = append(cells, strings.Split(l, "\t"))
	}
	var b strings.Builder
	for i := range cells[0] {
		for j := range cells {
			if j > 0 {
				b.WriteString("\t")
			}
			b.WriteString(cells[j][i])
		}
		b.WriteString("\n")
	}
	return b.String()
}

func plainArff(t *Table) string {
	var b strings.Builder
	b.WriteString("@RELATION r\n\n")
	for _, col := range t.Cols {
		if col.Num {
			fmt.Fprintf(&b, "@ATTRIBUTE %v NUMERIC\n", col.Name)
		} else {
			fmt.Fprintf(&b, "@ATTRIBUTE %v {%v}\n", col.Name, strings.Join(col.Cats, ","))
		}
	}
	b.WriteString("\n@DATA\n")
	for i := range t.Labels {
		for j, col := range t.Cols {
			if j > 0 {
				b.WriteString(",")
			}
			if col.Miss[i] {
				b.WriteString("?")
			} else {
				b.WriteString(col.Str(i))
			}
		}
		b.WriteString("\n")
	}
	return b.String()
}

// genFailJob writes the inputs of a run and draws its outputs.
func genFailJob(c *Ctx, dir string) *failJob {
	r := c.Rng
	j := &failJob{tool: []string{"growforest", "growforest", "applyforest", "leafcount", "nfold", "toafm"}[r.Intn(6)]}
	t := genFailTable(r, 12+r.Intn(80))
	target := []string{"N:t", "C:t"}[r.Intn(2)]
	c.Note("%v for %v", j.tool, target)

	data := func(flag, name string) {
		text := t.AFM()
		switch r.Intn(5) {
		case 0:
			text = transpose(text)
		case 1:
			if j.tool != "nfold" {
				text = plainArff(t)
				name += ".arff"
			}
		}
		path := filepath.Join(dir, name)
		if r.Intn(6) == 0 && !strings.HasSuffix(name, ".arff") {
			name += ".zip"
			writeZip(filepath.Join(dir, name), "in", text)
		} else {
			write(path, text)
		}
		j.data = append(j.data, name)
		j.args = append(j.args, flag, name)
	}
	out := func(flag, name string) {
		j.outs = append(j.outs, name)
		j.args = append(j.args, flag, name)
	}
	list := func() {
		if r.Intn(3) == 0 {
			write(filepath.Join(dir, "black"), "not there\n"+t.Cols[0].Name+"\n")
			j.args = append(j.args, "-blacklist", "black")
			j.lists = append(j.lists, "black")
		}
	}
	forest := func(name string) {
		f := &CF.Forest{Target: target}
		for i := 1 + r.Intn(6); i > 0; i-- {
			root := genTree(r, t, 1+r.Intn(5), func() string { return fmt.Sprintf("%d", r.Intn(3)) }, r.Intn(2) == 0)
			f.Trees = append(f.Trees, root.build(target, []float64{-1, 1.5}[r.Intn(2)]))
		}
		if r.Intn(3) == 0 {
			f.Intercept = 0.25
		}
		var b bytes.Buffer
		CF.NewForestWriter(&b).WriteForest(f)
		write(filepath.Join(dir, name), b.String())
		j.forests = append(j.forests, name)
	}

	switch j.tool {
	case "growforest":
		data("-train", "train")
		list()
		j.args = append(j.args, "-target", target, "-nTrees", fmt.Sprint(2+r.Intn(10)), "-noseed")
		if r.Intn(3) == 0 {
			j.args = append(j.args, "-nCores", fmt.Sprint(2+r.Intn(3)))
		}
		if r.Intn(3) > 0 {
			out("-rfpred", "forest.sf")
		}
		if r.Intn(3) == 0 {
			out("-importance", "imp.tsv")
			if r.Intn(2) == 0 {
				j.args = append(j.args, "-ace", "3")
			}
		}
		if r.Intn(3) == 0 {
			out("-oobpreds", "oob.tsv")
		}
		if r.Intn(4) == 0 {
			out("-scikitforest", "sk.json")
		}
		if len(j.outs) == 0 {
			out("-oobpreds", "oob.tsv")
		}
		if r.Intn(4) == 0 {
			data("-test", "test")
		}
	case "applyforest":
		data("-fm", "data")
		forest("f.sf")
		j.args = append(j.args, "-rfpred", "f.sf")
		if r.Intn(2) == 0 {
			j.args = append(j.args, "-sum")
		} else {
			f := "-mode"
			j.args = append(j.args, f)
			if r.Intn(2) == 0 {
				out("-votes", "votes.tsv")
			}
			// an intercept isn't for voting
			text := c.read(filepath.Join(dir, "f.sf"))
			if strings.HasPrefix(text, "FOREST") {
				write(filepath.Join(dir, "f.sf"), text[strings.Index(text, "\n")+1:])
			}
		}
		if len(j.outs) == 0 || r.Intn(2) == 0 {
			out("-preds", "preds.tsv")
		}
	case "leafcount":
		data("-fm", "data")
		var names []string
		for i := r.Intn(3); i >= 0; i-- {
			n := fmt.Sprintf("f%d.sf", i)
			forest(n)
			names = append(names, n)
		}
		j.args = append(j.args, "-rfpred", strings.Join(names, ","), "-threads", fmt.Sprint(1+r.Intn(4)))
		out("-leaves", "leaves.tsv")
		if r.Intn(2) == 0 {
			out("-branches", "branches.tsv")
		}
		if r.Intn(2) == 0 {
			out("-splits", "splits.json")
		}
	case "nfold":
		data("-fm", "data")
		list()
		j.args = append(j.args, "-target", target, "-folds", "2", "-train", "tr_%v", "-test", "te_%v")
		ext := []string{""}
		switch r.Intn(4) {
		case 0:
			ext = []string{".libsvm"}
			j.args = append(j.args, "-writelibsvm")
		case 1:
			ext = []string{".arff"}
			j.args = append(j.args, "-writearff")
		case 2:
			ext = []string{"", ".libsvm", ".arff"}
			j.args = append(j.args, "-writeall")
		}
		for _, e := range ext {
			j.outs = append(j.outs, "tr_0"+e, "tr_1"+e, "te_0"+e, "te_1"+e)
		}
	case "toafm":
		data("-data", "data")
		list()
		out("-out", "out")
		if r.Intn(2) == 0 {
			j.args = append(j.args, "-libsvmtarget", target)
		}
	}
	c.Note("%v %q", j.tool, j.args)
	return j
}

func writeZip(path, name, text string) {
	var b bytes.Buffer
	z := zip.NewWriter(&b)
	w, err := z.Create(name)
	if err == nil {
		_, err = io.WriteString(w, text)
	}
	if err == nil {
		err = z.Close()
	}
	if err != nil {
		panic(err)
	}
	write(path, b.String())
}

// damageRows breaks rows of a table with cells separated by sep. The first row isn't
// damaged.
func damageRows(r *rand.Rand, rows []string, sep string) (text, how string) {
	rows = append([]string{}, rows...)
	k := 1 + r.Intn(len(rows)-1)
	cells := strings.Split(rows[k], sep)
	switch r.Intn(4) {
	case 0: // the file ends within the row
		rows = rows[:k+1]
		last := strings.LastIndex(rows[k], sep)
		rows[k] = rows[k][:1+r.Intn(last)]
		return strings.Join(rows, "\n"), "cut"
	case 1:
		rows[k] = strings.Join(cells[:len(cells)-1], sep)
		how = "a cell less"
	case 2:
		rows[k] += sep + "1"
		how = "a cell more"
	default:
		i := r.Intn(len(cells))
		at := r.Intn(len(cells[i]) + 1)
		cells[i] = cells[i][:at] + `"` + cells[i][at:]
		rows[k] = strings.Join(cells, sep)
		how = "a stray quote"
	}
	return strings.Join(rows, "\n") + "\n", how
}

// damageForest breaks a line of a forest.
func damageForest(r *rand.Rand, text string) (damaged, how string) {
	ls := lines(text)
	var ways []func()
	nodes := 0
	for i, l := range ls {
		i, l := i, l
		if strings.HasPrefix(l, "NODE") {
			nodes++
		}
		if k := strings.Index(l, "SPLITTERTYPE=NUMERICAL,LVALUES="); k >= 0 {
			ways = append(ways, func() {
				k += len("SPLITTERTYPE=NUMERICAL,LVALUES=")
				e := strings.Index(l[k:], ",") + k
				ls[i] = l[:k] + []string{"x", "", "1.2.3", l[k:e] + "0x"}[r.Intn(4)] + l[e:]
				how = "threshold"
			})
		}
		if k := strings.Index(l, ",WEIGHT="); k >= 0 && strings.HasPrefix(l, "TREE") {
			ways = append(ways, func() {
				ls[i] = l[:k] + ",WEIGHT=" + []string{"x", "1.5.0", "1,5"[:2] + "x"}[r.Intn(2)]
				how = "weight"
			})
		}
		if k := strings.Index(l, ",INTERCEPT="); k >= 0 {
			ways = append(ways, func() {
				ls[i] = l[:k] + ",INTERCEPT=" + []string{"x", "1.5.0", "--1"}[r.Intn(3)]
				how = "intercept"
			})
		}
	}
	ways = append(ways, func() { ls = nil; how = "empty" })
	ways = append(ways, func() { ls = append([]string{"# something else"}, ls...); how = "no header" })
	for i, l := range ls {
		if strings.HasPrefix(l, "TREE") {
			i := i
			ways = append(ways, func() {
				ls = append([]string{`FOREST=0,TARGET="C:t"`}, ls[i+1:]...)
				how = "node outside of trees"
			})
			break
		}
	}
	ways[r.Intn(len(ways))]()
	if len(ls) == 0 {
		return "", how
	}
	return strings.Join(ls, "\n") + "\n", how
}

// badOption changes an option to one that can't be followed.
func badOption(r *rand.Rand, dir string, j *failJob) (args []string, how string) {
	args = append([]string{}, j.args...)
	at := func(flag string) int {
		for i, a := range args {
			if a == flag {
				return i + 1
			}
		}
		return -1
	}
	var ways []func()
	set := func(h string, more ...string) {
		ways = append(ways, func() { how = h; args = append(args, more...) })
	}
	set("unknown option", "-nosuch")
	switch j.tool {
	case "growforest":
		set("target not in the data", "-target", "N:nosuch")
		set("expression", []string{"-blockRE", "-includeRE", "-shuffleRE"}[r.Intn(3)], []string{"(", "[a", "*"}[r.Intn(3)])
		if k := at("-target"); args[k] == "C:t" {
			set("feature to balance by not in the data", "-balanceby", "C:nosuch")
			set("feature to balance by not in the data", "-balanceby", "t")
			set("list of costs", []string{"-cost", "-dentropy", "-adacost", "-rfweights"}[r.Intn(4)], []string{"{", `{"a":"x"}`, `{"a":1,}`, "a"}[r.Intn(4)])
		}
		ways = append(ways, func() {
			how = "target without known values"
			t := genFailTable(r, 12)
			for _, col := range t.Cols {
				if col.Name == args[at("-target")] {
					for i := range col.Miss {
						col.Miss[i] = true
					}
				}
			}
			write(filepath.Join(dir, "unknown"), t.AFM())
			args = append(args, "-train", "unknown")
			if r.Intn(2) == 0 {
				args = append(args, "-nSamples", "4")
			}
		}, func() {
			how = "test data without target"
			t := genFailTable(r, 12)
			var cols []*Col
			for _, col := range t.Cols {
				if col.Name != args[at("-target")] {
					cols = append(cols, col)
				}
			}
			t.Cols = cols
			write(filepath.Join(dir, "untargeted"), t.AFM())
			args = append(args, "-test", "untargeted")
		})
	case "toafm":
		set("target not in the data", "-libsvmtarget", "N:nosuch")
	case "nfold":
		set("target not in the data", "-target", "N:nosuch", "-writelibsvm")
	}
	ways[r.Intn(len(ways))]()
	return args, how
}

func c33(c *Ctx) {
	if c.Case%6 == 5 {
		c33api(c)
		return
	}
	r := c.Rng
	dir, done := c.dir()
	defer done()
	j := genFailJob(c, dir)
	env := []string{"GODEBUG=randautoseed=0"}
	o, e, ok := c.tool(dir, j.tool, env, j.args...)
	if !ok {
		c.Fail("crash", "%v %q fails:\n%.3000s\n%.5000s", j.tool, j.args, o, e)
	}
	c.Obs("succeeded", 1)
	size := map[string]int{}
	clean := func() {
		for _, f := range j.outs {
			os.Remove(filepath.Join(dir, f))
		}
	}
	var outs []string
	for _, f := range j.outs {
		size[f] = len(c.read(filepath.Join(dir, f)))
		if size[f] > 0 {
			outs = append(outs, f)
		}
	}
	if len(outs) == 0 {
		c.Fail("output", "all outputs are empty")
	}
	failed := func(fault, file string, at int, o, e string, ok bool) {
		if ok {
			c.Fail("unreported", "%v reports success despite of a fault (%v, %v)\n%.2000s\n%.2000s", j.tool, fault, file, o, e)
		}
		c.Obs(j.tool+" faults", 1)
		c.Obs(fault, 1)
		c.Sig("%v %v %v %v", j.tool, fault, file, at)
		c.Sample("%v %q fails for %v: %v", j.tool, j.args, file, fault)
	}

	// outputs
	out := outs[r.Intn(len(outs))]
	path := filepath.Join(dir, out)
	clean()
	if err := os.Symlink("/dev/full", path); err != nil {
		panic(err)
	}
	o, e, ok = c.tool(dir, j.tool, env, j.args...)
	if fi, err := os.Lstat(path); ok && err == nil && fi.Mode().IsRegular() && fi.Size() > 0 {
		// replaced by a file elsewhere
	} else {
		failed("full disk", out, 0, o, e, ok)
	}

	clean()
	if err := os.Symlink("nodir/"+out, path); err != nil {
		panic(err)
	}
	o, e, ok = c.tool(dir, j.tool, env, j.args...)
	if fi, err := os.Lstat(path); ok && err == nil && fi.Mode().IsRegular() && fi.Size() > 0 {
	} else {
		failed("no directory", out, 0, o, e, ok)
	}

	for k := 0; k < 2; k++ {
		clean()
		n := r.Intn(size[out])
		o, e, ok = c.limited(dir, j.tool, n, env, j.args...)
		if !ok {
			failed("size limit", out, 4*n/size[out], o, e, false)
			continue
		}
		// random numbers may have made another file this time
		for _, f := range j.outs {
			b, err := os.ReadFile(filepath.Join(dir, f))
			if err != nil {
				c.Fail("output", "%v wasn't written", f)
			}
			if len(b) == n && (n == 0 || b[n-1] != '\n') || len(b) == n && 3*n < size[f] {
				failed(fmt.Sprintf("cut off at %v of %v bytes", n, size[f]), f, 0, o, e, true)
			}
		}
	}
	clean()

	// inputs
	ins := append(append(append([]string{}, j.data...), j.forests...), j.lists...)
	in := ins[r.Intn(len(ins))]
	path = filepath.Join(dir, in)
	good := c.read(path)
	os.Remove(path)
	o, e, ok = c.tool(dir, j.tool, env, j.args...)
	failed("missing input", in, 0, o, e, ok)
	clean()

	os.Mkdir(path, 0777)
	o, e, ok = c.tool(dir, j.tool, env, j.args...)
	failed("directory for input", in, 0, o, e, ok)
	os.Remove(path)
	write(path, good)
	clean()

	if bad, how := badOption(r, dir, j); how != "" {
		c.Note("%v: %q", how, bad)
		o, e, ok = c.tool(dir, j.tool, env, bad...)
		failed("refused options", how, 0, o, e, ok)
		clean()
	}

	if len(j.forests) > 0 {
		in := j.forests[r.Intn(len(j.forests))]
		path := filepath.Join(dir, in)
		good := c.read(path)
		bad, how := damageForest(r, good)
		write(path, bad)
		c.Note("%v: %v", in, how)
		o, e, ok = c.tool(dir, j.tool, env, j.args...)
		failed("damaged forest", how, 0, o, e, ok)
		write(path, good)
		clean()
	}

	in = j.data[r.Intn(len(j.data))]
	path = filepath.Join(dir, in)
	good = c.read(path)
	if strings.HasSuffix(in, ".zip") {
		z, err := zip.NewReader(strings.NewReader(good), int64(len(good)))
		if err != nil {
			panic(err)
		}
		at, err := z.File[0].DataOffset()
		if err != nil {
			panic(err)
		}
		k := r.Intn(int(z.File[0].CompressedSize64))
		b := []byte(good)
		b[int(at)+k] ^= 1 << uint(r.Intn(8))
		if d, err := zip.NewReader(bytes.NewReader(b), int64(len(b))); err == nil {
			if f, err := d.File[0].Open(); err == nil {
				if _, err := io.ReadAll(f); err == nil {
					return // the flag of the last block, all data are still there
				}
			}
		}
		write(path, string(b))
		c.Note("damaged byte %v", k)
		o, e, ok = c.tool(dir, j.tool, env, j.args...)
		failed("damaged zip", in, 4*k/int(z.File[0].CompressedSize64), o, e, ok)
		return
	}
	head, sep := "", "\t"
	rows := lines(good)
	if strings.HasSuffix(in, ".arff") {
		k := strings.Index(good, "@DATA\n") + len("@DATA\n")
		head, rows, sep = good[:k], lines(good[k:]), ","
	}
	bad, how := damageRows(r, rows, sep)
	write(path, head+bad)
	c.Note("%v: %v", in, how)
	o, e, ok = c.tool(dir, j.tool, env, j.args...)
	failed("damaged data", in+": "+how, 0, o, e, ok)
}

var errInjected = errors.New("injected")

type failing struct {
	b bytes.Buffer
	n int
}

func (w *failing) Write(p []byte) (int, error) {
	if w.b.Len()+len(p) > w.n {
		k := w.n - w.b.Len()
		w.b.Write(p[:k])
		return k, errInjected
	}
	return w.b.Write(p)
}

type failingReader struct {
	text string
	r    *rand.Rand
}

func (f *failingReader) Read(p []byte) (int, error) {
	if f.text == "" {
		return 0, errInjected
	}
	n := len(f.text)
	if len(p) < n {
		n = len(p)
	}
	n = 1 + f.r.Intn(n)
	copy(p, f.text[:n])
	f.text = f.text[n:]
	return n, nil
}

func c33api(c *Ctx) {
	r := c.Rng
	t := genFailTable(r, 5+r.Intn(100))
	target := []string{"N:t", "C:t"}[r.Intn(2)]
	fm := t.FM()
	cases := someCases(r, t.N())
	f := &CF.Forest{Target: target}
	for i := 1 + r.Intn(6); i > 0; i-- {
		root := genTree(r, t, 1+r.Intn(5), func() string { return fmt.Sprintf("%d", r.Intn(3)) }, r.Intn(2) == 0)
		f.Trees = append(f.Trees, root.build(target, []float64{-1, 1.5}[r.Intn(2)]))
	}
	if r.Intn(2) == 0 {
		f.Intercept = 0.25
	}
	var text string
	for _, w := range []struct {
		name string
		f    func(io.Writer) error
	}{
		{"WriteCases", func(w io.Writer) error { return fm.WriteCases(w, cases) }},
		{"WriteArffCases", func(w io.Writer) error { return CF.WriteArffCases(fm, cases, target, w) }},
		{"WriteLibSvmCases", func(w io.Writer) error { return CF.WriteLibSvmCases(fm, cases, target, w) }},
		{"WriteLibSvm", func(w io.Writer) error { return CF.WriteLibSvm(fm, target, w) }},
		{"WriteForest", func(w io.Writer) error { return CF.NewForestWriter(w).WriteForest(f) }},
		{"WriteTree", func(w io.Writer) error { return CF.NewForestWriter(w).WriteTree(f.Trees[0], 0) }},
	} {
		all := &failing{n: 1 << 30}
		if err := w.f(all); err != nil {
			c.Fail("write", "%v fails: %v", w.name, err)
		}
		size := all.b.Len()
		if w.name == "WriteForest" {
			text = all.b.String()
		}
		// just enough space
		if err := w.f(&failing{n: size}); err != nil {
			c.Fail("write", "%v fails: %v", w.name, err)
		}
		for k := 0; k < 3 && size > 0; k++ {
			n := r.Intn(size)
			if k == 0 {
				n = size - 1
			}
			if err := w.f(&failing{n: n}); err == nil {
				c.Fail("unreported", "%v returns no error though writing fails after %v of %v bytes", w.name, n, size)
			}
			c.Obs("failing writers", 1)
			c.Sig("%v %v", w.name, 8*n/size)
		}
	}
	for k := 0; k < 4; k++ {
		n := r.Intn(len(text) + 1)
		if _, err := CF.NewForestReader(&failingReader{text[:n], r}).ReadForest(); err == nil {
			c.Fail("unreported", "ReadForest returns no error though reading fails after %v of %v bytes", n, len(text))
		}
		c.Obs("failing readers", 1)
		c.Sig("ReadForest %v", 8*n/(1+len(text)))
	}
}
