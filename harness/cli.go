package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"io/ioutil"
	"math"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"time"

	CF "github.com/ryanbressler/CloudForest"
)

// Running the command line tools and reading what they leave behind.

// dir makes an empty directory for the case, done removes it.
func (c *Ctx) dir() (d string, done func()) {
	d = filepath.Join(c.Tmp, fmt.Sprintf("case%d", c.Case))
	os.RemoveAll(d)
	if err := os.MkdirAll(d, 0777); err != nil {
		panic(err)
	}
	return d, func() { os.RemoveAll(d) }
}

// tool runs a command line tool in dir and returns what it prints.
func (c *Ctx) tool(dir, name string, env []string, args ...string) (out, errout string, ok bool) {
	return c.exec(dir, filepath.Join(c.Bin, name), name, env, args...)
}

func (c *Ctx) exec(dir, path, name string, env []string, args ...string) (out, errout string, ok bool) {
	ctx, cancel := context.WithTimeout(context.Background(), 240*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, path, args...)
	cmd.Dir = dir
	cmd.Env = append(os.Environ(), env...)
	var o, e bytes.Buffer
	cmd.Stdout, cmd.Stderr = &o, &e
	err := cmd.Run()
	c.Obs("runs of "+strings.TrimSuffix(name, "-race"), 1)
	if ctx.Err() != nil {
		c.Fail("hang", "%v %q doesn't end", name, args)
	}
	if err != nil && strings.Contains(e.String(), "DATA RACE") {
		c.Fail("race", "%v %q:\n%.6000s", name, args, e.String())
	}
	return o.String(), e.String(), err == nil
}

// must runs a tool that has to succeed.
func (c *Ctx) must(dir, name string, env []string, args ...string) string {
	o, e, ok := c.tool(dir, name, env, args...)
	if !ok {
		c.Fail("crash", "%v %q fails:\n%.3000s\n%.5000s", name, args, o, e)
	}
	return o
}

func write(name, text string) {
	if err := ioutil.WriteFile(name, []byte(text), 0666); err != nil {
		panic(err)
	}
}

// read returns the text of a file a tool has to have written.
func (c *Ctx) read(name string) string {
	b, err := ioutil.ReadFile(name)
	if err != nil {
		c.Fail("output", "%v", err)
	}
	return string(b)
}

func lines(s string) []string {
	s = strings.TrimRight(s, "\n")
	if s == "" {
		return nil
	}
	return strings.Split(s, "\n")
}

// printed finds the rest of the line a tool printed after a prefix.
func (c *Ctx) printed(out, prefix string) string {
	for _, l := range strings.Split(out, "\n") {
		if strings.HasPrefix(l, prefix) {
			return strings.TrimSpace(strings.TrimPrefix(l, prefix))
		}
	}
	c.Fail("output", "nothing printed after %q in:\n%.2000s", prefix, out)
	return ""
}

func (c *Ctx) float(s string) float64 {
	f, err := strconv.ParseFloat(s, 64)
	if err != nil {
		c.Fail("output", "%q isn't a number", s)
	}
	return f
}

// canonical numbers the categories of a column in the order a reader of the data meets
// them.
func canonical(c *Col) {
	if c.Num {
		return
	}
	to := map[int]int{}
	var cats []string
	for i, k := range c.K {
		if c.Miss[i] {
			c.K[i] = 0
			continue
		}
		if _, ok := to[k]; !ok {
			to[k] = len(cats)
			cats = append(cats, c.Cats[k])
		}
		c.K[i] = to[k]
	}
	c.Cats = cats
}

func (t *Table) canonical() {
	for _, c := range t.Cols {
		canonical(c)
		c.Rand = false
	}
}

// gtree is a tree growforest grew, as the hook recorded it.
type gtree struct {
	Forest int
	Weight float64
	Cases  []int
	Root   *RNode
}

type logNode struct {
	Pred     string
	Splitter *struct {
		Feature   string
		Numerical bool
		Value     string
		Left      []string
	}
	Left, Right, Missing *logNode
}

func (n *logNode) model() *RNode {
	if n == nil {
		return nil
	}
	m := &RNode{Pred: n.Pred, L: n.Left.model(), R: n.Right.model(), M: n.Missing.model()}
	if s := n.Splitter; s != nil {
		m.Feature, m.Num = s.Feature, s.Numerical
		if s.Numerical {
			m.Value, _ = strconv.ParseFloat(s.Value, 64)
		} else {
			m.Left = map[string]bool{}
			for _, k := range s.Left {
				m.Left[k] = true
			}
		}
	}
	return m
}

func (c *Ctx) readLog(name string) (ts []*gtree) {
	for _, l := range lines(c.read(name)) {
		var rec struct {
			Forest int
			Weight string
			Cases  []int
			Root   *logNode
		}
		if err := json.Unmarshal([]byte(l), &rec); err != nil {
			c.Fail("log", "%v in %q", err, l)
		}
		w, _ := strconv.ParseFloat(rec.Weight, 64)
		ts = append(ts, &gtree{rec.Forest, w, rec.Cases, rec.Root.model()})
	}
	return
}

// job is a run of growforest.
type job struct {
	T      *Table
	Target *Col
	RT     *RefTarget
	Ti     int
	Kind   string
	O      growOpts
	Trees  int
	Cores  int
	Sample int
	Nobag  bool
	Bal    bool
	BalBy  string
	Args   []string
	Dir    string
	Log    []*gtree
	Out    string
	Seed   int64 // of the target's parameters
	Data   bool  // record the data too
}

// genJob draws a learning problem and options for growforest.
func genJob(c *Ctx, kinds []string, n, m int) *job {
	r := c.Rng
	kind := kinds[r.Intn(len(kinds))]
	large := c.large(397)
	if r.Intn(20) == 0 {
		n = 1 + r.Intn(5)
	}
	if large {
		n, m = 100+r.Intn(200), 10+r.Intn(60)
	}
	s := genSearch(r, kind, n, m, func(r *rand.Rand) int {
		if r.Intn(6) == 0 {
			return genCats(r)
		}
		return smallCats(r)
	})
	if s == nil {
		return nil
	}
	t := s.T
	tc := t.Cols[s.Ti]
	if r.Intn(15) == 0 { // hardly any case has a target
		for i := range tc.Miss {
			tc.Miss[i] = tc.Miss[i] || r.Intn(4) != 0
		}
		if len(known(tc)) < 1 {
			return nil
		}
	}
	t.canonical()
	if !tc.Num && len(tc.Cats) < 2 || kind == "hellinger" && len(tc.Cats) != 2 {
		return nil
	}
	for _, col := range t.Cols {
		if !col.Num && len(col.Cats) == 0 {
			return nil
		}
	}
	j := &job{T: t, Target: tc, Ti: s.Ti, Kind: kind}
	j.Seed = r.Int63()
	j.RT = makeTarget(rand.New(rand.NewSource(j.Seed)), kind, tc, tc.Feature(), t.FM(), t)
	s.RT = j.RT
	j.O = genOpts(r, s, len(t.Cols)-1)
	j.O.jungle = false
	j.Trees = 1 + r.Intn(12)
	if large {
		j.Trees = 30 + r.Intn(300)
	}
	j.Cores = 1
	if r.Intn(2) == 0 {
		j.Cores = 2 + r.Intn(7)
	}
	j.Sample = len(known(tc))
	j.Args = append(j.Args, j.RT.Args...)
	if r.Intn(3) == 0 {
		j.Sample = 1 + r.Intn(len(known(tc)))
		if r.Intn(4) == 0 { // more than there are
			j.Sample += r.Intn(2 * len(tc.Miss))
		}
		j.Args = append(j.Args, "-nSamples", fmt.Sprint(j.Sample))
	}
	switch {
	case r.Intn(4) == 0:
		j.Nobag = true
		j.Args = append(j.Args, "-nobag")
	case !tc.Num && r.Intn(4) == 0:
		j.Bal = true
		j.Args = append(j.Args, "-balance")
	}
	if j.O.mTry < 1 {
		j.O.mTry = 1
	}
	j.Args = append(j.Args, "-mTry", fmt.Sprint(j.O.mTry), "-leafSize", fmt.Sprint(j.O.leaf))
	if j.O.depth > 0 {
		j.Args = append(j.Args, "-maxDepth", fmt.Sprint(j.O.depth))
	}
	for k, on := range []bool{j.O.splitmissing, j.O.force, j.O.vet, j.O.evaloob, j.O.rnd} {
		if on {
			j.Args = append(j.Args, []string{"-splitmissing", "-force", "-vet", "-evaloob", "-extra"}[k])
		}
	}
	return j
}

// jungle are the options that grow a jungle. Those of targets with scores merge nearly all
// nodes of a level, so the number of paths, all of which are walked when voting and
// recording, doubles level by level unless their depth is limited.
func (j *job) jungle() []string {
	if j.RT.Score && (j.O.depth == 0 || j.O.depth > 6) {
		j.Args = replaceArg(j.Args, "-maxDepth")
		j.O.depth = 6
		return []string{"-jungle", "-maxDepth", "6"}
	}
	return []string{"-jungle"}
}

// run grows the forest of the job and reads the record of it.
func (j *job) run(c *Ctx, bin string, more ...string) {
	write(filepath.Join(j.Dir, "train.afm"), j.T.AFM())
	args := append([]string{"-train", "train.afm", "-target", j.Target.Name, "-nTrees", fmt.Sprint(j.Trees), "-nCores", fmt.Sprint(j.Cores)}, j.Args...)
	args = append(args, more...)
	c.Note("growforest %q", args)
	c.Note("%v", j.T)
	env := []string{"VERIF_TREELOG=" + filepath.Join(j.Dir, "trees.log")}
	if j.Data {
		env = append(env, "VERIF_DATALOG="+filepath.Join(j.Dir, "data.log"))
	}
	if j.Cores > 1 {
		env = append(env, fmt.Sprintf("VERIF_DELAYS=%d", c.Rng.Int31()))
	}
	j.Out = c.must(j.Dir, bin, env, args...)
	j.Log = c.readLog(filepath.Join(j.Dir, "trees.log"))
	c.Obs("trees", len(j.Log))
}

// trained has growforest grow a forest and checks the leaves and the roots of its trees,
// so that the options given to growforest are known to reach what grows trees.
func (c *Ctx) trained() {
	r := c.Rng
	j := genJob(c, moreKinds(c), 8+r.Intn(40), 1+r.Intn(6))
	if j == nil {
		return
	}
	dir, done := c.dir()
	defer done()
	j.Dir = dir
	var more []string
	jungle := !j.O.vet && r.Intn(8) == 0
	if jungle {
		more = j.jungle()
	}
	j.run(c, "growforest", more...)
	j.checkTrees(c, 1, j.Trees)
	j.checkRoots(c, nil)
	j.checkOobRoots(c, nil)
	if !jungle {
		j.checkLeaves(c)
	}
	c.Obs("runs of growforest", 1)
}

// readForest reads a forest written by growforest with the real reader.
func readForest(c *Ctx, name string) *CF.Forest {
	f, err := os.Open(name)
	if err != nil {
		c.Fail("output", "%v", err)
	}
	defer f.Close()
	forest, err := CF.NewForestReader(f).ReadForest()
	if err != nil {
		c.Fail("read", "%v can't be read: %v", name, err)
	}
	return forest
}

// treeText is all there is to know about a tree.
func treeText(n *RNode, weight float64) string { return fmt.Sprintf("weight %v: %v", weight, n) }

func texts(ts []*gtree) []string {
	var s []string
	for _, t := range ts {
		s = append(s, treeText(t.Root, t.Weight))
	}
	sort.Strings(s)
	return s
}

func forestTexts(f *CF.Forest) []string {
	var s []string
	for _, t := range f.Trees {
		s = append(s, treeText(modelOf(t.Root), t.Weight))
	}
	sort.Strings(s)
	return s
}

func diffTexts(a, b []string) string {
	for i := 0; i < len(a) || i < len(b); i++ {
		switch {
		case i >= len(a):
			return fmt.Sprintf("%d instead of %d: %v", len(b), len(a), b[i])
		case i >= len(b):
			return fmt.Sprintf("%d instead of %d: no %v", len(b), len(a), a[i])
		case a[i] != b[i]:
			return fmt.Sprintf("%v instead of %v", b[i], a[i])
		}
	}
	return ""
}

// poll is the harness' own ballot box for the votes of trees on a table.
type poll struct {
	votes []map[string]float64
	sum   []float64
	w     []float64
}

func newPoll(n int) *poll {
	p := &poll{make([]map[string]float64, n), make([]float64, n), make([]float64, n)}
	for i := range p.votes {
		p.votes[i] = map[string]float64{}
	}
	return p
}

// cast lets a tree vote on the case.
func (p *poll) cast(root *RNode, weight float64, t *Table, i int) {
	leaf := root.reach(t, i)
	if leaf == nil {
		return
	}
	if weight < 0 {
		weight = 1
	}
	p.votes[i][leaf.Pred] += weight
	if x, err := strconv.ParseFloat(leaf.Pred, 64); err == nil && !math.IsNaN(x) {
		p.sum[i] += weight * x
		p.w[i] += weight
	}
}

// mode checks that got is a label with the most votes.
func (p *poll) mode(i int, got string) string {
	best := 0.0
	for _, w := range p.votes[i] {
		best = math.Max(best, w)
	}
	if best == 0 {
		if got != "NA" {
			return fmt.Sprintf("predicted %q without votes", got)
		}
		return ""
	}
	if p.votes[i][got] < best-1e-9*(1+best) {
		return fmt.Sprintf("predicted %q with votes %v", got, p.votes[i])
	}
	return ""
}

// predictions are what is predicted from the votes so far, clear unless votes tie.
func (p *poll) predictions(num bool) (preds []string, clear bool) {
	clear = true
	for i := range p.votes {
		pred := "NA"
		if num && p.w[i] > 0 {
			pred = strconv.FormatFloat(p.sum[i]/p.w[i], 'g', -1, 64)
		}
		if !num {
			best := 0.0
			for l, w := range p.votes[i] {
				if math.Abs(w-best) <= 1e-9*(1+best) && best > 0 {
					clear = false
				}
				if w > best {
					best, pred = w, l
				}
			}
			for l, w := range p.votes[i] {
				if l != pred && math.Abs(w-best) <= 1e-9*(1+best) {
					clear = false
				}
			}
		}
		preds = append(preds, pred)
	}
	return
}

// mean checks that got is the mean vote.
func (p *poll) mean(i int, got string, scale float64) string {
	if p.w[i] == 0 {
		if got != "NA" {
			return fmt.Sprintf("predicted %q without votes", got)
		}
		return ""
	}
	return predFloat(p.sum[i]/p.w[i], scale, got)
}

// balanced is the balanced error of predicted labels.
func balanced(target *Col, preds []string) float64 {
	right, total := map[string]float64{}, map[string]float64{}
	for i := range target.Miss {
		if target.Miss[i] {
			continue
		}
		l := target.Label(i)
		total[l]++
		if preds[i] == l {
			right[l]++
		}
	}
	e := 1.0
	for l := range total {
		e -= right[l] / total[l] / float64(len(total))
	}
	return e
}

// relative is the mean squared error of predictions in units of the variance of the target.
func relative(target *Col, preds []string) (e float64, ok bool) {
	cnt := 0.0
	for i := range target.Miss {
		if x, err := strconv.ParseFloat(preds[i], 64); err == nil && !target.Miss[i] {
			e += (x - target.V[i]) * (x - target.V[i])
			cnt++
		}
	}
	k := known(target)
	v := sse(target, k) / float64(len(k))
	if cnt == 0 || v <= 1e-9*maxAbs(target.V)*maxAbs(target.V) {
		return 0, false
	}
	return e / cnt / v, true
}

// tsv splits the lines of a file into n columns.
func (c *Ctx) tsv(name string, n int) [][]string {
	var rows [][]string
	for _, l := range lines(c.read(name)) {
		f := strings.Split(l, "\t")
		if len(f) != n {
			c.Fail("output", "%d columns instead of %d in %q of %v", len(f), n, l, name)
		}
		rows = append(rows, f)
	}
	return rows
}

var reNum = regexp.MustCompile(`-?[0-9.]+(e[-+]?[0-9]+)?|NaN|[-+]?Inf`)

// cliKinds are the targets growforest selects without boosting.
var cliKinds = []string{"numeric", "numeric", "l1", "ordinal", "gini", "gini", "entropy", "regret", "wrf", "np", "dentropy", "hellinger", "trans"}

func hasLine(out, prefix string) bool {
	for _, l := range strings.Split(out, "\n") {
		if strings.HasPrefix(l, prefix) {
			return true
		}
	}
	return false
}

// moreKinds are those and density estimation, the predictions of which aren't labels.
func moreKinds(c *Ctx) []string {
	if c.Rng.Intn(15) == 0 {
		c.Obs("density estimation", 1)
		return []string{"density"}
	}
	return cliKinds
}
