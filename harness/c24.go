package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"

	CF "github.com/ryanbressler/CloudForest"
)

// C24: leaf co-occurrence.

func init() {
	register(&Check{Prop: "C24", Quick: 2400, Thorough: 60000,
		Rule:        "a table and one to five forests of generated trees (missing branches, unseen values, inner predictions) are drawn from the seed, written to files and given to leafcount, built with the race detector, on one to six threads; its three outputs are compared with counts made by the harness routing all cases through all trees; non trivial = two cases share a leaf, distinct by the outputs",
		Assumptions: []string{"labels don't contain commas, every file holds one forest"},
		Need:        []string{"runs of leafcount", "trees", "shared leaves", "branches", "splits", "several threads", "several files", "data without a feature", "cases dropped"},
		Run:         c24})
}

func c24(c *Ctx) {
	r := c.Rng
	n := 1 + r.Intn(20)
	large := c.large(97)
	if large {
		n = 10 + r.Intn(30)
		if r.Intn(4) == 0 {
			n = 300 + r.Intn(100)
		}
	}
	t := genTable(r, n, 1+r.Intn(5), smallCats)
	if r.Intn(4) == 0 {
		t.Cols = append(t.Cols, genDistinct(r, "N:deep", n))
	}
	t.canonical()
	for _, col := range t.Cols {
		if !col.Num && len(col.Cats) == 0 {
			return
		}
	}
	dir, done := c.dir()
	defer done()
	full := t
	if len(t.Cols) > 1 && r.Intn(4) == 0 {
		k := r.Intn(len(t.Cols))
		t = &Table{Labels: t.Labels, Cols: append(t.Cols[:k:k], t.Cols[k+1:]...)}
		c.Obs("data without a feature", 1)
	}
	write(filepath.Join(dir, "data.afm"), t.AFM())
	c.Note("%v", t)
	nf := 1
	if r.Intn(2) == 0 {
		nf = 2 + r.Intn(4)
		c.Obs("several files", 1)
	}
	together := map[[2]int]int{}
	through := map[[2]int]int{}
	splits := map[string][]string{}
	at := map[string]int{}
	for j, col := range t.Cols {
		at[col.Name] = j
	}
	var files []string
	for k := 0; k < nf; k++ {
		name := fmt.Sprintf("f%d.sf", k)
		files = append(files, name)
		f := &CF.Forest{Target: "C:target"}
		trees := 1 + r.Intn(6)
		if large {
			if trees = 300 + r.Intn(200); n >= 300 {
				trees = 1 + r.Intn(3)
			}
		}
		for i := trees; i > 0; i-- {
			pred := func() string { return []string{"p0", "p1", "p2", "p3", ""}[r.Intn(5)] }
			root := genTree(r, full, 1+r.Intn(5), pred, r.Intn(2) == 0)
			if last := t.Cols[len(t.Cols)-1]; last.Name == "N:deep" && r.Intn(4) == 0 {
				root = genChain(r, last, n, pred)
			}
			f.Trees = append(f.Trees, root.build("C:target", -1))
			c.Note("%v", root)
			c.Obs("trees", 1)
			leaves := map[*RNode][]int{}
			for i := 0; i < n; i++ {
				l := root.reach(t, i)
				if l == nil {
					c.Obs("cases dropped", 1)
				} else {
					leaves[l] = append(leaves[l], i)
				}
				for x := root; x != nil && x.Feature != ""; {
					var col *Col
					if k, ok := at[x.Feature]; ok {
						through[[2]int{i, k}]++
						col = t.Cols[k]
					}
					switch x.side(col, i) {
					case 'L':
						x = x.L
					case 'R':
						x = x.R
					default:
						x = x.M
					}
				}
			}
			for _, cs := range leaves {
				for _, i := range cs {
					for _, j := range cs {
						together[[2]int{i, j}]++
					}
				}
			}
			root.walk(func(x *RNode, _ string) {
				if x.Feature == "" {
					return
				}
				s := strings.Join(keys(x.Left), ",")
				if x.Num {
					s = fmt.Sprint(x.Value)
				}
				splits[x.Feature] = append(splits[x.Feature], s)
			}, "")
		}
		w, err := os.Create(filepath.Join(dir, name))
		if err != nil {
			panic(err)
		}
		CF.NewForestWriter(w).WriteForest(f)
		w.Close()
	}
	threads := 1
	if r.Intn(2) == 0 {
		threads = 2 + r.Intn(5)
		c.Obs("several threads", 1)
	}
	args := []string{"-fm", "data.afm", "-rfpred", strings.Join(files, ","), "-threads", fmt.Sprint(threads)}
	if r.Intn(2) == 0 {
		args = append(args, "-leaves", "l.tsv")
	}
	b, s := r.Intn(3) > 0, r.Intn(3) > 0
	if b {
		args = append(args, "-branches", "b.tsv")
	}
	if s {
		args = append(args, "-splits", "s.json")
	}
	c.Note("leafcount %q", args)
	c.must(dir, "leafcount-race", nil, args...)
	lname := "leaves.tsv"
	if len(args) > 6 && args[6] == "-leaves" {
		lname = "l.tsv"
	}
	c.Obs("shared leaves", c.counts(filepath.Join(dir, lname), "leaves", together))
	if b {
		c.Obs("branches", c.counts(filepath.Join(dir, "b.tsv"), "branches", through))
	}
	if s {
		var got map[string][]string
		text := c.read(filepath.Join(dir, "s.json"))
		if err := json.Unmarshal([]byte(text), &got); err != nil {
			c.Fail("splits", "%v in %q", err, text)
		}
		for f, l := range got {
			for k, e := range l {
				if !full.Col(f).Num {
					p := strings.Split(e, ",")
					sort.Strings(p)
					l[k] = strings.Join(p, ",")
				}
			}
			sort.Strings(l)
			want := append([]string{}, splits[f]...)
			sort.Strings(want)
			if strings.Join(l, "|") != strings.Join(want, "|") {
				c.Fail("splits", "%q of %v instead of %q", l, f, want)
			}
			c.Obs("splits", len(l))
		}
		if len(got) != len(splits) {
			c.Fail("splits", "of %d features instead of %d", len(got), len(splits))
		}
	}
	for p := range together {
		if p[0] != p[1] {
			c.Sig("%v %v", together, through)
			break
		}
	}
	c.Sample("%q: %d pairs", args, len(together))
}

// counts compares a file of sparse counts with those expected and returns how many there are.
func (c *Ctx) counts(name, key string, want map[[2]int]int) int {
	got := map[[2]int]int{}
	for _, f := range c.tsv(name, 3) {
		i, e1 := strconv.Atoi(f[0])
		j, e2 := strconv.Atoi(f[1])
		k, e3 := strconv.Atoi(f[2])
		if e1 != nil || e2 != nil || e3 != nil {
			c.Fail(key, "line %q", f)
		}
		if _, ok := got[[2]int{i, j}]; ok {
			c.Fail(key, "%d and %d occur twice", i, j)
		}
		got[[2]int{i, j}] = k
		if want[[2]int{i, j}] != k {
			c.Fail(key, "%d for %d and %d instead of %d", k, i, j, want[[2]int{i, j}])
		}
	}
	if len(got) != len(want) {
		for p, k := range want {
			if _, ok := got[p]; !ok {
				c.Fail(key, "none for %v instead of %d", p, k)
			}
		}
	}
	return len(got)
}
