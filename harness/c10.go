package main

import (
	"bytes"
	"fmt"
	"math"
	"math/rand"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"

	CF "github.com/ryanbressler/CloudForest"
)

// C10: what training threads share loses nothing and is never read torn, whatever the
// schedule. The harness is built with the race detector for this check.

func init() {
	register(&Check{Prop: "C10", Quick: 1920, Thorough: 20000,
		Rule:        "2-12 go routines add seeded operations with random yields to one shared ballot box, running mean or sparse counter, or grow trees on shared data and vote with them, while others read; totals are compared with a sequential run of the same operations and the race detector watches all memory accesses; non trivial = operations of different go routines on the same case or cell overlapped (counted by the harness), distinct by (structure, threads, order in which the threads' first 64 operations finished)",
		Assumptions: []string{"schedules are those the Go scheduler and random yields produce"},
		Need:        []string{"cat votes", "num votes", "sum votes", "means", "pairs read", "counter", "trees", "overlapping operations"},
		Run:         c10})
}

// together runs f(0..n-1) at once and returns the order in which operations finished.
func together(c *Ctx, n int, ops int, f func(g int, r *rand.Rand, op int)) string {
	var wg sync.WaitGroup
	start := make(chan bool)
	var inside, overlaps, seq int64
	order := make([]int32, 64)
	yields := c.Rng.Intn(3)
	for g := 0; g < n; g++ {
		g := g
		r := rand.New(rand.NewSource(c.Rng.Int63()))
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			for op := 0; op < ops; op++ {
				if atomic.AddInt64(&inside, 1) > 1 {
					atomic.AddInt64(&overlaps, 1)
				}
				f(g, r, op)
				atomic.AddInt64(&inside, -1)
				if k := atomic.AddInt64(&seq, 1); k <= 64 {
					atomic.StoreInt32(&order[k-1], int32(g))
				}
				if yields > 0 && r.Intn(4*yields) == 0 {
					runtime.Gosched()
				}
			}
		}()
	}
	close(start)
	wg.Wait()
	c.Obs("overlapping operations", int(overlaps))
	return fmt.Sprint(order)
}

func c10(c *Ctx) {
	r := c.Rng
	threads := 2 + r.Intn(11)
	n := 1 + r.Intn(6)
	ops := 200
	if c.large(59) {
		ops = 2000 + r.Intn(4000)
		n = 1 + r.Intn(1000)
	}
	order := ""
	kind := c.Case % 6
	// the operations are drawn before so that they can be run one by one as well
	vs := make([][]ballot, threads)
	for g := range vs {
		vs[g] = genVotes(r, n, ops, func() string { return fmt.Sprint(r.Intn(5)) })
		for j := range vs[g] {
			vs[g][j].w = float64(1+r.Intn(8)) / 8
			if kind == 0 && r.Intn(3) == 0 {
				vs[g][j].pred = fmt.Sprintf("label%d", r.Intn(40))
			}
		}
	}
	switch kind {
	case 0, 1, 2:
		mk := func() CF.VoteTallyer { return CF.NewCatBallotBox(n) }
		name := "cat votes"
		if kind == 1 {
			mk, name = func() CF.VoteTallyer { return CF.NewNumBallotBox(n) }, "num votes"
		}
		if kind == 2 {
			mk, name = func() CF.VoteTallyer { return CF.NewSumBallotBox(n) }, "sum votes"
		}
		shared, alone := mk(), mk()
		order = together(c, threads, ops, func(g int, r *rand.Rand, op int) {
			v := vs[g][op]
			shared.Vote(v.i, v.pred, v.w)
			if r.Intn(20) == 0 {
				shared.Tally(r.Intn(n))
			}
		})
		for g := range vs {
			for _, v := range vs[g] {
				alone.Vote(v.i, v.pred, v.w)
			}
		}
		c.Obs(name, threads*ops)
		for i := 0; i < n; i++ {
			a, b := shared.Tally(i), alone.Tally(i)
			if a == b {
				continue
			}
			if kind == 1 && near(CF.ParseFloat(a), CF.ParseFloat(b), 100) {
				continue
			}
			c.Fail("lost", "%v: %d threads get %v for case %d, one thread gets %v", name, threads, a, i, b)
		}
		if kind == 0 {
			x, y := shared.(*CF.CatBallotBox), alone.(*CF.CatBallotBox)
			for i := 0; i < n; i++ {
				for l, k := range y.Map {
					if got := x.Box[i].Map[x.Map[l]]; got != y.Box[i].Map[k] {
						c.Fail("lost", "case %d has %v votes for %v instead of %v", i, got, l, y.Box[i].Map[k])
					}
				}
			}
		}
	case 3:
		if c.Case%12 == 3 {
			order = readTogether(c, threads, ops)
			break
		}
		ms := *CF.NewRunningMeans(n)
		order = together(c, threads, ops, func(g int, r *rand.Rand, op int) {
			v := vs[g][op]
			if v.w == 1 {
				ms[v.i].Add(CF.ParseFloat(v.pred))
			} else {
				ms[v.i].WeightedAdd(CF.ParseFloat(v.pred), v.w)
			}
			if r.Intn(10) == 0 {
				if mean, count := ms[v.i].Read(); math.IsNaN(mean) || count <= 0 {
					panic(failure{"torn", fmt.Sprintf("mean %v of %v", mean, count)})
				}
			}
		})
		s, w := make([]float64, n), make([]float64, n)
		for g := range vs {
			for _, v := range vs[g] {
				s[v.i] += v.w * CF.ParseFloat(v.pred)
				w[v.i] += v.w
			}
		}
		for i := range s {
			mean, count := ms[i].Read()
			if count != w[i] || w[i] > 0 && !near(mean, s[i]/w[i], 10) {
				c.Fail("lost", "%d threads: mean %v of weight %v instead of %v of %v", threads, mean, count, s[i]/w[i], w[i])
			}
		}
		c.Obs("means", threads*ops)
	case 4:
		sc := new(CF.SparseCounter)
		order = together(c, threads, ops, func(g int, r *rand.Rand, op int) {
			v := vs[g][op]
			sc.Add(v.i, int(v.w*8), 1+len(v.pred))
			if r.Intn(30) == 0 {
				sc.WriteTsv(&bytes.Buffer{})
			}
		})
		want := map[string]int{}
		for g := range vs {
			for _, v := range vs[g] {
				want[fmt.Sprintf("%d\t%d", v.i, int(v.w*8))] += 1 + len(v.pred)
			}
		}
		var lines []string
		for k, v := range want {
			lines = append(lines, fmt.Sprintf("%s\t%d", k, v))
		}
		var b bytes.Buffer
		sc.WriteTsv(&b)
		got := strings.Split(strings.TrimSpace(b.String()), "\n")
		sort.Strings(lines)
		sort.Strings(got)
		if fmt.Sprint(lines) != fmt.Sprint(got) {
			c.Fail("lost", "%d threads count %v instead of %v", threads, got, lines)
		}
		c.Obs("counter", threads*ops)
	case 5:
		order = growTogether(c, threads)
	}
	c.Sig("%d %d %v", kind, threads, order)
	c.Sample("structure %d, %d threads, order %v", kind, threads, order)
}

// readTogether has all threads but one read a mean while that one adds 1, 3, 5 ... to it,
// so that the mean is always equal to the count.
func readTogether(c *Ctx, threads, ops int) string {
	m := new(CF.RunningMean)
	m.Add(1)
	var torn atomic.Value
	order := together(c, threads, ops, func(g int, r *rand.Rand, op int) {
		if g == 0 {
			m.Add(float64(2*op + 3))
			return
		}
		if mean, count := m.Read(); !near(mean, count, 10) {
			torn.Store(fmt.Sprintf("mean %v of %v values read while 1, 3, 5 ... are added", mean, count))
		}
	})
	if t := torn.Load(); t != nil {
		c.Fail("torn", "%v", t)
	}
	c.Obs("pairs read", (threads-1)*ops)
	return order
}

// growTogether has threads grow trees on the same data with their own structures and
// vote with them, and compares with growing them one after the other.
func growTogether(c *Ctx, threads int) string {
	r := c.Rng
	kinds := []string{"numeric", "gini", "l1", "entropy", "regret", "wrf", "np", "dentropy", "hellinger", "ordinal", "trans"}
	s := genSearch(r, kinds[r.Intn(len(kinds))], 10+r.Intn(30), 2+r.Intn(5), func(r *rand.Rand) int {
		if r.Intn(4) == 0 {
			return genCats(r)
		}
		return smallCats(r)
	})
	if s == nil {
		return ""
	}
	c.Note("target %v %v", s.RT.Kind, s.RT.Col)
	c.Note("%v", s.T)
	var cands []int
	for i := range s.T.Cols {
		if i != s.Ti {
			cands = append(cands, i)
		}
	}
	o := genOpts(r, s, len(cands))
	o.evaloob = false
	trees := 3
	type job struct {
		cases []int
		seed  int64
	}
	jobs := make([][]job, threads)
	for g := range jobs {
		for k := 0; k < trees; k++ {
			jobs[g] = append(jobs[g], job{sampleOf(r, known(s.RT.Col)), r.Int63()})
		}
	}
	var mk func() CF.VoteTallyer
	if s.RT.Col.Num {
		mk = func() CF.VoteTallyer { return CF.NewNumBallotBox(s.T.N()) }
	} else {
		mk = func() CF.VoteTallyer { return CF.NewCatBallotBox(s.T.N()) }
	}
	imp := CF.NewRunningMeans(len(s.T.Cols))
	size := 3 * s.T.N()
	grow := func(j job, imp *[]*CF.RunningMean, bb CF.VoteTallyer) string {
		q := *s
		q.Al = CF.NewBestSplitAllocs(size, s.RT.T)
		tree := CF.NewTree()
		q.grow(tree, o, append([]int{}, j.cases...), append([]int{}, cands...), append([]int{}, j.cases...), imp, nil, j.seed)
		tree.Vote(s.FM, bb)
		tree.GetLeaves(s.FM, nil)
		return modelOf(tree.Root).String()
	}
	bb := mk()
	got := make([][]string, threads)
	order := together(c, threads, trees, func(g int, r *rand.Rand, op int) {
		got[g] = append(got[g], grow(jobs[g][op], imp, bb))
	})
	alone := mk()
	impAlone := CF.NewRunningMeans(len(s.T.Cols))
	for g := range jobs {
		for k, j := range jobs[g] {
			if t := grow(j, impAlone, alone); t != got[g][k] {
				c.Fail("tree", "thread %d of %d grew %v, alone it is %v (%v)", g, threads, got[g][k], t, o)
			}
		}
	}
	for i := 0; i < s.T.N(); i++ {
		a, b := bb.Tally(i), alone.Tally(i)
		if a != b && !(s.RT.Col.Num && near(CF.ParseFloat(a), CF.ParseFloat(b), maxAbs(s.RT.Col.V))) {
			c.Fail("votes", "case %d is predicted %v together and %v alone", i, a, b)
		}
	}
	for i := range *imp {
		m, k := (*imp)[i].Read()
		m2, k2 := (*impAlone)[i].Read()
		if k != k2 || !near(m, m2, m2) {
			c.Fail("importance", "feature %d: mean %v of %v together and %v of %v alone", i, m, k, m2, k2)
		}
	}
	if d := diffFM(s.T, s.FM); d != "" {
		c.Fail("data-modified", "%v", d)
	}
	c.Obs("trees", threads*trees)
	return order
}
