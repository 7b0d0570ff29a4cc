// Command harness runs the runtime monitors of /verif against CloudForest.
//
// Every case of a check is generated from (seed, property, case index) alone, the real
// code is executed on it and an oracle written independently of the code observes what
// it did. The first violation of a shard is written to the shard's result file.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"io"
	"log"
	"math/rand"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync/atomic"
	"time"
)

// Ctx is what a case of a check gets to see.
type Ctx struct {
	Prop string
	Tier string
	Seed int64
	Case int
	Rng  *rand.Rand
	Bin  string // directory with the command line tools, "" if they aren't needed
	Tmp  string // scratch directory of the shard
	rep  *Report
	note []string
}

// Check is one monitor.
type Check struct {
	Prop            string
	Quick, Thorough int
	Rule            string
	Assumptions     []string
	Run             func(c *Ctx)
	Need            []string // observations every complete run has to have made
}

// Report is the result of one shard.
type Report struct {
	Prop       string
	Tier       string
	Seed       int64
	Evals      int
	Obs        map[string]int
	Sigs       map[uint64]bool `json:"-"`
	SigList    []uint64
	Samples    []string
	Violations []Violation
	Done       bool
}

// Violation is a case in which the oracle disagreed with the code.
type Violation struct {
	Key    string
	Case   int
	Detail string
}

type failure struct {
	key, detail string
}

var checks = map[string]*Check{}

func register(c *Check) { checks[c.Prop] = c }

// Fail reports a violation. key names what failed, it is what known findings match.
func (c *Ctx) Fail(key, format string, args ...interface{}) {
	panic(failure{key, fmt.Sprintf(format, args...)})
}

// Note adds context to the report of a violation of this case.
func (c *Ctx) Note(format string, args ...interface{}) {
	c.note = append(c.note, fmt.Sprintf(format, args...))
}

// large tells which few of the cases are to be much larger than the others: one of p, a
// prime so that they are spread over all shards and kinds of cases.
func (c *Ctx) large(p int) bool {
	if c.Case%p != p/3 {
		return false
	}
	c.Obs("large cases", 1)
	return true
}

// Obs counts n observations of a kind of event.
func (c *Ctx) Obs(kind string, n int) { c.rep.Obs[kind] += n }

// Sig records the signature of a non trivial observation.
func (c *Ctx) Sig(format string, args ...interface{}) {
	h := fnv.New64a()
	fmt.Fprintf(h, format, args...)
	c.rep.Sigs[h.Sum64()] = true
}

// Sample keeps a few cases to show in the evidence.
func (c *Ctx) Sample(format string, args ...interface{}) {
	if len(c.rep.Samples) < 3 {
		s := fmt.Sprintf(format, args...)
		if len(s) > 1200 {
			s = s[:1200] + "..."
		}
		c.rep.Samples = append(c.rep.Samples, fmt.Sprintf("case %d: %s", c.Case, s))
	}
}

func caseSeed(seed int64, prop string, i int) int64 {
	h := fnv.New64a()
	fmt.Fprintf(h, "%d/%s/%d", seed, prop, i)
	return int64(h.Sum64() >> 1)
}

func runCase(ck *Check, c *Ctx) (v *Violation) {
	defer func() {
		if r := recover(); r != nil {
			if f, ok := r.(failure); ok {
				v = &Violation{f.key, c.Case, f.detail}
			} else {
				v = &Violation{"panic", c.Case, fmt.Sprintf("panic: %v\n%s", r, debug.Stack())}
			}
			if len(c.note) > 0 {
				v.Detail += "\n" + strings.Join(c.note, "\n")
			}
		}
	}()
	ck.Run(c)
	return nil
}

func main() {
	if len(os.Args) > 3 && os.Args[1] == "-fsize" {
		fsize(os.Args[2:])
	}
	prop := flag.String("prop", "", "property")
	tier := flag.String("tier", "quick", "quick or thorough")
	seed := flag.Int64("seed", 1, "seed")
	shard := flag.Int("shard", 0, "shard")
	shards := flag.Int("shards", 1, "shards")
	out := flag.String("out", "", "result file")
	state := flag.String("state", "", "file that always holds the running case")
	only := flag.Int("case", -1, "only run this case")
	ncases := flag.Int("n", 0, "number of cases instead of the tier's")
	bin := flag.String("bin", "", "command line tools")
	tmp := flag.String("tmp", "", "scratch directory")
	list := flag.Bool("list", false, "list checks as json")
	limit := flag.Int("limit", 150, "seconds before a case counts as hanging")
	verbose := flag.Bool("v", false, "log")
	flag.Parse()

	if *list {
		type d struct {
			Prop, Rule      string
			Quick, Thorough int
			Assumptions     []string
			Need            []string
		}
		var ds []d
		for _, ck := range checks {
			ds = append(ds, d{ck.Prop, ck.Rule, ck.Quick, ck.Thorough, ck.Assumptions, ck.Need})
		}
		sort.Slice(ds, func(i, j int) bool { return ds[i].Prop < ds[j].Prop })
		json.NewEncoder(os.Stdout).Encode(ds)
		return
	}
	ck := checks[*prop]
	if ck == nil {
		fmt.Fprintln(os.Stderr, "unknown property", *prop)
		os.Exit(3)
	}
	if !*verbose {
		log.SetOutput(io.Discard)
	}
	if runtime.GOMAXPROCS(0) < 4 {
		runtime.GOMAXPROCS(4)
	}
	n := ck.Quick
	if *tier == "thorough" {
		n = ck.Thorough
	}
	if *ncases > 0 {
		n = *ncases
	}
	rep := &Report{Prop: *prop, Tier: *tier, Seed: *seed, Obs: map[string]int{}, Sigs: map[uint64]bool{}}
	var sf *os.File
	if *state != "" {
		var err error
		if sf, err = os.Create(*state); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
	}
	var started, current int64
	go func() {
		for {
			time.Sleep(time.Second)
			s := atomic.LoadInt64(&started)
			var ms runtime.MemStats
			if runtime.ReadMemStats(&ms); ms.HeapAlloc > 3<<30 {
				buf := make([]byte, 1<<16)
				buf = buf[:runtime.Stack(buf, true)]
				fmt.Fprintf(os.Stderr, "MEMORY of %d bytes used by case %d\n%s\n", ms.HeapAlloc, atomic.LoadInt64(&current), buf)
				os.Exit(5)
			}
			if s != 0 && time.Now().UnixNano()-s > int64(*limit)*1e9 {
				buf := make([]byte, 1<<16)
				buf = buf[:runtime.Stack(buf, true)]
				fmt.Fprintf(os.Stderr, "HANG case %d\n%s\n", atomic.LoadInt64(&current), buf)
				os.Exit(4)
			}
		}
	}()
	for i := *shard; i < n; i += *shards {
		if *only >= 0 {
			i = *only
		}
		if sf != nil {
			sf.WriteAt([]byte(fmt.Sprintf("%-20d", i)), 0)
		}
		cs := caseSeed(*seed, *prop, i)
		rand.Seed(cs)
		c := &Ctx{Prop: *prop, Tier: *tier, Seed: *seed, Case: i, Rng: rand.New(rand.NewSource(cs ^ 0x5bd1e995)), Bin: *bin, Tmp: *tmp, rep: rep}
		atomic.StoreInt64(&current, int64(i))
		atomic.StoreInt64(&started, time.Now().UnixNano())
		v := runCase(ck, c)
		atomic.StoreInt64(&started, 0)
		rep.Evals++
		if v != nil {
			rep.Violations = append(rep.Violations, *v)
			if len(rep.Violations) >= 5 {
				break
			}
		}
		if *only >= 0 {
			break
		}
	}
	rep.Done = true
	for s := range rep.Sigs {
		rep.SigList = append(rep.SigList, s)
	}
	f := os.Stdout
	if *out != "" {
		var err error
		if f, err = os.Create(*out); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
	}
	if err := json.NewEncoder(f).Encode(rep); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	f.Close()
}
