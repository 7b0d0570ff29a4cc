package main

import (
	"fmt"
	"math"
	"math/rand"
	"strconv"

	CF "github.com/ryanbressler/CloudForest"
)

// C09: tallies of votes and the error measures calculated from them.

func init() {
	register(&Check{Prop: "C09", Quick: 1200000, Thorough: 20000000,
		Rule:        "a list of weighted votes over the cases of a categorical or numerical target is drawn from the seed (some cases without votes, some targets missing, ties, zero weights), given to the three kinds of ballot boxes in two orders and compared with sums kept by the harness; non trivial = at least one case with competing votes, distinct by (box, cases, votes, outcome)",
		Assumptions: []string{"weights that decide ties are multiples of 1/8 so that sums are exact"},
		Need:        []string{"cat votes", "num votes", "sum votes", "ties", "cases without votes", "missing targets", "balanced errors", "squared errors"},
		Run:         c09})
}

type ballot struct {
	i    int
	pred string
	w    float64
}

func genVotes(r *rand.Rand, n, k int, pred func() string) (vs []ballot) {
	exact := r.Intn(3) != 0
	for j := 0; j < k; j++ {
		w := 1.0
		switch r.Intn(3) {
		case 0:
			w = float64(r.Intn(17)) / 8
		case 1:
			if !exact {
				w = r.Float64() * 3
			}
		}
		vs = append(vs, ballot{r.Intn(n), pred(), w})
	}
	return
}

func cast(bb CF.VoteTallyer, vs []ballot, r *rand.Rand) {
	for _, j := range r.Perm(len(vs)) {
		bb.Vote(vs[j].i, vs[j].pred, vs[j].w)
	}
}

func c09(c *Ctx) {
	r := c.Rng
	n := 1 + r.Intn(12)
	k := r.Intn(6 * n)
	switch {
	case c.large(9973):
		k = 66000 + r.Intn(20000)
	case c.large(19997):
		n = 66000 + r.Intn(20000)
		k = r.Intn(3 * n)
	}
	switch r.Intn(3) {
	case 0:
		nc := 2 + r.Intn(4)
		target := genCat(r, "C:t", n, nc, missRate(r))
		labels := append([]string{}, target.Cats...)
		if r.Intn(3) == 0 {
			labels = append(labels, "other")
		}
		vs := genVotes(r, n, k, func() string { return labels[r.Intn(len(labels))] })
		c.Note("target %v votes %v", target, vs)
		box, again := CF.NewCatBallotBox(n), CF.NewCatBallotBox(n)
		cast(box, vs, r)
		cast(again, vs, r)
		sums := make([]map[string]float64, n)
		for i := range sums {
			sums[i] = map[string]float64{}
		}
		for _, v := range vs {
			sums[v.i][v.pred] += v.w
		}
		right, total := map[string]float64{}, map[string]float64{}
		unsure := false
		out := ""
		for i, m := range sums {
			best := 0.0
			for _, s := range m {
				best = math.Max(best, s)
			}
			got := box.Tally(i)
			out += got + " "
			if best == 0 {
				c.Obs("cases without votes", 1)
				if got != "NA" {
					c.Fail("novotes", "case %d without votes is predicted %q", i, got)
				}
			} else {
				if m[got] < best-1e-9 {
					c.Fail("mode", "case %d predicted %q with votes %v", i, got, m)
				}
				tied, first := 0, ""
				close := 0
				for l, s := range m {
					if s == best {
						tied++
						if first == "" || l < first {
							first = l
						}
					}
					if s > best-1e-9 {
						close++
					}
				}
				if close > tied {
					unsure = true
				} else {
					if tied > 1 {
						c.Obs("ties", 1)
					}
					if got != first {
						c.Fail("tie", "case %d predicted %q with votes %v", i, got, m)
					}
					if g := again.Tally(i); g != got {
						c.Fail("order", "case %d predicted %q or %q depending on the order of votes", i, got, g)
					}
				}
			}
			if !target.Miss[i] {
				total[target.Label(i)]++
				if got == target.Label(i) {
					right[target.Label(i)]++
				}
			} else {
				c.Obs("missing targets", 1)
			}
		}
		if len(total) > 0 {
			want := 1.0
			for l := range total {
				want -= right[l] / total[l] / float64(len(total))
			}
			f := target.CatF()
			if got := box.TallyError(f); !near(got, want, 1) {
				c.Fail("balanced-error", "balanced error %v instead of %v, predictions %v", got, want, out)
			}
			if got := again.TallyError(f); !unsure && !near(got, want, 1) {
				c.Fail("order", "balanced error %v instead of %v with votes in another order", got, want)
			}
			c.Obs("balanced errors", 1)
		}
		c.Obs("cat votes", len(vs))
		if len(vs) > 1 {
			c.Sig("cat %d %d %v", n, k, out)
		}
		c.Sample("target %v votes %v predictions %v", target, vs, out)
	case 1:
		target := genNum(r, "N:t", n, missRate(r))
		scale := voteScale(r)
		vs := genVotes(r, n, k, func() string {
			if r.Intn(20) == 0 {
				return []string{"NaN", "", "x"}[r.Intn(3)]
			}
			return fmt.Sprint(math.Floor(r.NormFloat64()*100) / 16 * scale)
		})
		c.Note("target %v votes %v", target, vs)
		box := CF.NewNumBallotBox(n)
		cast(box, vs, r)
		s, w := make([]float64, n), make([]float64, n)
		for _, v := range vs {
			if x, err := strconv.ParseFloat(v.pred, 64); err == nil && !math.IsNaN(x) && v.w != 0 {
				s[v.i] += x * v.w
				w[v.i] += v.w
			}
		}
		e, cnt := 0.0, 0.0
		for i := range s {
			got := box.Tally(i)
			if w[i] == 0 {
				c.Obs("cases without votes", 1)
				if got != "NA" {
					c.Fail("novotes", "case %d without votes is predicted %q", i, got)
				}
				continue
			}
			g, err := strconv.ParseFloat(got, 64)
			if err != nil || !near(g, s[i]/w[i], 100*scale) || !near(box.TallyNum(i), s[i]/w[i], 100*scale) {
				c.Fail("mean", "case %d predicted %v (%v) instead of %v", i, got, box.TallyNum(i), s[i]/w[i])
			}
			if !target.Miss[i] {
				d := s[i]/w[i] - target.V[i]
				e += d * d
				cnt++
			} else {
				c.Obs("missing targets", 1)
			}
		}
		if cnt > 0 {
			f := target.NumF()
			want := e / cnt
			if got := box.TallySquaredError(f); !near(got, want, want) {
				c.Fail("squared-error", "squared error %v instead of %v", got, want)
			}
			k := known(target)
			if v := sse(target, k) / float64(len(k)); v > 1e-9*maxAbs(target.V)*maxAbs(target.V) {
				if got := box.TallyError(f); !near(got, want/v, want/v) {
					c.Fail("relative-error", "error %v instead of %v / %v", got, want, v)
				}
				if got := box.TallyR2Score(f); !near(got, 1-want/v, want/v) {
					c.Fail("r2", "R2 %v instead of %v", got, 1-want/v)
				}
			}
			c.Obs("squared errors", 1)
		}
		c.Obs("num votes", len(vs))
		if len(vs) > 1 {
			c.Sig("num %d %d %v", n, k, s)
		}
	case 2:
		scale := voteScale(r)
		vs := genVotes(r, n, k, func() string {
			if r.Intn(20) == 0 {
				return "x"
			}
			return fmt.Sprint(math.Floor(r.NormFloat64()*100) / 16 * scale)
		})
		c.Note("votes %v", vs)
		box := CF.NewSumBallotBox(n)
		cast(box, vs, r)
		s := make([]float64, n)
		for _, v := range vs {
			if x, err := strconv.ParseFloat(v.pred, 64); err == nil {
				s[v.i] += x * v.w
			}
		}
		for i := range s {
			g, err := strconv.ParseFloat(box.Tally(i), 64)
			if err != nil || !near(g, s[i], 100*scale*float64(k)) || !near(box.TallyNum(i), s[i], 100*scale*float64(k)) {
				c.Fail("sum", "case %d predicted %v (%v) instead of %v", i, box.Tally(i), box.TallyNum(i), s[i])
			}
		}
		c.Obs("sum votes", len(vs))
		if len(vs) > 1 {
			c.Sig("sum %d %d %v", n, k, s)
		}
	}
}

// voteScale is the size of the predictions that are voted for.
func voteScale(r *rand.Rand) float64 {
	return []float64{1, 1, 1, 1.0 / 3, 1e-9, 1e12, 1e150}[r.Intn(7)]
}
