package main

import (
	"math"

	CF "github.com/ryanbressler/CloudForest"
)

// C17: sampling of cases and candidates.

func init() {
	register(&Check{Prop: "C17", Quick: 24000, Thorough: 500000,
		Rule:        "a target, a feature to balance by, or a deck with constants at its end is drawn from the seed and sampled thousands of times; what is drawn is checked draw by draw, how often each case, class and pair of draws occurs is compared with its probability; non trivial = at least two cases to choose from, distinct by the problem",
		Assumptions: []string{"frequencies are only decided where a deviation has a probability below 1e-13"},
		Need:        []string{"draws", "frequencies", "balanced", "balanced within categories", "classes without cases", "missing targets", "with replacement", "without replacement", "with constants"},
		Run:         c17})
}

// unlikely tells if k of n tries with probability p is a deviation with a probability
// below 1e-13 (Chernoff's bound).
func unlikely(k, n int, p float64) bool {
	if n == 0 {
		return false
	}
	q := float64(k) / float64(n)
	d := 0.0
	if q > 0 {
		if p <= 0 {
			return true
		}
		d += q * math.Log(q/p)
	}
	if q < 1 {
		if p >= 1 {
			return true
		}
		d += (1 - q) * math.Log((1-q)/(1-p))
	}
	return float64(n)*d > 31
}

// frequencies checks how often draws and consecutive pairs of draws occur.
func (c *Ctx) frequencies(what string, draws []int, p []float64) {
	counts := make([]int, len(p))
	for k, i := range draws {
		if i < 0 || i >= len(p) || p[i] == 0 {
			c.Fail("drawn", "%v draws %d, probabilities %v", what, i, p)
		}
		counts[i]++
		_ = k
	}
	c.Obs("draws", len(draws))
	c.Obs("frequencies", len(p))
	for i, k := range counts {
		if unlikely(k, len(draws), p[i]) {
			c.Fail("frequency", "%v draws %d %d times of %d, its probability is %v of %v", what, i, k, len(draws), p[i], p)
		}
	}
	// draws don't depend on the one before
	same, ps := 0, 0.0
	for _, x := range p {
		ps += x * x
	}
	for k := 1; k < len(draws); k += 2 {
		if draws[k] == draws[k-1] {
			same++
		}
	}
	if unlikely(same, len(draws)/2, ps) {
		c.Fail("dependent", "%v draws the same twice %d times in %d, the probability is %v", what, same, len(draws)/2, ps)
	}
}

func c17(c *Ctx) {
	r := c.Rng
	n := 1 + r.Intn(15)
	kind := r.Intn(4)
	if c.large(997) {
		n = 100 + r.Intn(200)
		if kind < 3 {
			n = 66000 + r.Intn(10000)
		}
	}
	switch kind {
	case 0, 1:
		t := genCat(r, "C:t", n, 1+r.Intn(5), missRate(r))
		classes := map[int][]int{}
		for i, k := range t.K {
			if !t.Miss[i] {
				classes[k] = append(classes[k], i)
			}
		}
		if len(classes) == 0 {
			return
		}
		if len(classes) < len(t.Cats) {
			c.Obs("classes without cases", 1)
		}
		if t.hasMissing() {
			c.Obs("missing targets", 1)
		}
		p := make([]float64, n)
		var s CF.Bagger
		f := t.CatF()
		what := "balanced sampler"
		if r.Intn(2) == 0 {
			for _, cs := range classes {
				for _, i := range cs {
					p[i] = 1 / float64(len(classes)) / float64(len(cs))
				}
			}
			s = CF.NewBalancedSampler(f)
			c.Obs("balanced", 1)
			c.Note("%v", t)
			c.Sig("%v", t)
		} else {
			b := genCat(r, "C:b", n, 1+r.Intn(4), missRate(r))
			total := 0.0
			cells := map[int]map[int][]int{}
			rate := map[int]float64{}
			for i, k := range t.K {
				if t.Miss[i] || b.Miss[i] {
					continue
				}
				total++
				rate[b.K[i]]++
				if cells[b.K[i]] == nil {
					cells[b.K[i]] = map[int][]int{}
				}
				cells[b.K[i]][k] = append(cells[b.K[i]][k], i)
			}
			if total == 0 {
				return
			}
			for k, cl := range cells {
				for _, cs := range cl {
					for _, i := range cs {
						p[i] = rate[k] / total / float64(len(cl)) / float64(len(cs))
					}
				}
			}
			g := b.CatF()
			s = CF.NewSecondaryBalancedSampler(f, g)
			if d := diffCols(b, colOf(g)); d != "" {
				c.Fail("changed", "%v", d)
			}
			what = "sampler balanced within categories"
			c.Obs("balanced within categories", 1)
			c.Note("%v\n%v", t, b)
			c.Sig("%v %v", t, b)
		}
		var draws []int
		var buf []int
		for len(draws) < 3000 {
			k := r.Intn(200)
			if r.Intn(4) == 0 {
				buf = nil
			}
			s.Sample(&buf, k)
			if len(buf) != k {
				c.Fail("length", "%v draws %d instead of %d", what, len(buf), k)
			}
			draws = append(draws, buf...)
		}
		c.frequencies(what, draws, p)
		if d := diffCols(t, colOf(f)); d != "" {
			c.Fail("changed", "%v", d)
		}
		c.Sample("%v %v", what, t)
	case 2:
		p := make([]float64, n)
		for i := range p {
			p[i] = 1 / float64(n)
		}
		var draws []int
		for len(draws) < 3000 {
			k := r.Intn(300)
			s := CF.SampleWithReplacment(k, n)
			if len(s) != k {
				c.Fail("length", "%d cases instead of %d", len(s), k)
			}
			draws = append(draws, s...)
		}
		c.frequencies("sampling with replacement", draws, p)
		c.Obs("with replacement", 1)
		c.Sig("replacement %d", n)
	default:
		// the deck keeps its cards, constants stay at its end
		deck := r.Perm(n + r.Intn(5))[:n]
		consts := 0
		if r.Intn(2) == 0 {
			consts = r.Intn(n + 1)
			c.Obs("with constants", 1)
		}
		k := r.Intn(n + 3)
		cards := append([]int{}, deck...)
		index := map[int]int{}
		for i, x := range cards {
			index[x] = i
		}
		c.Note("deck %v, %d constants, %d drawn", deck, consts, k)
		c.Sig("deck %d %d %d", n, consts, k)
		rest := n - consts
		drawn, first := make([]int, n), make([]int, n)
		pairs := 0
		tries := 1500
		for t := 0; t < tries; t++ {
			var s []int
			if t%100 == 99 {
				CF.SampleFirstN(&cards, nil, k, consts)
				if !sameBag(cards, deck) {
					c.Fail("deck", "%v became %v", deck, cards)
				}
				continue
			}
			CF.SampleFirstN(&cards, &s, k, consts)
			if len(s) > k || len(s) > rest || consts == 0 && len(s) != int(math.Min(float64(k), float64(n))) {
				c.Fail("length", "%d drawn", len(s))
			}
			if len(cards) != n || !sameBag(cards, deck) || !eqInts(cards[:len(s)], s) {
				c.Fail("deck", "%v became %v with %v drawn", deck, cards, s)
			}
			if !eqInts(cards[rest:], deck[rest:]) {
				c.Fail("constants", "%v became %v with %d constants", deck, cards, consts)
			}
			for j, x := range s {
				drawn[index[x]]++
				if j == 0 {
					first[index[x]]++
				}
			}
			has := 0
			for _, x := range s {
				if index[x] < 2 {
					has++
				}
			}
			if has == 2 {
				pairs++
			}
			c.Obs("draws", len(s))
		}
		tries -= tries / 100
		c.Obs("without replacement", 1)
		if k > rest || k == 0 {
			return
		}
		for i := 0; i < rest; i++ {
			c.Obs("frequencies", 1)
			if p := float64(k) / float64(n); unlikely(drawn[i], tries, p) {
				c.Fail("frequency", "card %d is drawn %d times of %d instead of with %v", i, drawn[i], tries, p)
			}
			if consts == 0 && unlikely(first[i], tries, 1/float64(n)) {
				c.Fail("frequency", "card %d is first %d times of %d instead of with %v", i, first[i], tries, 1/float64(n))
			}
		}
		if rest >= 2 {
			p := float64(k) * float64(k-1) / float64(n) / float64(n-1)
			if unlikely(pairs, tries, p) {
				c.Fail("dependent", "the first two cards are drawn together %d times of %d instead of with %v", pairs, tries, p)
			}
		}
	}
}
