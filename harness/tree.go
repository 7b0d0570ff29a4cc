package main

import (
	"fmt"
	"math/big"
	"math/rand"
	"sort"
	"strings"

	CF "github.com/ryanbressler/CloudForest"
)

// RNode is the harness' own model of a node of a tree.
type RNode struct {
	Pred    string
	Feature string // "" for leaves
	Num     bool
	Value   float64
	Left    map[string]bool
	L, R, M *RNode
}

func (n *RNode) leaf() bool { return n.L == nil && n.R == nil }

// side is where a case of the column goes: 'L', 'R' or 'M'.
func (n *RNode) side(c *Col, i int) byte {
	switch {
	case c == nil || c.Miss[i]: // all cases miss a feature that isn't there
		return 'M'
	case n.Num && c.V[i] <= n.Value:
		return 'L'
	case !n.Num && n.Left[c.Label(i)]:
		return 'L'
	}
	return 'R'
}

// reach follows a case to its leaf, nil if it is dropped on the way.
func (n *RNode) reach(t *Table, i int) *RNode {
	for n != nil && n.Feature != "" {
		switch n.side(t.Col(n.Feature), i) {
		case 'L':
			n = n.L
		case 'R':
			n = n.R
		default:
			n = n.M
		}
	}
	return n
}

// walk visits the nodes in the order left, right, missing.
func (n *RNode) walk(f func(n *RNode, path string), path string) {
	f(n, path)
	if n.L != nil {
		n.L.walk(f, path+"L")
	}
	if n.R != nil {
		n.R.walk(f, path+"R")
	}
	if n.M != nil {
		n.M.walk(f, path+"M")
	}
}

func (n *RNode) String() string {
	var b strings.Builder
	n.walk(func(n *RNode, p string) {
		fmt.Fprintf(&b, "*%s", p)
		if n.Feature != "" {
			if n.Num {
				fmt.Fprintf(&b, " %q<=%v", n.Feature, n.Value)
			} else {
				fmt.Fprintf(&b, " %q in %q", n.Feature, keys(n.Left))
			}
		}
		if n.Pred != "" {
			fmt.Fprintf(&b, " pred %q", n.Pred)
		}
		b.WriteString("; ")
	}, "")
	return b.String()
}

func keys(m map[string]bool) []string {
	k := []string{}
	for s, in := range m {
		if in {
			k = append(k, s)
		}
	}
	sort.Strings(k)
	return k
}

// modelOf reads a real node into the model.
func modelOf(n *CF.Node) *RNode {
	if n == nil {
		return nil
	}
	m := &RNode{Pred: n.Pred, L: modelOf(n.Left), R: modelOf(n.Right), M: modelOf(n.Missing)}
	if s := n.Splitter; s != nil {
		m.Feature = s.Feature
		m.Num = s.Numerical
		if s.Numerical {
			m.Value = s.Value
		} else {
			m.Left = map[string]bool{}
			for k, in := range s.Left {
				if in {
					m.Left[k] = true
				}
			}
		}
	}
	return m
}

// splitter builds the real splitter of a node.
func (n *RNode) splitter() *CF.Splitter {
	if n.Feature == "" {
		return nil
	}
	s := &CF.Splitter{Feature: n.Feature, Numerical: n.Num}
	if n.Num {
		s.Value = n.Value
	} else {
		s.Left = map[string]bool{}
		for k, in := range n.Left {
			if in {
				s.Left[k] = true
			}
		}
	}
	return s
}

// build makes a real tree out of the model by adding its nodes.
func (n *RNode) build(target string, weight float64) *CF.Tree {
	t := &CF.Tree{Target: target, Weight: weight}
	n.walk(func(n *RNode, path string) { t.AddNode(path, n.Pred, n.splitter()) }, "")
	return t
}

// code adds the coded splits training leaves in a tree for the training data.
func code(n *CF.Node, t *Table, r *rand.Rand) {
	if n == nil || n.Splitter == nil {
		return
	}
	for i, c := range t.Cols {
		if c.Name == n.Splitter.Feature {
			n.Featurei = i
			if c.Num {
				n.CodedSplit = n.Splitter.Value
			} else {
				b := big.NewInt(0)
				for j, s := range c.Cats {
					if n.Splitter.Left[s] {
						b.SetBit(b, j, 1)
					}
				}
				if len(c.Cats) < 60 && r.Intn(4) != 0 {
					n.CodedSplit = int(b.Int64())
				} else {
					n.CodedSplit = b
				}
			}
		}
	}
	code(n.Left, t, r)
	code(n.Right, t, r)
	code(n.Missing, t, r)
}

// genTree draws a tree that splits on columns of t.
func genTree(r *rand.Rand, t *Table, depth int, pred func() string, internalPreds bool) *RNode {
	n := &RNode{}
	if depth <= 0 || r.Intn(6) == 0 {
		n.Pred = pred()
		return n
	}
	c := t.Cols[r.Intn(len(t.Cols))]
	n.Feature = c.Name
	n.Num = c.Num
	if c.Num {
		n.Value = r.NormFloat64()
		if r.Intn(2) == 0 && len(c.V) > 0 {
			n.Value = c.V[r.Intn(len(c.V))]
		}
	} else {
		n.Left = map[string]bool{}
		for _, s := range c.Cats {
			if r.Intn(2) == 0 {
				n.Left[s] = true
			}
		}
	}
	if internalPreds && r.Intn(3) == 0 {
		n.Pred = pred()
	}
	n.L = genTree(r, t, depth-1, pred, internalPreds)
	n.R = genTree(r, t, depth-1, pred, internalPreds)
	if r.Intn(3) == 0 {
		n.M = genTree(r, t, depth-1-r.Intn(2), pred, internalPreds)
	}
	return n
}

// genChain draws a tree as deep as can be that splits on a numerical column: every node
// has a leaf on one side. Nearly every node parts one case of those left.
func genChain(r *rand.Rand, c *Col, depth int, pred func() string) *RNode {
	v := append([]float64{}, c.V...)
	sort.Float64s(v)
	lo, hi := 0, len(v)-1
	root := &RNode{}
	n := root
	for ; depth > 0 && lo < hi; depth-- {
		n.Feature, n.Num = c.Name, true
		n.L, n.R = &RNode{}, &RNode{}
		if r.Intn(3) == 0 {
			n.M = &RNode{Pred: pred()}
		}
		if r.Intn(2) == 0 {
			n.Value = v[lo]
			lo++
			n.L.Pred = pred()
			n = n.R
		} else {
			hi--
			n.Value = v[hi]
			n.R.Pred = pred()
			n = n.L
		}
	}
	n.Pred = pred()
	return root
}

// spyVotes is a VoteTallyer that records what it is told.
type spyVotes struct {
	votes map[int][]vote
	n     int
}

type vote struct {
	pred   string
	weight float64
}

func newSpyVotes() *spyVotes { return &spyVotes{votes: map[int][]vote{}} }

func (s *spyVotes) Vote(i int, pred string, weight float64) {
	s.votes[i] = append(s.votes[i], vote{pred, weight})
	s.n++
}
func (s *spyVotes) TallyError(CF.Feature) float64 { return 0 }
func (s *spyVotes) Tally(int) string              { return "" }
