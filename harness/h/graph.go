package h

import (
	"github.com/cloudprivacylabs/lpg/v2"
	oc "github.com/cloudprivacylabs/opencypher"
	"verif/harness/vf"
)

// G is a graph under construction, with its elements in creation order.
type G struct {
	g     *lpg.Graph
	nodes []*lpg.Node
	edges []*lpg.Edge
}

func graphOf(n int) *G {
	g := &G{g: lpg.NewGraph()}
	for i := 0; i < n; i++ {
		g.node(nil, nil)
	}
	return g
}

func (g *G) node(labels []string, props map[string]interface{}) *lpg.Node {
	n := g.g.NewNode(labels, props)
	g.nodes = append(g.nodes, n)
	return n
}

func (g *G) edge(from, to int, typ string) *lpg.Edge {
	e := g.g.NewEdge(g.nodes[from], g.nodes[to], typ, nil)
	g.edges = append(g.edges, e)
	return e
}

func (g *G) ctx() *oc.EvalContext { return oc.NewEvalContext(g.g) }

func (g *G) index(n *lpg.Node) int {
	for i, x := range g.nodes {
		if x == n {
			return i
		}
	}
	return -1
}

func digit(i int) string { return string(rune('0' + i)) }

// symEdges adds up to max relationships with symbolic endpoints and types, in
// non-decreasing order of (from, to, type) so that permutations are not repeated.
func (g *G) symEdges(max int, types []string) {
	n, k := len(g.nodes), len(types)
	last := 0
	for i := 0; i < max; i++ {
		c := last + vf.Choice("edge"+digit(i), n*n*k+1-last)
		if c == n*n*k {
			return
		}
		last = c
		g.edge(c/k/n, c/k%n, types[c%k])
	}
}

// symLabels labels each node with one of the label sets.
func (g *G) symLabels(sets ...[]string) {
	for i, n := range g.nodes {
		n.SetLabels(lpg.NewStringSet(sets[vf.Choice("label"+digit(i), len(sets))]...))
	}
}

// symProps gives each node an integer property, or none.
func (g *G) symProps(key string, optional bool) {
	for i, n := range g.nodes {
		if optional && vf.Choice("has"+digit(i), 2) == 0 {
			continue
		}
		n.SetProperty(key, vf.Int(key+digit(i)))
	}
}

// ---- snapshots

type nodeSnap struct {
	n      *lpg.Node
	labels map[string]bool
	props  map[string]interface{}
}

type edgeSnap struct {
	e        *lpg.Edge
	from, to *lpg.Node
	label    string
	props    map[string]interface{}
}

type snap struct {
	nodes []nodeSnap
	edges []edgeSnap
}

func labelsOf(n *lpg.Node) map[string]bool {
	m := map[string]bool{}
	for _, l := range n.GetLabels().Slice() {
		m[l] = true
	}
	return m
}

// takeSnap records every element the graph enumerates.
func takeSnap(g *lpg.Graph) snap {
	var s snap
	for it := g.GetNodes(); it.Next(); {
		n := it.Node()
		ns := nodeSnap{n, labelsOf(n), map[string]interface{}{}}
		n.ForEachProperty(func(k string, v interface{}) bool { ns.props[k] = v; return true })
		s.nodes = append(s.nodes, ns)
	}
	for it := g.GetEdges(); it.Next(); {
		e := it.Edge()
		es := edgeSnap{e, e.GetFrom(), e.GetTo(), e.GetLabel(), map[string]interface{}{}}
		e.ForEachProperty(func(k string, v interface{}) bool { es.props[k] = v; return true })
		s.edges = append(s.edges, es)
	}
	return s
}

func (s *snap) node(n *lpg.Node) *nodeSnap {
	for i := range s.nodes {
		if s.nodes[i].n == n {
			return &s.nodes[i]
		}
	}
	return nil
}

func (s *snap) edge(e *lpg.Edge) *edgeSnap {
	for i := range s.edges {
		if s.edges[i].e == e {
			return &s.edges[i]
		}
	}
	return nil
}

// native gives the plain value of a stored property.
func native(v interface{}) interface{} {
	if x, ok := v.(oc.Value); ok {
		return x.Get()
	}
	return v
}

// sameProp compares two property values of the kinds the harnesses store.
func sameProp(a, b interface{}) bool {
	switch x := native(a).(type) {
	case *filtered:
		y, ok := native(b).(*filtered)
		return ok && x.key == y.key && sameProp(x.v, y.v)
	case int:
		y, ok := native(b).(int)
		return ok && x == y
	case string:
		y, ok := native(b).(string)
		return ok && x == y
	case bool:
		y, ok := native(b).(bool)
		return ok && x == y
	case float64:
		y, ok := native(b).(float64)
		return ok && vf.SameFloat(x, y)
	case nil:
		return native(b) == nil
	}
	return identical(native(a), native(b))
}

func assertProps(got, want map[string]interface{}, id string) {
	vf.Assert(len(got) == len(want), id+"-prop-count")
	for k, w := range want {
		v, ok := got[k]
		vf.Assert(ok, id+"-prop-missing")
		vf.Assert(sameProp(v, w), id+"-prop-value")
	}
}

func assertLabels(got, want map[string]bool, id string) {
	vf.Assert(len(got) == len(want), id+"-label-count")
	for k := range want {
		vf.Assert(got[k], id+"-label")
	}
}

// assertSame asserts that the graph is exactly as described by want: the same
// elements with the same labels, properties, endpoints, and consistent
// enumeration and counts.
func assertSame(g *lpg.Graph, want snap, id string) {
	got := takeSnap(g)
	vf.Assert(len(got.nodes) == len(want.nodes), id+"-node-count")
	vf.Assert(len(got.edges) == len(want.edges), id+"-edge-count")
	vf.Assert(g.NumNodes() == len(want.nodes), id+"-numnodes")
	vf.Assert(g.NumEdges() == len(want.edges), id+"-numedges")
	for _, w := range want.nodes {
		n := got.node(w.n)
		vf.Assert(n != nil, id+"-node-gone")
		assertLabels(n.labels, w.labels, id)
		assertProps(n.props, w.props, id)
		out, in := 0, 0
		for _, e := range want.edges {
			if e.from == w.n {
				out++
			}
			if e.to == w.n {
				in++
			}
		}
		vf.Assert(len(lpg.EdgeSlice(w.n.GetEdges(lpg.OutgoingEdge))) == out, id+"-outgoing")
		vf.Assert(len(lpg.EdgeSlice(w.n.GetEdges(lpg.IncomingEdge))) == in, id+"-incoming")
		for _, l := range []string{"A", "B", "L", "X"} {
			c := 0
			for it := g.GetNodesWithAllLabels(lpg.NewStringSet(l)); it.Next(); {
				if it.Node() == w.n {
					c++
				}
			}
			vf.Assert(c == 1 == w.labels[l] && c <= 1, id+"-label-index")
		}
	}
	for _, w := range want.edges {
		e := got.edge(w.e)
		vf.Assert(e != nil, id+"-edge-gone")
		vf.Assert(e.from == w.from && e.to == w.to, id+"-endpoints")
		vf.Assert(e.label == w.label, id+"-type")
		assertProps(e.props, w.props, id)
	}
}

// ---- expected graphs

type props map[string]interface{}

// newNode adds a node that was not there before to the expected graph.
func (s *snap) newNode(x interface{}, labels []string, p props, id string) *lpg.Node {
	n, ok := x.(*lpg.Node)
	vf.Assert(ok, id+"-not-a-node")
	vf.Assert(s.node(n) == nil, id+"-not-new")
	ns := nodeSnap{n, map[string]bool{}, p}
	for _, l := range labels {
		ns.labels[l] = true
	}
	s.nodes = append(s.nodes, ns)
	return n
}

// newEdge adds a relationship that was not there before.
func (s *snap) newEdge(x interface{}, typ string, from, to interface{}, p props, id string) *lpg.Edge {
	e, ok := elem(x).(*lpg.Edge)
	vf.Assert(ok, id+"-not-a-relationship")
	vf.Assert(s.edge(e) == nil, id+"-not-new")
	s.edges = append(s.edges, edgeSnap{e, from.(*lpg.Node), to.(*lpg.Node), typ, p})
	return e
}
