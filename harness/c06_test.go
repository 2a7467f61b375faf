package harness

import (
	"fmt"
	"math"
	"testing"

	"github.com/julioguillermo/godeep/context"
	"github.com/julioguillermo/godeep/graph"
	"github.com/julioguillermo/godeep/number"
	"github.com/julioguillermo/godeep/operation"
	"github.com/julioguillermo/godeep/tensor"
	"github.com/julioguillermo/godeep/types"
	"pgregory.net/rapid"
)

const ruleC06 = "random expression DAGs of 1..14 operations (all graph operations, sub-expressions shared at random) over 1..4 source tensors and up to 3 scalars; 1..6 rounds of changing sources and executing, every node compared with a reference evaluation after each, results overwritten in between at random, parts also used in an expression that is refused before; graphs split, copied and joined at random. Integer DAGs are exact, float DAGs use a propagated error bound. Non-trivial: at least 2 operations and 2 executions with changed sources (graph joins: at least 2 operations)."

func TestC06(t *testing.T) {
	run(t, "C06", ruleC06,
		sub{name: "dag", n: 6000, f: func(rt *rapid.T, c *rec) {
			switch rapid.IntRange(0, 4).Draw(rt, "T") {
			case 0:
				c06Dag[int32](rt, c)
			case 1:
				c06Dag[int16](rt, c)
			case 2:
				c06Dag[float64](rt, c)
			case 3:
				c06Dag[float32](rt, c)
			default:
				c06Dag[int64](rt, c)
			}
		}},
		sub{name: "deep", n: 600, f: func(rt *rapid.T, c *rec) { c06Deep(rt, c) }},
		sub{name: "segments", n: 2500, f: func(rt *rapid.T, c *rec) { c06Segments(rt, c) }},
		sub{name: "join", n: 2500, f: c06Join},
	)
}

type gnode[T types.Number] struct {
	name  string
	t     tensor.Tensor[T]
	shape []uint
	eval  func() ([]T, float64) // values and error bound for the current sources
	deps  []*gnode[T]
	round int
	val   []T
	err   float64
	src   bool
	hold  bool // keeps its value, whatever its operands have become
	comp  bool // holds values of its own that the execution computes
}

func (g *gnode[T]) get(round int) ([]T, float64) {
	if g.round != round && !g.hold {
		g.val, g.err = g.eval()
		g.round = round
	}
	return g.val, g.err
}

func maxAbs[T types.Number](v []T) float64 {
	m := 0.0
	for _, x := range v {
		if a := math.Abs(float64(x)); a > m || a != a {
			m = a
		}
	}
	return m
}

type dag[T types.Number] struct {
	nodes   []*gnode[T]
	srcT    []*tensor.TensorMat[T]
	srcV    [][]T
	srcS    []*number.Scalar[T]
	srcSV   []T
	scalars int
	round   int
	eps     float64
	kind    int
}

func (d *dag[T]) add(n *gnode[T]) *gnode[T] {
	n.round = -1
	d.nodes = append(d.nodes, n)
	return n
}

func (d *dag[T]) source(shape []uint, v []T) *gnode[T] {
	m := mk(v, shape)
	i := len(d.srcT)
	d.srcT = append(d.srcT, m)
	d.srcV = append(d.srcV, v)
	return d.add(&gnode[T]{name: fmt.Sprintf("src%v", shape), t: m, shape: shape, src: true, eval: func() ([]T, float64) { return d.srcV[i], 0 }})
}

func (d *dag[T]) scalar(v T) int {
	d.srcS = append(d.srcS, number.NewScalar(v))
	d.srcSV = append(d.srcSV, v)
	return len(d.srcS) - 1
}

// step adds one random operation on existing nodes.
func (d *dag[T]) step(rt *rapid.T, r *rng) *gnode[T] {
	pickNode := func(label string) *gnode[T] {
		// recent nodes more often, so that depth grows
		if rapid.Bool().Draw(rt, label+"Recent") {
			return d.nodes[len(d.nodes)-1]
		}
		return d.nodes[rapid.IntRange(0, len(d.nodes)-1).Draw(rt, label)]
	}
	a := pickNode("a")
	kind := rapid.IntRange(0, 15).Draw(rt, "op")
	d.kind = kind
	fl := isFloat[T]()
	switch kind {
	case 0, 1: // element-wise, finding or making a partner
		var b *gnode[T]
		for _, n := range d.nodes {
			if eqShape(n.shape, a.shape) && n != a {
				b = n
				if rapid.Bool().Draw(rt, "useB") {
					break
				}
			}
		}
		if b == nil {
			b = a
		}
		o := rapid.IntRange(0, 2).Draw(rt, "bin")
		var t tensor.Tensor[T]
		switch o {
		case 0:
			t = tensor.Add(a.t, b.t)
		case 1:
			t = tensor.Sub(a.t, b.t)
		case 2:
			t = tensor.Mul(a.t, b.t)
		}
		return d.add(&gnode[T]{name: opNames[o], t: t, shape: a.shape, deps: []*gnode[T]{a, b}, eval: func() ([]T, float64) {
			x, ex := a.get(d.round)
			y, ey := b.get(d.round)
			z := make([]T, len(x))
			for i := range x {
				z[i] = refBin(o, x[i], y[i])
			}
			if o < 2 {
				return z, ex + ey + d.eps*maxAbs(z)
			}
			return z, maxAbs(x)*ey + maxAbs(y)*ex + ex*ey + d.eps*maxAbs(z)
		}})
	case 2: // with a scalar
		o := rapid.IntRange(0, 3).Draw(rt, "bin")
		var s int
		if o == 3 {
			s = d.scalar(T(pick(rt, "divisor", 2, -2, 4, 5)))
		} else {
			s = d.scalar(T(r.between(-4, 4)))
		}
		sc := d.srcS[s]
		var t tensor.Tensor[T]
		switch o {
		case 0:
			t = tensor.AddScalar(a.t, sc)
		case 1:
			t = tensor.SubScalar(a.t, sc)
		case 2:
			t = tensor.MulScalar(a.t, sc)
		case 3:
			t = tensor.DivScalar(a.t, sc)
		}
		return d.add(&gnode[T]{name: opNames[o] + "Scalar", t: t, shape: a.shape, deps: []*gnode[T]{a}, eval: func() ([]T, float64) {
			x, ex := a.get(d.round)
			z := make([]T, len(x))
			for i := range x {
				z[i] = refBin(o, x[i], d.srcSV[s])
			}
			sv := math.Abs(float64(d.srcSV[s]))
			if o < 2 {
				return z, ex + d.eps*maxAbs(z)
			}
			if o == 2 {
				return z, ex*sv + d.eps*maxAbs(z)
			}
			return z, ex/sv + d.eps*maxAbs(z)
		}})
	case 3:
		return d.add(&gnode[T]{name: "Neg", t: tensor.Neg(a.t), shape: a.shape, deps: []*gnode[T]{a}, eval: func() ([]T, float64) {
			x, e := a.get(d.round)
			z := make([]T, len(x))
			for i := range x {
				z[i] = -x[i]
			}
			return z, e
		}})
	case 4:
		return d.add(&gnode[T]{name: "Abs", t: tensor.Abs(a.t), shape: a.shape, deps: []*gnode[T]{a}, eval: func() ([]T, float64) {
			x, e := a.get(d.round)
			z := make([]T, len(x))
			for i := range x {
				z[i] = x[i]
				if z[i] < 0 {
					z[i] = -z[i]
				}
			}
			return z, e
		}})
	case 5:
		k := T(r.between(-5, 5))
		f := func(x T) T { return x/2 + k }
		return d.add(&gnode[T]{name: "Activate", t: tensor.Activate(a.t, f), shape: a.shape, deps: []*gnode[T]{a}, eval: func() ([]T, float64) {
			x, e := a.get(d.round)
			z := make([]T, len(x))
			for i := range x {
				z[i] = f(x[i])
			}
			return z, e + 2*d.eps*(maxAbs(x)+9)
		}})
	case 6, 7: // whole reductions, or per dimension
		o := rapid.IntRange(0, 3).Draw(rt, "red")
		if kind == 7 && len(a.shape) > 0 {
			dim := rapid.IntRange(0, len(a.shape)-1).Draw(rt, "dim")
			keep := append([]uint{}, a.shape[:dim+1]...)
			t := []func(tensor.Tensor[T], uint) tensor.Tensor[T]{tensor.DSum[T], tensor.DAvg[T], tensor.DMax[T], tensor.DMin[T]}[o](a.t, uint(dim))
			return d.add(&gnode[T]{name: fmt.Sprintf("D%s%d", redNames[o], dim), t: t, shape: keep, deps: []*gnode[T]{a}, eval: func() ([]T, float64) {
				x, e := a.get(d.round)
				w := len(x) / prod(keep)
				z := make([]T, prod(keep))
				for i := range z {
					z[i], _ = refRed(o, x[i*w:(i+1)*w])
				}
				if o == 0 {
					e *= float64(w)
				}
				return z, e + 2*float64(w*w)*d.eps*maxAbs(x)
			}})
		}
		t := []func(tensor.Tensor[T]) tensor.Tensor[T]{tensor.Sum[T], tensor.Avg[T], tensor.Max[T], tensor.Min[T]}[o](a.t)
		return d.add(&gnode[T]{name: redNames[o], t: t, shape: []uint{1}, deps: []*gnode[T]{a}, eval: func() ([]T, float64) {
			x, e := a.get(d.round)
			z, _ := refRed(o, x)
			n := float64(len(x))
			if o == 0 {
				e *= n
			}
			return []T{z}, e + 2*n*n*d.eps*maxAbs(x)
		}})
	case 8:
		sh, _ := refTranspose(a.shape, make([]T, prod(a.shape)))
		return d.add(&gnode[T]{name: "Transpose", t: tensor.Transpose(a.t), shape: sh, deps: []*gnode[T]{a}, eval: func() ([]T, float64) {
			x, e := a.get(d.round)
			_, z := refTranspose(a.shape, x)
			return z, e
		}})
	case 9:
		flat := rapid.Bool().Draw(rt, "flat")
		sh := []uint{uint(prod(a.shape))}
		var t tensor.Tensor[T]
		if flat {
			t = tensor.Flatten(a.t)
		} else {
			sh = genShapeN(rt, "new", rapid.IntRange(1, 4).Draw(rt, "newRank"), 2*prod(a.shape))
			arg := append([]uint{}, sh...)
			t = tensor.Reshape(a.t, arg...)
			for i := range arg { // the caller may go on using its slice
				arg[i] += 2
			}
		}
		return d.add(&gnode[T]{name: fmt.Sprintf("Reshape%v", sh), t: t, shape: sh, deps: []*gnode[T]{a}, eval: func() ([]T, float64) {
			x, e := a.get(d.round)
			return refReshape(x, prod(sh)), e
		}})
	case 10:
		if len(a.shape) == 0 {
			return nil
		}
		dim := rapid.IntRange(0, len(a.shape)-1).Draw(rt, "dim")
		ext := int(a.shape[dim])
		over := 0
		out := rapid.Bool().Draw(rt, "out")
		if out {
			over = 2
		}
		from := rapid.IntRange(0, ext-1).Draw(rt, "from")
		to := rapid.IntRange(from+1, ext+over).Draw(rt, "to")
		var t tensor.Tensor[T]
		if out {
			t = tensor.SubExtendedTensor(a.t, uint(dim), uint(from), uint(to))
		} else {
			t = tensor.SubTensor(a.t, uint(dim), uint(from), uint(to))
		}
		sh, _ := refSub(a.shape, make([]T, prod(a.shape)), dim, uint(from), uint(to), 0)
		return d.add(&gnode[T]{name: fmt.Sprintf("Sub%d[%d,%d)", dim, from, to), t: t, shape: sh, deps: []*gnode[T]{a}, eval: func() ([]T, float64) {
			x, e := a.get(d.round)
			_, z := refSub(a.shape, x, dim, uint(from), uint(to), 0)
			return z, e
		}})
	case 11:
		if len(a.shape) == 0 {
			return nil
		}
		b := a
		dim := rapid.IntRange(0, len(a.shape)-1).Draw(rt, "dim")
		for _, n := range d.nodes {
			if n != a && len(n.shape) == len(a.shape) {
				fits := true
				for i := range n.shape {
					if i != dim && n.shape[i] != a.shape[i] {
						fits = false
					}
				}
				if fits {
					b = n
					break
				}
			}
		}
		sh, _ := refConcat(a.shape, b.shape, make([]T, prod(a.shape)), make([]T, prod(b.shape)), dim)
		return d.add(&gnode[T]{name: fmt.Sprintf("Concat%d", dim), t: tensor.Concat(a.t, b.t, uint(dim)), shape: sh, deps: []*gnode[T]{a, b}, eval: func() ([]T, float64) {
			x, ex := a.get(d.round)
			y, ey := b.get(d.round)
			_, z := refConcat(a.shape, b.shape, x, y, dim)
			return z, math.Max(ex, ey)
		}})
	case 12: // contraction
		if len(a.shape) == 0 {
			return nil
		}
		b := a
		for _, n := range d.nodes {
			if n != a && len(n.shape) > 0 {
				b = n
				if rapid.Bool().Draw(rt, "useB") {
					break
				}
			}
		}
		for p := range a.shape {
			for q := range b.shape {
				if a.shape[p] == b.shape[q] {
					res := prod(a.shape) / int(a.shape[p]) * prod(b.shape) / int(b.shape[q])
					if res > 120 {
						continue
					}
					p, q := p, q
					sh, _, _ := refDot(a.shape, b.shape, make([]T, prod(a.shape)), make([]T, prod(b.shape)), p, q)
					return d.add(&gnode[T]{name: fmt.Sprintf("DotAt%d,%d", p, q), t: tensor.DotAt(a.t, b.t, uint(p), uint(q)), shape: sh, deps: []*gnode[T]{a, b}, eval: func() ([]T, float64) {
						x, ex := a.get(d.round)
						y, ey := b.get(d.round)
						_, z, _ := refDot(a.shape, b.shape, x, y, p, q)
						k := float64(a.shape[p])
						return z, k * (maxAbs(x)*ey + maxAbs(y)*ex + ex*ey + 2*k*d.eps*maxAbs(x)*maxAbs(y))
					}})
				}
			}
		}
		return nil
	case 13: // written into a tensor of its own
		to := tensor.NewZeros[T](a.shape...)
		return d.add(&gnode[T]{name: "CopyTo", t: tensor.CopyTo[T](a.t, to), shape: a.shape, deps: []*gnode[T]{a}, eval: func() ([]T, float64) { return a.get(d.round) }})
	case 14:
		s := d.scalar(T(r.between(-4, 4)))
		to := tensor.NewZeros[T](a.shape...)
		sh := a.shape
		return d.add(&gnode[T]{name: "FillWith", t: tensor.FillWith[T](to, d.srcS[s]), shape: sh, eval: func() ([]T, float64) {
			z := make([]T, prod(sh))
			for i := range z {
				z[i] = d.srcSV[s]
			}
			return z, 0
		}})
	case 15:
		if !fl {
			return nil
		}
		return d.add(&gnode[T]{name: "SoftMax", t: tensor.SoftMax(a.t), shape: a.shape, deps: []*gnode[T]{a}, eval: func() ([]T, float64) {
			x, e := a.get(d.round)
			min, _ := refRed(3, x)
			s := 0.0
			for _, v := range x {
				s += float64(v - min)
			}
			z := make([]T, len(x))
			for i := range x {
				z[i] = T(float64(x[i]-min) / s)
			}
			n := float64(len(x))
			if !(s > 1e-2*maxAbs(x)) || !(s > 1e-3) {
				return z, math.Inf(1)
			}
			return z, (2*n+4)*(e+d.eps*maxAbs(x))/s + (2*n+4)*d.eps
		}})
	}
	return nil
}

func genDag[T types.Number](rt *rapid.T, c *rec, maxOps int) (*dag[T], *rng, int) {
	d := &dag[T]{eps: 4 * epsOf[T]()}
	r := genRng(rt, "seed")
	ns := rapid.IntRange(1, 4).Draw(rt, "sources")
	for i := 0; i < ns; i++ {
		var sh []uint
		if i > 0 && rapid.Bool().Draw(rt, "sameShape") {
			sh = d.nodes[0].shape
		} else {
			sh = genShapeN(rt, "src", rapid.IntRange(1, 4).Draw(rt, "rank"), 16)
		}
		d.source(sh, vals[T](r, dSmall, prod(sh)))
	}
	ops := 0
	for want := rapid.IntRange(1, maxOps).Draw(rt, "ops"); ops < want; {
		n := d.step(rt, r)
		if n == nil {
			want--
			continue
		}
		ops++
		n.comp = d.kind < 8 || d.kind > 11 // not the rearrangements, whose elements are those of their operands
		if prod(n.shape) > 400 {
			break
		}
	}
	c.K("seed%d", r.s)
	for _, n := range d.nodes {
		c.K("%s", n.name)
	}
	return d, r, ops
}

// reachable marks the nodes a result is computed from.
func reachable[T types.Number](n *gnode[T], m map[*gnode[T]]bool) {
	if m[n] {
		return
	}
	m[n] = true
	for _, d := range n.deps {
		reachable(d, m)
	}
}

// change gives new values to some sources, through one of the ways to do so.
func (d *dag[T]) change(rt *rapid.T, r *rng) bool {
	changed := false
	for i, m := range d.srcT {
		switch rapid.IntRange(0, 5).Draw(rt, "change") {
		case 5:
			// the same values elsewhere, or one of them changed slightly
			v := akin(r, d.srcV[i])
			if err := m.LoadData(v); err != nil {
				rt.Fatalf("LoadData: %v", err)
			}
			d.srcV[i] = v
			changed = true
		case 0:
			v := vals[T](r, dSmall, len(d.srcV[i]))
			if err := m.LoadData(v); err != nil {
				rt.Fatalf("LoadData: %v", err)
			}
			d.srcV[i] = v
			changed = true
		case 1:
			v := append([]T{}, d.srcV[i]...)
			k := r.intn(len(v))
			v[k] += 3
			if err := m.Set(v[k], unravel(uint(k), m.GetMulIndex())...); err != nil {
				rt.Fatalf("Set: %v", err)
			}
			d.srcV[i] = v
			changed = true
		case 2:
			v := vals[T](r, dSmall, len(d.srcV[i]))
			if err := m.LoadFromTensor(mk(v, m.GetShape())); err != nil {
				rt.Fatalf("LoadFromTensor: %v", err)
			}
			d.srcV[i] = v
			changed = true
		}
	}
	for i, s := range d.srcS {
		if rapid.IntRange(0, 2).Draw(rt, "changeS") == 0 {
			v := T(pick(rt, "newS", 2, -2, 3, 5))
			s.Value = v
			d.srcSV[i] = v
			changed = true
		}
	}
	return changed
}

func (d *dag[T]) compare(rt *rapid.T, set map[*gnode[T]]bool, exec int) {
	rt.Helper()
	d.round++
	for i, n := range d.nodes {
		if !set[n] {
			continue
		}
		want, err := n.get(d.round)
		got := n.t.GetData()
		if !eqShape(n.t.GetShape(), n.shape) || len(got) != len(want) {
			rt.Fatalf("execution %d: node %d (%s) has shape %v, %d elements, want %v", exec, i, n.name, n.t.GetShape(), len(got), n.shape)
		}
		if err > 1e-3*(1+maxAbs(want)) || err != err || !(maxAbs(want) < 1e30) {
			continue // cannot be judged
		}
		for k := range want {
			if !(math.Abs(float64(got[k])-float64(want[k])) <= err) && got[k] != want[k] {
				rt.Fatalf("execution %d: node %d (%s %v) element %d is %v, want %v (+-%g)", exec, i, n.name, n.shape, k, got[k], want[k], err)
			}
		}
	}
	for i, m := range d.srcT {
		if x := diffData(m.GetData(), d.srcV[i]); x != "" {
			rt.Fatalf("execution %d changed source %d: %s", exec, i, x)
		}
	}
	for i, s := range d.srcS {
		if s.Value != d.srcSV[i] {
			rt.Fatalf("execution %d changed scalar %d from %v to %v", exec, i, d.srcSV[i], s.Value)
		}
	}
}

func c06Dag[T types.Number](rt *rapid.T, c *rec) {
	d, r, ops := genDag[T](rt, c, 14)
	res := d.nodes[len(d.nodes)-1]
	set := map[*gnode[T]]bool{}
	reachable(res, set)
	if rapid.IntRange(0, 3).Draw(rt, "refused") == 0 {
		// an expression over some of the nodes that cannot be built leaves no trace in them
		n := d.nodes[rapid.IntRange(0, len(d.nodes)-1).Draw(rt, "part")]
		bad := tensor.Neg(tensor.DSum(n.t, uint(len(n.shape)+rapid.IntRange(0, 2).Draw(rt, "past"))))
		if rapid.Bool().Draw(rt, "beside") {
			bad = tensor.Concat(res.t, bad, 0)
		}
		if _, err := graph.NewGraph(bad); err == nil {
			rt.Fatalf("summing %s over a dimension it does not have gave no error", n.name)
		}
		c.L("parts of a refused expression")
	}
	g, err := graph.NewGraph(res.t)
	if err != nil {
		rt.Fatalf("building the graph of %s: %v", res.name, err)
	}
	d.compareSources(rt)
	rounds := rapid.IntRange(1, 6).Draw(rt, "rounds")
	changes, overwritten := 0, false
	for i := 1; i <= rounds; i++ {
		for k := rapid.IntRange(1, 3).Draw(rt, "times"); k > 0; k-- {
			g.Exec()
		}
		d.compare(rt, set, i)
		if d.change(rt, r) {
			changes++
		}
		if rapid.Bool().Draw(rt, "overwrite") {
			// whatever the results hold before an execution, it computes them
			for _, n := range d.nodes {
				if set[n] && n.comp && rapid.Bool().Draw(rt, "node") {
					for k, o := range n.t.GetOperands() {
						o.Value = T(77 + k + i)
					}
					overwritten = true
				}
			}
		}
	}
	g.Exec()
	d.compare(rt, set, rounds+1)
	if overwritten {
		c.L("results overwritten between executions")
	}
	c.K("rounds%d %T", rounds, d.srcV[0])
	c.NT(ops >= 2 && changes >= 1)
	c.L(fmt.Sprintf("ops<=%d", (ops+3)/4*4))
	shared := map[*gnode[T]]int{}
	for _, n := range d.nodes {
		if set[n] {
			for _, p := range n.deps {
				shared[p]++
			}
		}
	}
	for n, k := range shared {
		if k > 1 && !n.src {
			c.L("shared sub-expression")
			break
		}
	}
	for n := range set {
		if !n.src {
			c.L("op " + opLabel(n.name))
		}
	}
}

func opLabel(s string) string {
	for i, ch := range s {
		if !(ch >= 'A' && ch <= 'Z' || ch >= 'a' && ch <= 'z') {
			return s[:i]
		}
	}
	return s
}

func (d *dag[T]) compareSources(rt *rapid.T) {
	rt.Helper()
	for i, m := range d.srcT {
		if x := diffData(m.GetData(), d.srcV[i]); x != "" {
			rt.Fatalf("building changed source %d: %s", i, x)
		}
	}
}

// c06Deep: long chains with a running shared accumulator.
func c06Deep(rt *rapid.T, c *rec) {
	n := rapid.IntRange(20, 300).Draw(rt, "depth")
	r := genRng(rt, "seed")
	sh := []uint{uint(rapid.IntRange(1, 4).Draw(rt, "w"))}
	wide := uniform(rt, "wide", 20) == 19
	if wide {
		// few operations on many elements
		n, sh[0] = 1+uniform(rt, "few", 4), uint(300+r.intn(pick(rt, "many", 2000, 20000, 70000)))
		c.L("wide")
	}
	d := &dag[int64]{}
	x := d.source(sh, vals[int64](r, dSmall, int(sh[0])))
	cur := x
	for i := 0; i < n; i++ {
		a, prev := cur, d.nodes[r.intn(len(d.nodes))]
		o := r.intn(3)
		t := []func(a, b tensor.Tensor[int64]) tensor.Tensor[int64]{tensor.Add[int64], tensor.Sub[int64], tensor.Mul[int64]}[o](a.t, prev.t)
		cur = d.add(&gnode[int64]{name: opNames[o], t: t, shape: sh, deps: []*gnode[int64]{a, prev}, eval: func() ([]int64, float64) {
			p, _ := a.get(d.round)
			q, _ := prev.get(d.round)
			z := make([]int64, len(p))
			for i := range p {
				z[i] = refBin(o, p[i], q[i])
			}
			return z, 0
		}})
	}
	g, err := graph.NewGraph(cur.t)
	if err != nil {
		rt.Fatalf("building a chain of %d: %v", n, err)
	}
	set := map[*gnode[int64]]bool{}
	reachable(cur, set)
	times := 3
	if !wide && rapid.IntRange(0, 9).Draw(rt, "often") == 0 {
		times = 150
	}
	for i := 0; i < times; i++ {
		g.Exec()
		d.compareExact(rt, set, i)
		v := vals[int64](r, dSmall, int(sh[0]))
		x.t.(*tensor.TensorMat[int64]).LoadData(v)
		d.srcV[0] = v
	}
	c.K("deep%d %v seed%d", n, sh, r.s)
	c.NT(true)
}

func (d *dag[T]) compareExact(rt *rapid.T, set map[*gnode[T]]bool, exec int) {
	rt.Helper()
	d.round++
	for i, n := range d.nodes {
		if set[n] {
			want, _ := n.get(d.round)
			if x := diffData(n.t.GetData(), want); x != "" {
				rt.Fatalf("execution %d: node %d (%s): %s", exec, i, n.name, x)
			}
		}
	}
}

// c06Segments builds an expression as a series of graphs, one per prefix, and
// runs their concatenation.
func c06Segments(rt *rapid.T, c *rec) {
	d, r, ops := genDag[int64](rt, c, 12)
	if ops == 0 {
		return
	}
	var parts []*graph.Graph
	set := map[*gnode[int64]]bool{}
	owner := map[*gnode[int64]]int{} // the first graph that contains the node
	ctx := context.NewCTX()
	useCtx := rapid.Bool().Draw(rt, "ctx")
	for _, n := range d.nodes {
		if n.src || (n != d.nodes[len(d.nodes)-1] && rapid.Bool().Draw(rt, "skip")) {
			continue
		}
		reachable(n, set)
		if useCtx {
			if err := n.t.BuildGraph(ctx); err != nil {
				rt.Fatalf("building %s: %v", n.name, err)
			}
			continue
		}
		g, err := graph.NewGraph(n.t)
		if err != nil {
			rt.Fatalf("building %s: %v", n.name, err)
		}
		for q := range set {
			if _, ok := owner[q]; !ok {
				owner[q] = len(parts)
			}
		}
		parts = append(parts, g)
	}
	if useCtx {
		g, err := graph.NewGraphFrom[int64](ctx)
		if err != nil {
			rt.Fatalf("graph from context: %v", err)
		}
		parts = append(parts, g)
	}
	var all *graph.Graph
	if rapid.Bool().Draw(rt, "fromFirst") {
		all = graph.NewFromGraph[int64](parts[0])
		for _, p := range parts[1:] {
			all.AddFromGraph(p)
		}
	} else {
		all = graph.NewEmptyGraph[int64]()
		for _, p := range parts {
			all.AddFromGraph(p)
		}
	}
	for i := 0; i < 3; i++ {
		if i > 0 && rapid.Bool().Draw(rt, "separately") {
			for _, p := range parts {
				p.Exec()
			}
		} else {
			all.Exec()
		}
		d.compare(rt, set, i)
		d.change(rt, r)
	}
	if !useCtx {
		// single graphs: each computes its own nodes and only reads the others
		all.Exec()
		d.compare(rt, set, 3)
		for i := rapid.IntRange(0, 4).Draw(rt, "singly"); i > 0; i-- {
			d.change(rt, r)
			k := rapid.IntRange(0, len(parts)-1).Draw(rt, "graph")
			parts[k].Exec()
			for n := range set {
				n.hold = n.comp && owner[n] != k
			}
			d.compare(rt, set, 4)
			c.L("graphs executed singly")
		}
	}
	c.K("segments%d ctx=%v", len(parts), useCtx)
	c.NT(ops >= 2)
	c.L(fmt.Sprintf("parts%d", len(parts)))
}

type logOp struct {
	id  int
	log *[]int
}

func (l logOp) Cal() { *l.log = append(*l.log, l.id) }

// c06Join: a history of graph construction against lists of operation ids.
func c06Join(rt *rapid.T, c *rec) {
	var log []int
	graphs := []*graph.Graph{graph.NewEmptyGraph[float64]()}
	model := [][]int{nil}
	next, joins, total := 0, 0, 0
	for s := rapid.IntRange(2, 20).Draw(rt, "steps"); s > 0; s-- {
		i := rapid.IntRange(0, len(graphs)-1).Draw(rt, "g")
		switch k := rapid.IntRange(0, 5).Draw(rt, "op"); k {
		case 0, 1:
			n := rapid.IntRange(0, 4).Draw(rt, "n")
			var ops []operation.Operation
			for j := 0; j < n; j++ {
				ops = append(ops, logOp{next, &log})
				model[i] = append(model[i], next)
				next++
			}
			graphs[i].PushOperations(ops...)
			for j := range ops { // the caller may reuse its slice
				ops[j] = logOp{-1, &log}
			}
		case 2:
			graphs = append(graphs, graph.NewFromGraph[float64](graphs[i]))
			model = append(model, append([]int{}, model[i]...))
			joins++
		case 3:
			j := rapid.IntRange(0, len(graphs)-1).Draw(rt, "h")
			if len(model[i])+len(model[j]) > 200 {
				continue
			}
			graphs[i].AddFromGraph(graphs[j])
			model[i] = append(model[i], model[j]...)
			joins++
		case 4:
			ctx := context.NewCTX()
			var ids []int
			for n := rapid.IntRange(0, 5).Draw(rt, "n"); n > 0; n-- {
				ctx.Push(logOp{next, &log})
				ids = append(ids, next)
				next++
			}
			g, err := graph.NewGraphFrom[float64](ctx)
			if err != nil {
				rt.Fatalf("NewGraphFrom: %v", err)
			}
			graphs, model = append(graphs, g), append(model, ids)
		default:
			log = nil
			graphs[i].Exec()
			if fmt.Sprint(log) != fmt.Sprint(model[i]) {
				rt.Fatalf("graph %d ran %v, want %v", i, log, model[i])
			}
		}
	}
	for i, g := range graphs {
		log = nil
		g.Exec()
		total += len(log)
		if fmt.Sprint(log) != fmt.Sprint(model[i]) {
			rt.Fatalf("graph %d ran %v, want %v", i, log, model[i])
		}
	}
	c.K("join %v", model)
	c.NT(total >= 2 && joins > 0)
}
