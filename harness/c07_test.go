package harness

import (
	"fmt"
	"testing"

	"github.com/julioguillermo/godeep/context"
	"github.com/julioguillermo/godeep/graph"
	"github.com/julioguillermo/godeep/number"
	"github.com/julioguillermo/godeep/tensor"
	"github.com/julioguillermo/godeep/tools"
	"github.com/julioguillermo/godeep/types"
	"pgregory.net/rapid"
)

const ruleC07 = "ill-formed uses of every operation (shapes of different rank, with one unequal extent, with the same size but another arrangement; dimensions at and past the rank; empty, reversed and overlong ranges), called as methods, and as graph operations below 0..6 further well-formed operations (all kinds, as either operand, as source or target of a copy) and next to well-formed parts. Oracle: an error, no panic, no result, operands unchanged, and refused again when built again. Non-trivial: the fault lies below at least one other operation, or the operands have at least two elements."

func TestC07(t *testing.T) {
	run(t, "C07", ruleC07,
		sub{name: "graph", n: 9000, f: func(rt *rapid.T, c *rec) {
			dispatch(rt, c, c07Graph[float32], c07Graph[float64], c07Graph[int], c07Graph[int16], c07Graph[int32], c07Graph[int64])
		}},
		sub{name: "method", n: 9000, f: func(rt *rapid.T, c *rec) {
			dispatch(rt, c, c07Method[float32], c07Method[float64], c07Method[int], c07Method[int16], c07Method[int32], c07Method[int64])
		}},
		sub{name: "load", n: 5000, f: func(rt *rapid.T, c *rec) {
			dispatch(rt, c, c07Load[float32], c07Load[float64], c07Load[int], c07Load[int16], c07Load[int32], c07Load[int64])
		}},
	)
}

// otherShape draws a shape different from s.
func otherShape(rt *rapid.T, s []uint) ([]uint, string) {
	r := append([]uint{}, s...)
	switch rapid.IntRange(0, 5).Draw(rt, "mis") {
	case 0: // one extent, near
		if len(r) > 0 {
			i := rapid.IntRange(0, len(r)-1).Draw(rt, "misAt")
			if r[i] > 1 && rapid.Bool().Draw(rt, "less") {
				r[i]--
			} else {
				r[i]++
			}
			return r, "one extent"
		}
	case 1: // same size, another arrangement
		if len(r) > 1 {
			for i := 0; i+1 < len(r); i++ {
				if r[i] != r[i+1] {
					r[i], r[i+1] = r[i+1], r[i]
					return r, "swapped extents"
				}
			}
		}
	case 2: // a trailing or leading 1 more
		if rapid.Bool().Draw(rt, "lead") {
			return append([]uint{1}, r...), "leading 1"
		}
		return append(r, 1), "trailing 1"
	case 3: // flattened
		if len(r) != 1 {
			return []uint{uint(prod(r))}, "flattened"
		}
	case 4:
		if len(r) > 0 {
			if rapid.Bool().Draw(rt, "front") {
				return r[1:], "one dimension less"
			}
			return r[:len(r)-1], "one dimension less"
		}
	}
	for {
		n := genShape(rt, "otherShape", 0, 5, 60)
		if !eqShape(n, s) {
			return n, "another shape"
		}
		n = append(n, 2)
		if !eqShape(n, s) {
			return n, "another shape"
		}
	}
}

// fault is one ill-formed operation in both forms (method nil if there is none).
type fault[T types.Number] struct {
	name   string
	a, b   *tensor.TensorMat[T]
	graph  func(a, b tensor.Tensor[T]) tensor.Tensor[T]
	method func(a, b *tensor.TensorMat[T]) (*tensor.TensorMat[T], error)
}

func genFault[T types.Number](rt *rapid.T, c *rec) fault[T] {
	sa := genShape(rt, "shape", 0, 5, 60)
	sb := sa
	name, mis := "", ""
	f := fault[T]{}
	badDim := func(n int) uint {
		return pick(rt, "over", uint(n), uint(n), uint(n+1), uint(n+2), uint(n+7), uint(n+255), uint(n)+1<<30, 1<<32, 1<<63, ^uint(0), ^uint(0)-uint(n))
	}
	kind := rapid.IntRange(0, 11).Draw(rt, "fault")
	switch kind {
	case 0, 1, 2: // element-wise
		sb, mis = otherShape(rt, sa)
		o := rapid.IntRange(0, 3).Draw(rt, "bin")
		name = opNames[o]
		f.graph = []func(a, b tensor.Tensor[T]) tensor.Tensor[T]{tensor.Add[T], tensor.Sub[T], tensor.Mul[T], tensor.Div[T]}[o]
		f.method = func(a, b *tensor.TensorMat[T]) (*tensor.TensorMat[T], error) {
			switch o {
			case 0:
				return a.Add(b)
			case 1:
				return a.Sub(b)
			case 2:
				return a.Mul(b)
			}
			return a.Div(b)
		}
	case 3, 4: // Concat
		name = "Concat"
		var dim uint
		switch rapid.IntRange(0, 2).Draw(rt, "cc") {
		case 0:
			dim = badDim(len(sa))
			mis = "dimension"
		case 1:
			// an unequal extent other than the joined one
			if len(sa) < 2 {
				sa = append(append([]uint{}, sa...), 2, 3)[:2]
			}
			sb = append([]uint{}, sa...)
			dim = uint(rapid.IntRange(0, len(sa)-1).Draw(rt, "dim"))
			i := rapid.IntRange(0, len(sa)-2).Draw(rt, "at")
			if uint(i) >= dim {
				i++
			}
			if sb[i] > 1 && rapid.Bool().Draw(rt, "less") {
				sb[i]--
			} else {
				sb[i]++
			}
			if rapid.Bool().Draw(rt, "joinedToo") {
				sb[dim]++
			}
			mis = "other extent"
		default:
			if rapid.Bool().Draw(rt, "more") || len(sa) == 0 {
				sb = append(append([]uint{}, sa...), uint(rapid.IntRange(1, 3).Draw(rt, "ext")))
			} else {
				sb = sa[:len(sa)-1]
			}
			hi := len(sa)
			dim = uint(rapid.IntRange(0, hi).Draw(rt, "dim"))
			mis = "rank"
		}
		mis += fmt.Sprintf(" dim%d", dim)
		f.graph = func(a, b tensor.Tensor[T]) tensor.Tensor[T] { return tensor.Concat(a, b, dim) }
		f.method = func(a, b *tensor.TensorMat[T]) (*tensor.TensorMat[T], error) { return a.Concat(b, dim) }
	case 5, 6: // contraction
		name = "Dot"
		sb = genShape(rt, "shapeB", 0, 4, 60)
		plain := rapid.Bool().Draw(rt, "plain")
		if rapid.IntRange(0, 3).Draw(rt, "rank0") == 0 {
			if rapid.Bool().Draw(rt, "which") {
				sa = nil
			} else {
				sb = nil
			}
		}
		p, q := uint(0), uint(0)
		mis = "rank 0"
		if len(sa) > 0 && len(sb) > 0 {
			if plain {
				p = uint(len(sa) - 1)
				if len(sb) > 1 {
					q = uint(len(sb) - 2)
				}
				if sa[p] == sb[q] {
					sb[q] += uint(rapid.IntRange(1, 2).Draw(rt, "more"))
				}
				mis = "unequal"
			} else if rapid.Bool().Draw(rt, "dimOut") {
				p = uint(rapid.IntRange(0, len(sa)-1).Draw(rt, "p"))
				q = uint(rapid.IntRange(0, len(sb)-1).Draw(rt, "q"))
				switch rapid.IntRange(0, 2).Draw(rt, "w") {
				case 0:
					p = badDim(len(sa))
				case 1:
					q = badDim(len(sb))
				default:
					p, q = badDim(len(sa)), badDim(len(sb))
				}
				mis = "dimension"
			} else {
				p = uint(rapid.IntRange(0, len(sa)-1).Draw(rt, "p"))
				q = uint(rapid.IntRange(0, len(sb)-1).Draw(rt, "q"))
				if sa[p] == sb[q] {
					sb[q] += uint(rapid.IntRange(1, 2).Draw(rt, "more"))
				}
				mis = "unequal"
			}
		}
		mis += fmt.Sprintf(" %d,%d plain=%v", p, q, plain)
		f.graph = func(a, b tensor.Tensor[T]) tensor.Tensor[T] {
			if plain {
				return tensor.Dot(a, b)
			}
			return tensor.DotAt(a, b, p, q)
		}
		f.method = func(a, b *tensor.TensorMat[T]) (*tensor.TensorMat[T], error) {
			if plain {
				return a.Dot(b)
			}
			return a.DotAt(b, p, q)
		}
	case 7, 8: // ranges
		ext := kind == 8
		name = "SubTensor"
		if ext {
			name = "SubExtendedTensor"
		}
		dim, from, to := uint(0), uint(0), uint(1)
		k := rapid.IntRange(0, 3).Draw(rt, "range")
		if len(sa) == 0 || k == 0 {
			dim = badDim(len(sa))
			mis = "dimension"
		} else {
			dim = uint(rapid.IntRange(0, len(sa)-1).Draw(rt, "dim"))
			e := int(sa[dim])
			if k == 1 || ext {
				from = uint(rapid.IntRange(0, e+1).Draw(rt, "from"))
				to = uint(rapid.IntRange(0, int(from)).Draw(rt, "to"))
				mis = "empty range"
			} else {
				from = uint(rapid.IntRange(0, e+2).Draw(rt, "from"))
				lo := e + 1
				if int(from)+1 > lo {
					lo = int(from) + 1
				}
				to = uint(rapid.IntRange(lo, lo+3).Draw(rt, "to"))
				if k := rapid.IntRange(0, 5).Draw(rt, "far"); k == 0 {
					to = pick(rt, "farTo", uint(1)<<31, 1<<32, 1<<32+1, 1<<63, ^uint(0))
				} else if k == 1 {
					from = pick(rt, "farFrom", uint(1)<<31, 1<<32, 1<<63, ^uint(0)-1)
					to = from + 1
				}
				mis = "past the end"
			}
		}
		mis += fmt.Sprintf(" %d [%d,%d)", dim, from, to)
		f.graph = func(a, b tensor.Tensor[T]) tensor.Tensor[T] {
			if ext {
				return tensor.SubExtendedTensor(a, dim, from, to)
			}
			return tensor.SubTensor(a, dim, from, to)
		}
		f.method = func(a, b *tensor.TensorMat[T]) (*tensor.TensorMat[T], error) {
			if ext {
				return a.FOSubTensor(dim, from, to, 5)
			}
			return a.SubTensor(dim, from, to)
		}
	case 9: // per-dimension reductions
		o := rapid.IntRange(0, 3).Draw(rt, "red")
		name = "D" + redNames[o]
		dim := badDim(len(sa))
		mis = fmt.Sprintf("dimension %d", dim)
		f.graph = func(a, b tensor.Tensor[T]) tensor.Tensor[T] {
			return []func(tensor.Tensor[T], uint) tensor.Tensor[T]{tensor.DSum[T], tensor.DAvg[T], tensor.DMax[T], tensor.DMin[T]}[o](a, dim)
		}
		f.method = func(a, b *tensor.TensorMat[T]) (*tensor.TensorMat[T], error) {
			switch o {
			case 0:
				return a.DSum(dim)
			case 1:
				return a.DAvg(dim)
			case 2:
				return a.DMax(dim)
			}
			return a.DMin(dim)
		}
	case 10: // copying to a tensor of another size
		name = "CopyTo"
		sb = append([]uint{}, sa...)
		if len(sb) == 0 {
			sb = []uint{2}
		} else {
			i := rapid.IntRange(0, len(sb)-1).Draw(rt, "at")
			if sb[i] > 1 && rapid.Bool().Draw(rt, "less") {
				sb[i]--
			} else {
				sb[i]++
			}
		}
		mis = "size"
		f.graph = tensor.CopyTo[T]
	}
	if kind == 11 { // vectors of different length
		name, mis = "DotVector", "length"
		sa = []uint{uint(rapid.IntRange(1, 20).Draw(rt, "na"))}
		sb = []uint{uint(rapid.IntRange(1, 20).Draw(rt, "nb"))}
		if sa[0] == sb[0] {
			sb[0]++
		}
		f.graph = tensor.Dot[T]
		f.method = func(a, b *tensor.TensorMat[T]) (*tensor.TensorMat[T], error) { return a.DotVector(b) }
	}
	f.name = fmt.Sprintf("%s(%v, %v) %s", name, sa, sb, mis)
	f.a = mk(seq[T](prod(sa), 1), sa)
	f.b = mk(seq[T](prod(sb), 100), sb)
	c.L(name)
	return f
}

// cover puts further well-formed operations around an expression.
func cover[T types.Number](rt *rapid.T, e tensor.Tensor[T], n int) (tensor.Tensor[T], string) {
	s := ""
	for i := 0; i < n; i++ {
		k := rapid.IntRange(0, 28).Draw(rt, "cover")
		s += fmt.Sprintf("<%d", k)
		switch k {
		case 0:
			e = tensor.Neg(e)
		case 1:
			e = tensor.Abs(e)
		case 2:
			e = tensor.Activate(e, func(x T) T { return x })
		case 3:
			e = tensor.AddScalar(e, number.NewScalar[T](2))
		case 4:
			e = tensor.Sum(e)
		case 5:
			e = tensor.Transpose(e)
		case 6:
			e = tensor.Reshape(e, 2, 3)
		case 7:
			e = tensor.Add(tensor.NewZeros[T](1), tensor.Max(e))
		case 8:
			e = tensor.Mul(e, e)
		case 9:
			e = tensor.SoftMax(e)
		case 10:
			e = tensor.CopyTo[T](tensor.Min(e), tensor.NewZeros[T](1))
		case 11:
			e = tensor.Concat(tensor.Sum(e), tensor.NewOnes[T](3), 0)
		case 12:
			e = tensor.Dot(tensor.NewOnes[T](2, 3), tensor.Reshape(e, 3, 2))
		case 13, 14: // a result per dimension
			if k == 14 {
				e = tensor.Reshape(e, 2, 3)
			}
			d := uint(rapid.IntRange(0, k-13).Draw(rt, "d"))
			e = []func(tensor.Tensor[T], uint) tensor.Tensor[T]{tensor.DSum[T], tensor.DAvg[T], tensor.DMax[T], tensor.DMin[T]}[rapid.IntRange(0, 3).Draw(rt, "dop")](e, d)
		case 15, 16: // a part of it
			if k == 16 {
				e = tensor.Reshape(e, 2, 3)
			}
			f := tensor.SubTensor[T]
			if rapid.Bool().Draw(rt, "ext") {
				f = tensor.SubExtendedTensor[T]
			}
			e = f(e, uint(k-15), 0, 1)
		case 17, 18: // on either side of an operation, with a sound operand that would fit
			o := []func(a, b tensor.Tensor[T]) tensor.Tensor[T]{tensor.Add[T], tensor.Sub[T], tensor.Mul[T], tensor.Div[T]}[rapid.IntRange(0, 3).Draw(rt, "eop")]
			if k == 17 {
				e = o(tensor.Reshape(e, 2, 3), tensor.NewOnes[T](2, 3))
			} else {
				e = o(tensor.NewOnes[T](2, 3), tensor.Reshape(e, 2, 3))
			}
		case 19:
			e = tensor.Concat(tensor.NewOnes[T](2, 3), tensor.Reshape(e, 2, 3), uint(rapid.IntRange(0, 1).Draw(rt, "cd")))
		case 20:
			e = tensor.DotAt(tensor.Reshape(e, 2, 3), tensor.NewOnes[T](3, 2), 1, 0)
		case 21:
			e = tensor.DotAt(tensor.NewOnes[T](2, 3), tensor.Reshape(e, 2, 3), 0, 0)
		case 22:
			e = tensor.Dot(tensor.Flatten(tensor.Sum(e)), tensor.NewOnes[T](1))
		case 23: // what it is copied to
			e = tensor.CopyTo[T](tensor.NewOnes[T](uint(rapid.IntRange(0, 1).Draw(rt, "src"))), tensor.Sum(e))
		case 24:
			e = tensor.FillWith(e, number.NewScalar[T](1))
		case 25:
			e = tensor.Flatten(e)
		case 26:
			e = tensor.Avg(e)
		case 27:
			e = []func(tensor.Tensor[T], *number.Scalar[T]) tensor.Tensor[T]{tensor.SubScalar[T], tensor.MulScalar[T], tensor.DivScalar[T]}[rapid.IntRange(0, 2).Draw(rt, "sop")](e, number.NewScalar[T](1))
		case 28: // in one of two parts that share a sound one
			x := tensor.Neg(tensor.Tensor[T](tensor.NewOnes[T](1)))
			e = tensor.Add(x, tensor.Add(tensor.Sum(e), x))
		}
	}
	return e, s
}

func c07Graph[T types.Number](rt *rapid.T, c *rec) {
	f := genFault[T](rt, c)
	da, db := f.a.GetData(), f.b.GetData()
	var a, b tensor.Tensor[T] = f.a, f.b
	inner := rapid.IntRange(0, 4).Draw(rt, "inner")
	if inner >= 1 && f.graph != nil { // operands that are expressions themselves
		a = tensor.Neg(tensor.Neg(a))
	}
	if inner == 2 {
		b = tensor.AddScalar(b, number.NewScalar[T](0))
	}
	n := rapid.IntRange(0, 6).Draw(rt, "above")
	e, s := cover(rt, f.graph(a, b), n)
	if uniform(rt, "far", 20) == 19 { // the fault lies deep inside
		for k := 1 + uniform(rt, "depth", 300); k > 0; k-- {
			e = tensor.Neg(e)
			n++
		}
		s += fmt.Sprintf("<far%d", n)
	}
	var g *graph.Graph
	var err error
	how := rapid.IntRange(0, 4).Draw(rt, "how")
	p := catch(func() {
		switch how {
		case 0:
			g, err = graph.NewGraph(e)
		case 1:
			err = e.BuildGraph(context.NewCTX())
		case 2: // as the source of a copy or the target of a fill
			ctx := context.NewCTX()
			err = tensor.Fill(ctx, e, number.NewScalar[T](1))
		case 3:
			err = tensor.Transfer[T](context.NewCTX(), tensor.Reshape(e, 2), tensor.NewZeros[T](2))
		case 4:
			err = tensor.Transfer[T](context.NewCTX(), tensor.NewZeros[T](2), tensor.Reshape(e, 2))
		}
	})
	if p != "" {
		rt.Fatalf("building %s %s: %s", f.name, s, p)
	}
	if err == nil {
		rt.Fatalf("building %s %s gave no error", f.name, s)
	}
	if g != nil {
		rt.Fatalf("building %s %s gave an error and a graph", f.name, s)
	}
	if err.Error() == "" {
		rt.Fatalf("building %s %s: the error says nothing", f.name, s)
	}
	if how == 0 {
		// it is as faulty as before, on its own or inside yet another expression
		again := e
		if rapid.Bool().Draw(rt, "againAbove") {
			again = tensor.Neg(e)
		}
		p := catch(func() { g, err = graph.NewGraph(again) })
		if p != "" || err == nil || g != nil {
			rt.Fatalf("building %s %s once more after it was refused: panic %q, error %v", f.name, s, p, err)
		}
	}
	if x := diffData(f.a.GetData(), da); x != "" {
		rt.Fatalf("building %s changed an operand: %s", f.name, x)
	}
	if x := diffData(f.b.GetData(), db); x != "" {
		rt.Fatalf("building %s changed an operand: %s", f.name, x)
	}
	c.K("%s inner%d %s how%d", f.name, inner, s, how)
	c.NT(n > 0 || len(da) > 1)
}

func c07Method[T types.Number](rt *rapid.T, c *rec) {
	f := genFault[T](rt, c)
	if f.method == nil {
		// copying has no method; the graph function with a context is the immediate way to ask for it
		f.method = func(a, b *tensor.TensorMat[T]) (*tensor.TensorMat[T], error) {
			return nil, tensor.Transfer[T](context.NewCTX(), a, b)
		}
	}
	da, db := f.a.GetData(), f.b.GetData()
	var r *tensor.TensorMat[T]
	var err error
	if p := catch(func() { r, err = f.method(f.a, f.b) }); p != "" {
		rt.Fatalf("%s: %s", f.name, p)
	}
	if err == nil || r != nil {
		rt.Fatalf("%s gave %v, %v; want no result and an error", f.name, r, err)
	}
	if err.Error() == "" {
		rt.Fatalf("%s: the error says nothing", f.name)
	}
	if x := diffData(f.a.GetData(), da); x != "" {
		rt.Fatalf("%s changed an operand: %s", f.name, x)
	}
	if x := diffData(f.b.GetData(), db); x != "" {
		rt.Fatalf("%s changed an operand: %s", f.name, x)
	}
	c.K("%s", f.name)
	c.NT(len(da) > 1)
}

func c07Load[T types.Number](rt *rapid.T, c *rec) {
	shape := genShape(rt, "shape", 0, 5, 200)
	d := seq[T](prod(shape), 5)
	m := mk(d, shape)
	if rapid.Bool().Draw(rt, "data") {
		n := rapid.IntRange(0, 2*len(d)+2).Draw(rt, "n")
		if n == len(d) {
			n++
		}
		var err error
		if p := catch(func() { err = m.LoadData(seq[T](n, 1000)) }); p != "" || err == nil {
			rt.Fatalf("LoadData of %d values into %v: %s %v", n, shape, p, err)
		}
		c.K("LoadData %v %d", shape, n)
		c.L("LoadData")
	} else {
		other, mis := otherShape(rt, shape)
		o := mk(seq[T](prod(other), 1000), other)
		var err error
		if p := catch(func() { err = m.LoadFromTensor(o) }); p != "" || err == nil {
			rt.Fatalf("LoadFromTensor of %v into %v: %s %v", other, shape, p, err)
		}
		if err := tools.GetEqShapeErr("x", shape, other); err == nil {
			rt.Fatalf("GetEqShapeErr(%v, %v) gave no error", shape, other)
		}
		if err := tools.GetEqShapeErr("x", shape, append([]uint{}, shape...)); err != nil {
			rt.Fatalf("GetEqShapeErr of equal shapes %v: %v", shape, err)
		}
		c.K("LoadFromTensor %v %v", shape, other)
		c.L(mis)
	}
	checkTensor[T](rt, "tensor after a refused load", m, shape, d)
	c.NT(len(d) > 1)
}
