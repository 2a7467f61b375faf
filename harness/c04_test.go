package harness

import (
	"testing"

	"github.com/julioguillermo/godeep/context"
	"github.com/julioguillermo/godeep/graph"
	"github.com/julioguillermo/godeep/number"
	"github.com/julioguillermo/godeep/tensor"
	"github.com/julioguillermo/godeep/types"
	"pgregory.net/rapid"
)

const ruleC04 = "shapes of rank 0..12 (mostly up to 6; up to 3000 elements), all six element types, every dimension, ranges inside and (extended form) past the end, target sizes below, at and above the source; oracle: index arithmetic on the flat data. Non-trivial: the operation moves, drops, adds or joins elements of a tensor with at least two."

func TestC04(t *testing.T) {
	run(t, "C04", ruleC04,
		sub{name: "transpose", n: 4000, f: func(rt *rapid.T, c *rec) {
			dispatch(rt, c, c04Transpose[float32], c04Transpose[float64], c04Transpose[int], c04Transpose[int16], c04Transpose[int32], c04Transpose[int64])
		}},
		sub{name: "concat", n: 6000, f: func(rt *rapid.T, c *rec) {
			dispatch(rt, c, c04Concat[float32], c04Concat[float64], c04Concat[int], c04Concat[int16], c04Concat[int32], c04Concat[int64])
		}},
		sub{name: "subtensor", n: 8000, f: func(rt *rapid.T, c *rec) {
			dispatch(rt, c, c04Sub[float32], c04Sub[float64], c04Sub[int], c04Sub[int16], c04Sub[int32], c04Sub[int64])
		}},
		sub{name: "reshape", n: 6000, f: func(rt *rapid.T, c *rec) {
			dispatch(rt, c, c04Reshape[float32], c04Reshape[float64], c04Reshape[int], c04Reshape[int16], c04Reshape[int32], c04Reshape[int64])
		}},
		sub{name: "copyFill", n: 6000, f: func(rt *rapid.T, c *rec) {
			dispatch(rt, c, c04Copy[float32], c04Copy[float64], c04Copy[int], c04Copy[int16], c04Copy[int32], c04Copy[int64])
		}},
	)
}

// seq gives distinct values where the type allows it.
func seq[T types.Number](n, from int) []T {
	v := make([]T, n)
	for i := range v {
		v[i] = T(from + i)
	}
	return v
}

// genDistinct: mostly distinct values (so that any misplacement shows), sometimes special ones.
func genDistinct[T types.Number](rt *rapid.T, c *rec, label string, n int) []T {
	if rapid.IntRange(0, 3).Draw(rt, label+"Data") == 0 {
		return genVals[T](rt, c, label, n)
	}
	return seq[T](n, rapid.IntRange(-500, 500).Draw(rt, label+"From"))
}

func refTranspose[T types.Number](shape []uint, d []T) ([]uint, []T) {
	n := len(shape)
	rs := make([]uint, n)
	for i := range rs {
		rs[i] = shape[n-1-i]
	}
	want := make([]T, len(d))
	mul := strides(rs)
	each(shape, func(k int, ix []uint) {
		r := make([]uint, n)
		for i := range r {
			r[i] = ix[n-1-i]
		}
		want[ravel(r, mul)] = d[k]
	})
	return rs, want
}

func c04Transpose[T types.Number](rt *rapid.T, c *rec) {
	shape := genShape(rt, "shape", 0, 6, 3000)
	d := genDistinct[T](rt, c, "a", prod(shape))
	a := mk(d, shape)
	rs, want := refTranspose(shape, d)
	r, err := a.Transpose()
	if err != nil {
		rt.Fatalf("Transpose of %v: %v", shape, err)
	}
	checkTensor[T](rt, "Transpose method", r, rs, want)
	e := tensor.Transpose[T](a)
	checkTensor[T](rt, "Transpose graph", exec(rt, "Transpose", e), rs, want)
	rr, err := r.Transpose()
	if err != nil {
		rt.Fatalf("Transpose twice of %v: %v", shape, err)
	}
	checkTensor[T](rt, "Transpose twice", rr, shape, d)
	checkTensor[T](rt, "Transpose twice graph", exec(rt, "Transpose", tensor.Transpose(tensor.Transpose[T](a))), shape, d)
	checkTensor[T](rt, "Transpose operand afterwards", a, shape, d)
	c.K("Transpose %v", shape)
	big := 0
	for _, s := range shape {
		if s > 1 {
			big++
		}
	}
	c.NT(big > 1)
	shapeLabels(c, shape)
}

func refConcat[T types.Number](sa, sb []uint, da, db []T, dim int) ([]uint, []T) {
	rs := append([]uint{}, sa...)
	rs[dim] += sb[dim]
	want := make([]T, prod(rs))
	ma, mb := strides(sa), strides(sb)
	each(rs, func(k int, ix []uint) {
		if ix[dim] < sa[dim] {
			want[k] = da[ravel(ix, ma)]
		} else {
			j := append([]uint{}, ix...)
			j[dim] -= sa[dim]
			want[k] = db[ravel(j, mb)]
		}
	})
	return rs, want
}

func refSub[T types.Number](shape []uint, d []T, dim int, from, to uint, fill T) ([]uint, []T) {
	rs := append([]uint{}, shape...)
	rs[dim] = to - from
	want := make([]T, prod(rs))
	mul := strides(shape)
	each(rs, func(k int, ix []uint) {
		j := append([]uint{}, ix...)
		j[dim] += from
		if j[dim] >= shape[dim] {
			want[k] = fill
		} else {
			want[k] = d[ravel(j, mul)]
		}
	})
	return rs, want
}

func c04Concat[T types.Number](rt *rapid.T, c *rec) {
	sa := genShape(rt, "shape", 1, 6, 1500)
	dim := rapid.IntRange(0, len(sa)-1).Draw(rt, "dim")
	sb := append([]uint{}, sa...)
	if rapid.Bool().Draw(rt, "other") {
		hi := 3000 * int(sa[dim]) / prod(sa) // keep the size bounded
		if hi > 9 {
			hi = 9
		}
		if hi < 1 {
			hi = 1
		}
		sb[dim] = uint(rapid.IntRange(1, hi).Draw(rt, "ext"))
	}
	da := genDistinct[T](rt, c, "a", prod(sa))
	db := genDistinct[T](rt, c, "b", prod(sb))
	a, b := mk(da, sa), mk(db, sb)
	if rapid.IntRange(0, 9).Draw(rt, "same") == 0 {
		sb, db, b = sa, da, a
	}
	rs, want := refConcat(sa, sb, da, db, dim)
	r, err := a.Concat(b, uint(dim))
	if err != nil {
		rt.Fatalf("Concat of %v and %v at %d: %v", sa, sb, dim, err)
	}
	checkTensor[T](rt, "Concat method", r, rs, want)
	e := tensor.Concat[T](a, b, uint(dim))
	checkTensor[T](rt, "Concat graph", exec(rt, "Concat", e), rs, want)
	// cutting at the seam
	l, err := r.SubTensor(uint(dim), 0, sa[dim])
	if err != nil {
		rt.Fatalf("cutting %v at %d: %v", rs, dim, err)
	}
	h, err := r.SubTensor(uint(dim), sa[dim], rs[dim])
	if err != nil {
		rt.Fatalf("cutting %v at %d: %v", rs, dim, err)
	}
	checkTensor[T](rt, "left of the seam", l, sa, da)
	checkTensor[T](rt, "right of the seam", h, sb, db)
	checkTensor[T](rt, "right of the seam, graph", exec(rt, "cut", tensor.SubTensor[T](tensor.Concat[T](a, b, uint(dim)), uint(dim), sa[dim], rs[dim])), sb, db)
	checkTensor[T](rt, "Concat left operand afterwards", a, sa, da)
	checkTensor[T](rt, "Concat right operand afterwards", b, sb, db)
	c.K("Concat %v %v dim%d", sa, sb, dim)
	c.NT(prod(rs) > 2)
	shapeLabels(c, rs)
}

func c04Sub[T types.Number](rt *rapid.T, c *rec) {
	shape := genShape(rt, "shape", 1, 6, 2000)
	dim := rapid.IntRange(0, len(shape)-1).Draw(rt, "dim")
	d := genDistinct[T](rt, c, "a", prod(shape))
	a := mk(d, shape)
	ext := int(shape[dim])
	kind := rapid.IntRange(0, 3).Draw(rt, "kind")
	if kind == 0 {
		from := rapid.IntRange(0, ext-1).Draw(rt, "from")
		to := rapid.IntRange(from+1, ext).Draw(rt, "to")
		rs, want := refSub(shape, d, dim, uint(from), uint(to), 0)
		r, err := a.SubTensor(uint(dim), uint(from), uint(to))
		if err != nil {
			rt.Fatalf("SubTensor(%d, %d, %d) of %v: %v", dim, from, to, shape, err)
		}
		checkTensor[T](rt, "SubTensor method", r, rs, want)
		checkTensor[T](rt, "SubTensor graph", exec(rt, "SubTensor", tensor.SubTensor[T](a, uint(dim), uint(from), uint(to))), rs, want)
		c.K("Sub %v dim%d [%d,%d)", shape, dim, from, to)
		c.NT(to-from < ext && shapeNT(shape))
		c.L("inside")
	} else {
		from := rapid.IntRange(0, ext+2).Draw(rt, "from")
		to := rapid.IntRange(from+1, ext+5).Draw(rt, "to")
		var fill T
		if kind != 1 {
			fill = T(rapid.IntRange(-50, 50).Draw(rt, "fill"))
		}
		rs, want := refSub(shape, d, dim, uint(from), uint(to), fill)
		r, err := a.FOSubTensor(uint(dim), uint(from), uint(to), fill)
		if err != nil {
			rt.Fatalf("FOSubTensor(%d, %d, %d) of %v: %v", dim, from, to, shape, err)
		}
		checkTensor[T](rt, "FOSubTensor", r, rs, want)
		rs, want = refSub(shape, d, dim, uint(from), uint(to), 0)
		e := exec(rt, "SubExtendedTensor", tensor.SubExtendedTensor[T](a, uint(dim), uint(from), uint(to)))
		checkTensor[T](rt, "SubExtendedTensor", e, rs, want)
		c.K("Ext %v dim%d [%d,%d) fill%v", shape, dim, from, to, fill)
		c.NT(to > ext || to-from < ext)
		if to > ext {
			c.L("past the end")
		}
	}
	checkTensor[T](rt, "SubTensor operand afterwards", a, shape, d)
	shapeLabels(c, shape)
}

func refReshape[T types.Number](d []T, n int) []T {
	want := make([]T, n)
	copy(want, d)
	return want
}

func c04Reshape[T types.Number](rt *rapid.T, c *rec) {
	shape := genShape(rt, "shape", 0, 6, 2000)
	d := genDistinct[T](rt, c, "a", prod(shape))
	a := mk(d, shape)
	var ns []uint
	switch rapid.IntRange(0, 2).Draw(rt, "kind") {
	case 0: // another shape of the same size
		rest := uint(prod(shape))
		for rest > 1 && len(ns) < 5 {
			var div []uint
			for k := uint(1); k <= rest; k++ {
				if rest%k == 0 {
					div = append(div, k)
				}
			}
			f := pick(rt, "div", div...)
			ns = append(ns, f)
			rest /= f
		}
		ns = append(ns, rest)
	default:
		ns = genShape(rt, "new", 0, 6, 3000)
	}
	want := refReshape(d, prod(ns))
	checkTensor[T](rt, "Reshape method", a.Reshape(ns...), ns, want)
	checkTensor[T](rt, "Reshape graph", exec(rt, "Reshape", reshapeOwn[T](a, ns)), ns, want)
	flat := []uint{uint(len(d))}
	checkTensor[T](rt, "Flatten", exec(rt, "Flatten", tensor.Flatten[T](a)), flat, d)
	checkTensor[T](rt, "Flatten of an expression", exec(rt, "Flatten", tensor.Flatten[T](tensor.Neg[T](tensor.Neg[T](a)))), flat, negneg(d))
	back := refReshape(want, len(d))
	checkTensor[T](rt, "Reshape and back", exec(rt, "Reshape", tensor.Reshape(tensor.Reshape[T](a, ns...), shape...)), shape, back)
	checkTensor[T](rt, "Reshape operand afterwards", a, shape, d)
	c.K("Reshape %v->%v", shape, ns)
	c.NT(shapeNT(shape) && !eqShape(shape, ns))
	switch {
	case prod(ns) < len(d):
		c.L("truncating")
	case prod(ns) > len(d):
		c.L("padding")
	default:
		c.L("same size")
	}
	shapeLabels(c, shape)
}

func negneg[T types.Number](d []T) []T {
	r := make([]T, len(d))
	for i := range d {
		r[i] = -(-d[i])
	}
	return r
}

func c04Copy[T types.Number](rt *rapid.T, c *rec) {
	shape := genShape(rt, "shape", 0, 6, 3000)
	n := prod(shape)
	d := genDistinct[T](rt, c, "a", n)
	old := seq[T](n, -700)
	a := mk(d, shape)
	// the target is a part of a bigger tensor half of the time, whose other
	// elements must stay what they are
	part := len(shape) > 0 && rapid.Bool().Draw(rt, "part")
	// or a tensor reshaped into a smaller or bigger one
	var under *tensor.TensorMat[T]
	var underBefore []T
	var whole *tensor.TensorMat[T]
	var wholeBefore []T
	var ws []uint
	var to tensor.Tensor[T]
	dim, from := 0, uint(0)
	if part {
		dim = rapid.IntRange(0, len(shape)-1).Draw(rt, "dim")
		from = uint(rapid.IntRange(0, 2).Draw(rt, "before"))
		ws = append([]uint{}, shape...)
		ws[dim] += from + uint(rapid.IntRange(0, 2).Draw(rt, "after"))
		wholeBefore = seq[T](prod(ws), -900)
		whole = mk(wholeBefore, ws)
		to = tensor.SubTensor[T](whole, uint(dim), from, from+shape[dim])
	} else if rapid.IntRange(0, 2).Draw(rt, "reshaped") == 0 {
		us := genShape(rt, "under", 0, 4, 200)
		underBefore = seq[T](prod(us), -700)
		under = mk(underBefore, us)
		to = tensor.Reshape[T](under, shape...)
		old = refReshape(underBefore, n)
		c.L("reshaped target")
	} else {
		if uniform(rt, "same", 3) == 0 { // it already holds what it is given
			old = append([]T{}, d...)
		}
		to = mk(old, shape)
	}
	kind := rapid.IntRange(0, 5).Draw(rt, "kind")
	want := d
	ctx := context.NewCTX()
	fillV := number.NewScalar(T(rapid.IntRange(-90, 90).Draw(rt, "v")))
	var err error
	var g *graph.Graph
	switch kind {
	case 0, 1:
		if kind == 0 {
			err = tensor.Transfer[T](ctx, a, to)
		} else {
			cp := tensor.CopyTo[T](a, to)
			err = cp.BuildGraph(ctx)
			defer func() { checkTensor(rt, "CopyTo result", cp, shape, want) }()
		}
	case 2, 3:
		want = make([]T, n)
		for i := range want {
			want[i] = fillV.Value
		}
		if kind == 2 {
			err = tensor.Fill[T](ctx, to, fillV)
		} else {
			f := tensor.FillWith[T](to, fillV)
			err = f.BuildGraph(ctx)
			defer func() { checkTensor(rt, "FillWith result", f, shape, want) }()
		}
	default: // immediate fill
		m := mk(old, shape)
		if kind == 4 {
			m.Fill(fillV)
		} else {
			m.FillData(fillV.Value)
		}
		for _, v := range m.GetData() {
			if v != fillV.Value {
				rt.Fatalf("Fill of %v left %v, want %v", shape, v, fillV.Value)
			}
		}
		want = d
		err = tensor.Transfer[T](ctx, a, to)
	}
	if err != nil {
		rt.Fatalf("copy/fill kind %d of %v: %v", kind, shape, err)
	}
	g, err = graph.NewGraphFrom[T](ctx)
	if err != nil {
		rt.Fatalf("graph: %v", err)
	}
	if whole == nil && under == nil {
		if x := diffData(to.GetData(), old); x != "" {
			rt.Fatalf("the target changed before execution: %s", x)
		}
	} else if under != nil {
		if x := diffData(under.GetData(), underBefore); x != "" {
			rt.Fatalf("the tensor under the target changed before execution: %s", x)
		}
	} else if x := diffData(whole.GetData(), wholeBefore); x != "" {
		rt.Fatalf("the target changed before execution: %s", x)
	}
	if whole == nil && under == nil && uniform(rt, "later", 3) == 0 { // what counts is the execution
		if err := to.LoadData(seq[T](n, -300)); err != nil {
			rt.Fatalf("LoadData: %v", err)
		}
	}
	g.Exec()
	checkTensor(rt, "target", to, shape, want)
	checkTensor[T](rt, "source afterwards", a, shape, d)
	if whole != nil {
		exp := append([]T{}, wholeBefore...)
		mul, wm := strides(shape), strides(ws)
		each(shape, func(k int, ix []uint) {
			j := append([]uint{}, ix...)
			j[dim] += from
			exp[ravel(j, wm)] = want[ravel(ix, mul)]
		})
		checkTensor[T](rt, "tensor around the target", whole, ws, exp)
	}
	if under != nil {
		exp := append([]T{}, underBefore...)
		copy(exp, want)
		checkTensor[T](rt, "tensor under the reshaped target", under, under.GetShape(), exp)
	}
	c.K("copy%d %v part=%v %d", kind, shape, part, from)
	c.NT(shapeNT(shape))
	shapeLabels(c, shape)
}

// reshapeOwn gives Reshape a slice that the caller goes on using.
func reshapeOwn[T types.Number](a tensor.Tensor[T], shape []uint) tensor.Tensor[T] {
	arg := append([]uint{}, shape...)
	t := tensor.Reshape(a, arg...)
	for i := range arg {
		arg[i] += 2
	}
	return t
}
