package harness

import (
	"bytes"
	"fmt"
	"testing"

	"github.com/julioguillermo/godeep/number"
	"github.com/julioguillermo/godeep/tensor"
	"github.com/julioguillermo/godeep/types"
	"pgregory.net/rapid"
)

const ruleC08 = "histories of 4..40 steps over a growing pool of tensors, value slices and shape slices: creating (every constructor, Copy, every immediate operation, Reshape, load/save, Bind), handing out data and shapes, and writing single elements, whole tensors, or the slices that were given or handed out. Oracle: a model in which every element is a cell of its own (Bind alone shares cells); after every step every tensor and slice of the pool must equal its model. Non-trivial: at least one write happened to an object another one was derived from, or to a derived one."

func TestC08(t *testing.T) {
	run(t, "C08", ruleC08,
		sub{name: "history", n: 8000, f: func(rt *rapid.T, c *rec) {
			dispatch(rt, c, c08History[float32], c08History[float64], c08History[int], c08History[int16], c08History[int32], c08History[int64])
		}},
		sub{name: "bothWays", n: 8000, f: func(rt *rapid.T, c *rec) {
			dispatch(rt, c, c08Both[float32], c08Both[float64], c08Both[int], c08Both[int16], c08Both[int32], c08Both[int64])
		}},
	)
}

type pooled[T types.Number] struct {
	t     *tensor.TensorMat[T]
	shape []uint
	cells []*T
	from  string
	used  bool // derived from or derived of
}

func newPooled[T types.Number](t *tensor.TensorMat[T], from string) *pooled[T] {
	p := &pooled[T]{t: t, from: from, shape: t.GetShape()}
	for _, v := range t.GetData() {
		v := v
		p.cells = append(p.cells, &v)
	}
	return p
}

func (p *pooled[T]) diff() string {
	if !eqShape(p.t.GetShape(), p.shape) {
		return fmt.Sprintf("shape became %v, was %v", p.t.GetShape(), p.shape)
	}
	if !eqShape(p.t.GetMulIndex(), strides(p.shape)) {
		return fmt.Sprintf("index multipliers became %v for shape %v", p.t.GetMulIndex(), p.shape)
	}
	d := p.t.GetData()
	if len(d) != len(p.cells) {
		return fmt.Sprintf("has %d elements, had %d", len(d), len(p.cells))
	}
	for i := range d {
		if !eqVal(d[i], *p.cells[i]) {
			return fmt.Sprintf("element %d became %v, was %v", i, d[i], *p.cells[i])
		}
	}
	return ""
}

// immediate lists every immediate operation; each returns nil when it does not apply.
type immediate[T types.Number] struct {
	name string
	f    func(a, b *tensor.TensorMat[T], r *rng, shape []uint) *tensor.TensorMat[T]
}

func okOr[T types.Number](t *tensor.TensorMat[T], err error) *tensor.TensorMat[T] {
	if err != nil {
		return nil
	}
	return t
}

func immediates[T types.Number]() []immediate[T] {
	type M = tensor.TensorMat[T]
	dim := func(a *M, r *rng) (uint, bool) {
		n := len(a.GetShape())
		if n == 0 {
			return 0, false
		}
		return uint(r.intn(n)), true
	}
	nonzero := func(a *M) bool {
		for _, v := range a.GetData() {
			if v == 0 {
				return false
			}
		}
		return true
	}
	l := []immediate[T]{
		{"Copy", func(a, b *M, r *rng, s []uint) *M { return a.Copy().GetMatrix() }},
		{"Add", func(a, b *M, r *rng, s []uint) *M { return okOr(a.Add(b)) }},
		{"Sub", func(a, b *M, r *rng, s []uint) *M { return okOr(a.Sub(b)) }},
		{"Mul", func(a, b *M, r *rng, s []uint) *M { return okOr(a.Mul(b)) }},
		{"Div", func(a, b *M, r *rng, s []uint) *M {
			if !nonzero(b) {
				return nil
			}
			return okOr(a.Div(b))
		}},
		{"AddScalar", func(a, b *M, r *rng, s []uint) *M { return a.AddScalar(&number.Scalar[T]{Value: 0}) }},
		{"SubScalar", func(a, b *M, r *rng, s []uint) *M { return a.SubScalar(&number.Scalar[T]{Value: 0}) }},
		{"MulScalar", func(a, b *M, r *rng, s []uint) *M { return a.MulScalar(&number.Scalar[T]{Value: 1}) }},
		{"DivScalar", func(a, b *M, r *rng, s []uint) *M { return a.DivScalar(&number.Scalar[T]{Value: 1}) }},
		{"Neg", func(a, b *M, r *rng, s []uint) *M { return a.Neg() }},
		{"Abs", func(a, b *M, r *rng, s []uint) *M { return a.Abs() }},
		{"Activate", func(a, b *M, r *rng, s []uint) *M { return a.Activate(func(x T) T { return x }) }},
		{"Transpose", func(a, b *M, r *rng, s []uint) *M { return okOr(a.Transpose()) }},
		{"Reshape", func(a, b *M, r *rng, s []uint) *M { return a.Reshape(s...) }},
		{"Sum", func(a, b *M, r *rng, s []uint) *M { return a.Sum() }},
		{"Avg", func(a, b *M, r *rng, s []uint) *M {
			if len(a.GetData()) > 100 {
				return nil
			}
			return a.Avg()
		}},
		{"Max", func(a, b *M, r *rng, s []uint) *M { return a.Max() }},
		{"Min", func(a, b *M, r *rng, s []uint) *M { return a.Min() }},
		{"Concat", func(a, b *M, r *rng, s []uint) *M {
			d, ok := dim(a, r)
			if !ok || a.GetSize()+b.GetSize() > 400 {
				return nil
			}
			return okOr(a.Concat(b, d))
		}},
		{"ConcatSelf", func(a, b *M, r *rng, s []uint) *M {
			d, ok := dim(a, r)
			if !ok || a.GetSize() > 200 {
				return nil
			}
			return okOr(a.Concat(a, d))
		}},
		{"SubTensor", func(a, b *M, r *rng, s []uint) *M {
			d, ok := dim(a, r)
			if !ok {
				return nil
			}
			n := int(a.GetShape()[d])
			from := r.intn(n)
			return okOr(a.SubTensor(d, uint(from), uint(r.between(from+1, n))))
		}},
		{"SubTensorWhole", func(a, b *M, r *rng, s []uint) *M {
			d, ok := dim(a, r)
			if !ok {
				return nil
			}
			return okOr(a.SubTensor(d, 0, a.GetShape()[d]))
		}},
		{"FOSubTensor", func(a, b *M, r *rng, s []uint) *M {
			d, ok := dim(a, r)
			if !ok || a.GetSize() > 100 {
				return nil
			}
			n := int(a.GetShape()[d])
			from := r.intn(n)
			return okOr(a.FOSubTensor(d, uint(from), uint(r.between(from+1, n+3)), 7))
		}},
		{"Dot", func(a, b *M, r *rng, s []uint) *M {
			if a.GetSize()*b.GetSize() > 400 || len(a.GetShape()) == 0 || len(b.GetShape()) == 0 {
				return nil
			}
			return okOr(a.Dot(b))
		}},
	}
	for i, n := range []string{"DSum", "DAvg", "DMax", "DMin"} {
		i := i
		l = append(l, immediate[T]{n, func(a, b *M, r *rng, s []uint) *M {
			d, ok := dim(a, r)
			if !ok {
				return nil
			}
			return okOr([]func(uint) (*M, error){a.DSum, a.DAvg, a.DMax, a.DMin}[i](d))
		}})
		l = append(l, immediate[T]{n + "Last", func(a, b *M, r *rng, s []uint) *M {
			if len(a.GetShape()) == 0 {
				return nil
			}
			return okOr([]func(uint) (*M, error){a.DSum, a.DAvg, a.DMax, a.DMin}[i](uint(len(a.GetShape()) - 1)))
		}})
	}
	if isFloat[T]() {
		l = append(l, immediate[T]{"SoftMax", func(a, b *M, r *rng, s []uint) *M { return a.SoftMax() }})
	}
	return l
}

func fresh[T types.Number](r *rng) T { return T(r.between(-9, 9)) }

// c08Both checks one derivation thoroughly: every element and every shape entry is written on either side.
func c08Both[T types.Number](rt *rapid.T, c *rec) {
	ops := immediates[T]()
	k := rapid.IntRange(0, len(ops)-1).Draw(rt, "op")
	shape := genShape(rt, "shape", 0, 5, 60)
	r := genRng(rt, "seed")
	da, db := vals[T](r, dSmall, prod(shape)), vals[T](r, dSmall, prod(shape))
	for i := range db {
		if db[i] == 0 {
			db[i] = 1
		}
	}
	a, b := mk(da, shape), mk(db, shape)
	to := genShape(rt, "to", 0, 5, 60)
	toArg := append([]uint{}, to...)
	if rapid.Bool().Draw(rt, "sameShape") {
		toArg = append([]uint{}, shape...)
	}
	var res *tensor.TensorMat[T]
	if m := catch(func() { res = ops[k].f(a, b, r, toArg) }); m != "" {
		rt.Fatalf("%s on %v: %s", ops[k].name, shape, m)
	}
	c.K("%s %v to %v seed%d", ops[k].name, shape, toArg, r.s)
	c.L(ops[k].name)
	if res == nil {
		c.Triv()
		return
	}
	c.NT(true)
	pa, pb, pr := newPooled(a, "operand"), newPooled(b, "second operand"), newPooled(res, ops[k].name)
	all := []*pooled[T]{pa, pb, pr}
	verify := func(step string) {
		rt.Helper()
		for _, p := range all {
			if d := p.diff(); d != "" {
				rt.Fatalf("%s on %v, then %s: the %s %s", ops[k].name, shape, step, p.from, d)
			}
		}
	}
	verify("nothing")
	for i := range toArg {
		toArg[i] = 77
	}
	verify("writing the shape argument")
	for _, p := range all {
		for i := range p.cells {
			v := *p.cells[i] + 1
			if v != v || v == *p.cells[i] {
				v = 3
			}
			*p.cells[i] = v
			if err := p.t.Set(v, unravel(uint(i), strides(p.shape))...); err != nil {
				rt.Fatalf("Set: %v", err)
			}
			if len(p.cells) < 20 || i%7 == 0 {
				verify(fmt.Sprintf("Set of element %d of the %s", i, p.from))
			}
		}
		verify("writing all elements of the " + p.from)
		sh, mul := p.t.GetShape(), p.t.GetMulIndex()
		for i := range sh {
			sh[i] += 5
			mul[i] += 5
		}
		verify("writing the shape handed out by the " + p.from)
		// the exported slices themselves
		for _, f := range [][]uint{p.t.Shape, p.t.MulIndex} {
			for i := range f {
				old := f[i]
				f[i] = old + 3
				for _, q := range all {
					if q != p {
						if d := q.diff(); d != "" {
							rt.Fatalf("%s on %v, then writing Shape/MulIndex of the %s: the %s %s", ops[k].name, shape, p.from, q.from, d)
						}
					}
				}
				f[i] = old
			}
		}
		d := p.t.GetData()
		for i := range d {
			d[i] += 9
		}
		verify("writing the data handed out by the " + p.from)
	}
}

func c08History[T types.Number](rt *rapid.T, c *rec) {
	type vslice struct {
		s, m []T
		from string
	}
	type sslice struct {
		s, m []uint
		from string
	}
	var pool []*pooled[T]
	var vs []*vslice
	var ss []*sslice
	ops := immediates[T]()
	r := genRng(rt, "seed")
	n := rapid.IntRange(4, 40).Draw(rt, "steps")
	trace := ""
	derived, written := false, false
	verify := func(step string) {
		rt.Helper()
		trace += step + "; "
		for i, p := range pool {
			if d := p.diff(); d != "" {
				rt.Fatalf("after %s: tensor %d (%s) %s\nhistory: %s", step, i, p.from, d, trace)
			}
		}
		for i, v := range vs {
			if d := diffData(v.s, v.m); d != "" {
				rt.Fatalf("after %s: slice %d (%s): %s\nhistory: %s", step, i, v.from, d, trace)
			}
		}
		for i, v := range ss {
			if !eqShape(v.s, v.m) {
				rt.Fatalf("after %s: shape slice %d (%s) became %v, was %v\nhistory: %s", step, i, v.from, v.s, v.m, trace)
			}
		}
	}
	keepS := func(s []uint, from string) { ss = append(ss, &sslice{s, append([]uint{}, s...), from}) }
	keepV := func(s []T, from string) { vs = append(vs, &vslice{s, append([]T{}, s...), from}) }
	add := func(t *tensor.TensorMat[T], from string) *pooled[T] {
		p := newPooled(t, from)
		pool = append(pool, p)
		return p
	}
	construct := func() {
		shape := genShape(rt, "shape", 0, 4, 24)
		arg := append([]uint{}, shape...)
		var t *tensor.TensorMat[T]
		var name string
		switch rapid.IntRange(0, 4).Draw(rt, "ctor") {
		case 0:
			t, name = tensor.NewZeros[T](arg...), "NewZeros"
		case 1:
			t, name = tensor.NewOnes[T](arg...), "NewOnes"
		case 2:
			t, name = tensor.NewRand[T](-20, 20, arg...), "NewRand"
		case 3:
			t, name = tensor.NewNormRand[T](arg...), "NewNormRand"
		default:
			v := vals[T](r, dSmall, prod(shape)+r.between(-1, 2))
			t, name = tensor.NewFromValues[T](v, arg...), "NewFromValues"
			keepV(v, "given to NewFromValues")
		}
		keepS(arg, "given to "+name)
		p := add(t, name)
		if !eqShape(p.shape, shape) {
			rt.Fatalf("%s(%v) has shape %v", name, shape, p.shape)
		}
		verify(fmt.Sprintf("%d=%s%v", len(pool)-1, name, shape))
	}
	construct()
	any1 := func(label string) int { return rapid.IntRange(0, len(pool)-1).Draw(rt, label) }
	for i := 0; i < n; i++ {
		switch k := rapid.IntRange(0, 15).Draw(rt, "step"); {
		case k == 0:
			construct()
		case k <= 4: // an immediate operation
			x := any1("a")
			y := any1("b")
			if rapid.Bool().Draw(rt, "match") {
				for j := range pool {
					if q := (x + 1 + j) % len(pool); eqShape(pool[q].shape, pool[x].shape) {
						y = q
						break
					}
				}
			}
			o := ops[rapid.IntRange(0, len(ops)-1).Draw(rt, "op")]
			arg := genShape(rt, "to", 0, 4, 24)
			res := o.f(pool[x].t, pool[y].t, r, arg)
			if res == nil {
				verify(o.name + " not applicable")
				continue
			}
			keepS(arg, "given to "+o.name)
			add(res, fmt.Sprintf("%s of %d,%d", o.name, x, y))
			derived = true
			verify(fmt.Sprintf("%d=%s(%d,%d)", len(pool)-1, o.name, x, y))
		case k == 5: // hand out
			x := any1("a")
			keepV(pool[x].t.GetData(), fmt.Sprintf("GetData of %d", x))
			keepS(pool[x].t.GetShape(), fmt.Sprintf("GetShape of %d", x))
			keepS(pool[x].t.GetMulIndex(), fmt.Sprintf("GetMulIndex of %d", x))
			derived = true
			verify(fmt.Sprintf("handed out slices of %d", x))
		case k == 6: // Bind
			x, y := any1("a"), any1("b")
			if len(pool[x].cells) != len(pool[y].cells) {
				continue
			}
			if err := pool[x].t.Bind(pool[y].t); err != nil {
				rt.Fatalf("Bind: %v", err)
			}
			copy(pool[x].cells, pool[y].cells)
			c.L("Bind")
			verify(fmt.Sprintf("Bind %d to %d", x, y))
		case k == 7: // LoadFromTensor
			x, y := any1("a"), any1("b")
			if !eqShape(pool[x].shape, pool[y].shape) {
				continue
			}
			src := append([]T{}, pool[y].t.GetData()...)
			if err := pool[x].t.LoadFromTensor(pool[y].t); err != nil {
				rt.Fatalf("LoadFromTensor: %v", err)
			}
			for j := range pool[x].cells {
				*pool[x].cells[j] = src[j]
			}
			derived = true
			verify(fmt.Sprintf("LoadFromTensor %d from %d", x, y))
		case k == 8: // LoadData from a kept slice or a new one
			x := any1("a")
			v := vals[T](r, dSmall, len(pool[x].cells))
			for _, q := range vs {
				if len(q.s) == len(v) && r.intn(2) == 0 {
					v = q.s
				}
			}
			if err := pool[x].t.LoadData(v); err != nil {
				rt.Fatalf("LoadData: %v", err)
			}
			for j := range v {
				*pool[x].cells[j] = v[j]
			}
			keepV(v, fmt.Sprintf("given to LoadData of %d", x))
			derived, written = true, true
			verify(fmt.Sprintf("LoadData of %d", x))
		case k == 9: // stream
			x := any1("a")
			var z T
			if _, ok := any(z).(int); ok {
				continue
			}
			var buf bytes.Buffer
			if err := pool[x].t.SaveFull(&buf); err != nil {
				rt.Fatalf("SaveFull: %v", err)
			}
			t := tensor.NewZeros[T](1)
			if err := t.LoadFull(&buf); err != nil {
				rt.Fatalf("LoadFull: %v", err)
			}
			add(t, fmt.Sprintf("SaveFull/LoadFull of %d", x))
			derived = true
			verify("LoadFull")
		case k == 10 && len(vs) > 0:
			v := vs[rapid.IntRange(0, len(vs)-1).Draw(rt, "slice")]
			for j := range v.s {
				nv := fresh[T](r)
				v.s[j] = nv
			}
			// slices given twice are one slice
			for _, q := range vs {
				if len(q.s) > 0 && len(v.s) > 0 && &q.s[0] == &v.s[0] {
					copy(q.m, v.s)
				}
			}
			written = true
			verify("writing the slice " + v.from)
		case k == 11 && len(ss) > 0:
			v := ss[rapid.IntRange(0, len(ss)-1).Draw(rt, "sslice")]
			for j := range v.s {
				v.s[j] += uint(1 + r.intn(3))
				v.m[j] = v.s[j]
			}
			written = true
			verify("writing the shape slice " + v.from)
		case k == 12:
			x := any1("a")
			v := fresh[T](r)
			if rapid.Bool().Draw(rt, "fill") {
				pool[x].t.FillData(v)
			} else {
				pool[x].t.Fill(&number.Scalar[T]{Value: v})
			}
			for j := range pool[x].cells {
				*pool[x].cells[j] = v
			}
			written = true
			verify(fmt.Sprintf("filling %d", x))
		default:
			x := any1("a")
			for m := r.between(1, 3); m > 0; m-- {
				j := r.intn(len(pool[x].cells))
				v := fresh[T](r)
				if err := pool[x].t.Set(v, unravel(uint(j), strides(pool[x].shape))...); err != nil {
					rt.Fatalf("Set: %v", err)
				}
				*pool[x].cells[j] = v
			}
			written = true
			verify(fmt.Sprintf("Set in %d", x))
		}
	}
	c.K("%s", trace)
	c.NT(derived && written)
	c.L(fmt.Sprintf("pool<=%d", (len(pool)/5+1)*5))
}
