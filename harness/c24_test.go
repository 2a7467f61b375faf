package harness

import (
	"fmt"
	"testing"

	"github.com/julioguillermo/godeep/layer"
	"github.com/julioguillermo/godeep/model"
	"github.com/julioguillermo/godeep/tensor"
	"github.com/julioguillermo/godeep/types"
	"pgregory.net/rapid"
)

const ruleC24 = "random valid networks into which one faulty layer is put at a random place (in the chain, in a branch of a Concat, inside a nested model, before or after other layers): a layer without any input (also as one branch of a Concat, or a branch that does not exist), a two-dimensional layer on input of another rank, a kernel larger than the input or with a zero stride, a zero pool size, a Concat of unequal shapes or ranks or along a missing dimension, a SubTensor dimension or range out of bounds. Models without layers, alone and among the parts of a composition. One to three of Compile, CompileBackPropagation, ResetIS, Predict, TrainOne, Train and FromModels are called on it. Oracle: each returns an error with a text, and no result; none panics; the same network without the fault compiles. Non-trivial: the fault is not at the first layer, or lies in a branch or nested model."

func TestC24(t *testing.T) {
	run(t, "C24", ruleC24,
		sub{name: "faulty", n: 30000, f: func(rt *rapid.T, c *rec) { dispatchF(rt, c, c24Faulty[float32], c24Faulty[float64]) }},
		sub{name: "noInput", n: 6000, f: func(rt *rapid.T, c *rec) { dispatchF(rt, c, c24NoInput[float32], c24NoInput[float64]) }},
		sub{name: "empty", n: 1500, f: func(rt *rapid.T, c *rec) { dispatchF(rt, c, c24Empty[float32], c24Empty[float64]) }},
		sub{name: "composed", n: 8000, f: func(rt *rapid.T, c *rec) { dispatchF(rt, c, c24Composed[float32], c24Composed[float64]) }},
	)
	plain(t, "C24", "afterRefusal", func(shard, shards int, st *subStats) string {
		st.Evaluations++
		known, bad := c24After()
		if known {
			out.Findings = append(out.Findings, "part-after-refusal")
		}
		return bad
	})
}

// c24Composed composes models one of which is faulty.
func c24Composed[T types.Number](rt *rapid.T, c *rec) {
	g := &netGen{rt: rt, maxElems: 40}
	good := genParts(rt, c, 1, 2)
	last := good[len(good)-1].root.shape
	s := &netSpec{in: &nspec{kind: "in", shape: last}}
	cur := g.chain(s.in, g.intr("before", 0, 2), 1)
	var bad *nspec
	var what string
	for try := 0; bad == nil; try++ {
		if try > 20 {
			rt.Skip("no fault fits")
		}
		bad, what = g.fault(cur, s.in)
	}
	s.root = g.after(bad, g.intr("after", 0, 2))
	s.fromInOut = g.intr("inOut", 0, 1) == 0
	specs := append(good, s)
	if g.intr("more", 0, 1) == 0 {
		t := &netSpec{in: &nspec{kind: "in", shape: s.root.shape}}
		t.root = g.after(t.in, g.intr("len", 1, 3))
		t.fromInOut = g.intr("inOut", 0, 1) == 0
		specs = append(specs, t)
		c.L("not the last part")
	}
	text := partsString(specs) + "(" + what + ")"
	c.K("%s", text)
	c.L(what)
	c.NT(true)
	var ms []*model.Model[T]
	for _, s := range specs {
		ms = append(ms, build[T](s).m)
	}
	hist := ""
	for n := 1 + uniform(rt, "calls", 3); n > 0; n-- {
		var w *model.Model[T]
		var err error
		msg := catch(func() { w, err = model.FromModels(ms...) })
		hist += "FromModels "
		if msg != "" || err == nil || w != nil {
			rt.Fatalf("%s: %s: %s %v", text, hist, msg, err)
		}
	}
	// the faulty part itself; a part fed by it is the known finding
	c24Calls(rt, c, text+" "+hist, ms[len(good)], s.in.shape, s.root.shape)
}

// c24After compiles a model fed by one that was refused before.
func c24After() (bool, string) {
	f := &netSpec{in: &nspec{kind: "in", shape: []uint{1}}}
	f.root = &nspec{kind: "conv", pre: f.in, kw: 1, kh: 1, sx: 1, sy: 1, act: act{name: "Tanh"}, shape: []uint{1, 1, 1}}
	d := &netSpec{in: &nspec{kind: "in", shape: []uint{1, 1, 1}}}
	d.root = &nspec{kind: "flatten", pre: d.in, shape: []uint{1}}
	a, b := build[float64](f), build[float64](d)
	if _, err := model.FromModels(a.m, b.m); err == nil {
		return false, "composing Conv2D on rank 1 with Flatten was not refused"
	}
	var err error
	if catch(func() { err = b.m.Compile() }) != "" {
		return true, ""
	}
	if err == nil {
		return false, "compiling Flatten fed by a refused model was not refused"
	}
	return false, ""
}

// fault returns a faulty layer on top of cur, or nil if this kind does not fit.
func (g *netGen) fault(cur, base *nspec) (*nspec, string) {
	s := cur.shape
	two := len(s) == 3
	k := g.intr("fault", 0, 11)
	any3 := []uint{2, 2, 2}
	switch {
	case k <= 3 && !two:
		kind := []string{"conv", "deconv", "pool", "up"}[k]
		n := &nspec{kind: kind, pre: cur, kw: 1, kh: 1, sx: uint(g.intr("sx", 1, 2)), sy: uint(g.intr("sy", 1, 2)), act: g.act(), shape: any3}
		n.wShape, n.bShape = []uint{2, 1, 1, 1}, any3
		return n, fmt.Sprintf("%s on rank %d", kind, len(s))
	case k <= 1 && two: // kernel too large
		n := &nspec{kind: "conv", pre: cur, kw: uint(g.intr("kw", 1, int(s[1]))), kh: uint(g.intr("kh", 1, int(s[2]))), sx: uint(g.intr("sx", 1, 3)), sy: uint(g.intr("sy", 1, 3)), act: g.act(), shape: any3}
		switch g.intr("side", 0, 2) {
		case 0:
			n.kw = s[1] + uint(g.intr("over", 1, 3))
		case 1:
			n.kh = s[2] + uint(g.intr("over", 1, 3))
		default:
			n.kw, n.kh = s[1]+1, s[2]+1
		}
		return n, "kernel too large"
	case k == 2 && two:
		n := &nspec{kind: "conv", pre: cur, kw: 1, kh: 1, sx: uint(g.intr("sx", 0, 2)), act: g.act(), shape: any3}
		if n.sx == 0 {
			n.sy = uint(g.intr("sy", 0, 2))
		}
		n.alt = n.sx == n.sy && g.intr("ctor", 0, 1) == 0
		return n, "zero stride"
	case k == 3 && two:
		n := &nspec{kind: "pool", pre: cur, sx: uint(g.intr("sx", 0, 2)), shape: any3}
		if n.sx == 0 {
			n.sy = uint(g.intr("sy", 0, 2))
		}
		n.alt = n.sx == n.sy && g.intr("ctor", 0, 1) == 0
		return n, "zero pool size"
	case k == 4 || k == 5: // sub range
		n := &nspec{kind: "sub", pre: cur, shape: s}
		if len(s) == 0 || g.intr("dimOut", 0, 2) == 0 {
			n.dim, n.from, n.to = uint(len(s)+g.intr("dim", 0, 2)), 0, 1
			return n, "SubTensor dimension"
		}
		n.dim = uint(g.intr("dim", 0, len(s)-1))
		e := int(s[n.dim])
		switch g.intr("range", 0, 2) {
		case 0:
			n.from, n.to = uint(g.intr("from", 0, e-1)), uint(e+g.intr("past", 1, 3))
		case 1:
			n.from = uint(e + g.intr("from", 0, 2))
			n.to = n.from + uint(g.intr("len", 1, 2))
		default:
			n.to = uint(g.intr("to", 0, e-1))
			n.from = n.to + uint(g.intr("back", 1, 2))
		}
		return n, "SubTensor range"
	case k >= 6 && k <= 9: // concat
		b := g.branch(base, 1)
		n := &nspec{kind: "concat", pre: cur, pre2: b, shape: s}
		if g.intr("swap", 0, 1) == 0 {
			n.pre, n.pre2 = n.pre2, n.pre
		}
		if sharesInput(cur) {
			return nil, ""
		}
		if len(s) != len(b.shape) {
			n.dim = uint(g.intr("dim", 0, max(0, min(len(s), len(b.shape))-1)))
			return n, "Concat of ranks"
		}
		if k == 9 || len(s) == 0 {
			n.dim = uint(len(s) + g.intr("dim", 0, 2))
			return n, "Concat dimension"
		}
		for d := range s {
			for i := range s {
				if i != d && s[i] != b.shape[i] {
					n.dim = uint(d)
					return n, "Concat of shapes"
				}
			}
		}
		n.dim = uint(len(s) + g.intr("dim", 0, 2))
		return n, "Concat dimension"
	}
	return nil, ""
}

// after puts layers that accept any shape on top.
func (g *netGen) after(cur *nspec, n int) *nspec {
	for ; n > 0; n-- {
		switch g.intr("after", 0, 4) {
		case 0:
			cur = &nspec{kind: "flatten", pre: cur, shape: []uint{uint(prod(cur.shape))}}
		case 1:
			cur = &nspec{kind: pick(g.rt, "norm", "norm", "enorm"), pre: cur, shape: cur.shape}
		case 2:
			cur = &nspec{kind: "softmax", pre: cur, shape: cur.shape}
		default:
			cur = g.dense(cur)
		}
	}
	return cur
}

func c24Faulty[T types.Number](rt *rapid.T, c *rec) {
	g := &netGen{rt: rt, maxElems: 40}
	s := &netSpec{in: &nspec{kind: "in"}}
	switch g.intr("inKind", 0, 4) {
	case 0:
		s.in.shape = []uint{uint(g.intr("ins", 1, 6))}
	case 1:
		s.in.shape = genShapeN(rt, "inShape", g.intr("inRank", 0, 4), 20)
	default:
		s.in.shape = []uint{uint(g.intr("c", 1, 2)), uint(g.intr("x", 1, 5)), uint(g.intr("y", 1, 5))}
	}
	place := g.intr("place", 0, 3)
	pos := g.intr("before", 0, 2)
	cur := g.chain(s.in, pos, 1)
	var bad *nspec
	var what string
	var model *nspec
	if place == 1 { // inside a nested model
		model = &nspec{kind: "model", pre: cur, fromInOut: g.intr("inOut", 0, 1) == 0}
		if g.intr("ownIn", 0, 2) > 0 || pos == 0 {
			model.innerIn = &nspec{kind: "nin", pre: cur, shape: cur.shape}
			cur = model.innerIn
		}
		cur = g.chain(cur, g.intr("innerBefore", 0, 2), 2)
	}
	for try := 0; bad == nil; try++ {
		if try > 20 {
			rt.Skip("no fault fits")
		}
		bad, what = g.fault(cur, s.in)
		if bad != nil && bad.kind == "concat" && place == 1 {
			bad = nil // a branch would leave the nested model
		}
	}
	top := g.after(bad, g.intr("after", 0, 2))
	switch {
	case model != nil:
		model.inner, model.shape = top, top.shape
		top = g.after(model, g.intr("after", 0, 2))
		c.L("nested")
	case place == 2: // in a branch
		other := g.branch(s.in, 1)
		if g.intr("side", 0, 1) == 0 {
			top = &nspec{kind: "concat", pre: top, pre2: other, shape: []uint{1}}
		} else {
			top = &nspec{kind: "concat", pre: other, pre2: top, shape: []uint{1}}
		}
		top = g.after(top, g.intr("after", 0, 2))
		c.L("branch")
	}
	s.root = top
	s.fromInOut = g.intr("inOut", 0, 1) == 0
	c.K("%s (%s)", s.String(), what)
	c.L(what)
	c.NT(pos > 0 || place == 1 || place == 2)
	b := build[T](s)
	c24Calls(rt, c, fmt.Sprintf("%s (%s)", s, what), b.m, s.in.shape, top.shape)
}

func c24Calls[T types.Number](rt *rapid.T, c *rec, what string, m *model.Model[T], in, outS []uint) {
	r := &rng{s: 3}
	hist := ""
	for n := 1 + uniform(rt, "calls", 3); n > 0; n-- {
		x, y := tens[T](randVec(r, prod(in), true), in), tens[T](randVec(r, prod(outS), true), outS)
		var err error
		some := false
		k := uniform(rt, "call", 8)
		name := []string{"Compile", "CompileBackPropagation", "Predict", "TrainOne", "Train", "ResetIS", "Compile", "FromModels"}[k]
		hist += name + " "
		msg := catch(func() {
			switch k {
			case 0, 6:
				err = m.Compile()
			case 1:
				err = m.CompileBackPropagation()
			case 2:
				var p tensor.Tensor[T]
				p, err = m.Predict(x)
				some = p != nil
			case 3:
				a := 0.5
				_, err = m.TrainOne(x, y, T(a), T(a))
			case 4:
				a := 0.5
				quiet(func() { err = m.Train([]tensor.Tensor[T]{x}, []tensor.Tensor[T]{y}, 1, 0, T(a), T(a)) })
			case 5:
				err = m.ResetIS()
			case 7:
				var w *model.Model[T]
				w, err = model.FromModels(m)
				some = w != nil
			}
		})
		if msg != "" {
			rt.Fatalf("%s: %s: %s", what, hist, msg)
		}
		if err == nil {
			rt.Fatalf("%s: %s: not refused", what, hist)
		}
		if err.Error() == "" {
			rt.Fatalf("%s: %s: an error without a text", what, hist)
		}
		if some {
			rt.Fatalf("%s: %s: an error and a result", what, hist)
		}
		c.L(name)
	}
	c.K("%s", hist)
}

func c24NoInput[T types.Number](rt *rapid.T, c *rec) {
	g := &netGen{rt: rt, maxElems: 40, noBranch: true}
	// a chain as if it had this input, which it does not get
	ghost := &nspec{kind: "in", shape: []uint{uint(g.intr("c", 1, 2)), uint(g.intr("x", 2, 4)), uint(g.intr("y", 2, 4))}}
	if g.intr("flat", 0, 2) == 0 {
		ghost.shape = []uint{uint(g.intr("ins", 1, 6))}
	}
	var top *nspec
	for top == nil || hasModel(top) {
		top = g.chain(ghost, g.intr("len", 1, 3), 2)
	}
	c.K("%v", top)
	c.NT(top.pre != ghost)
	var list []*nspec
	for n := top; n != ghost; n = n.pre {
		list = append([]*nspec{n}, list...)
	}
	s := &netSpec{in: ghost, root: top}
	b := &net[T]{spec: s, layers: map[*nspec]layer.Layer[T]{}}
	m := model.NewModel[T]()
	for _, n := range list {
		m.Push(b.bare(n))
	}
	if g.intr("nested", 0, 3) == 0 {
		c.L("nested")
		m = model.NewModel[T]().Push(m)
	}
	if g.intr("asBranch", 0, 2) == 0 {
		// the other branch has its input; this one, or also both, do not exist at all
		s := &netSpec{in: &nspec{kind: "in", shape: []uint{2}}}
		s.root = g.dense(s.in)
		ok := build[T](s)
		var none, other layer.Layer[T] = m, ok.m.LastLayer
		k := g.intr("none", 0, 3)
		if k > 0 {
			none = nil
		}
		if k > 2 {
			other = nil
		}
		l := layer.NewConcat[T](other, none, 0)
		if g.intr("first", 0, 1) == 0 {
			l = layer.NewConcat[T](none, other, 0)
		}
		m, _ = model.FromInOut[T](ok.m.FirstLayer, l)
		if g.intr("on", 0, 1) == 0 {
			m.Push(layer.NewFlatten[T]())
		}
		c.L(fmt.Sprintf("branch without input %d", k))
		c.K("branch%d", k)
		c24Calls(rt, c, fmt.Sprintf("Concat with a branch %v without its input (%d)", top, k), m, s.in.shape, top.shape)
		return
	}
	c24Calls(rt, c, fmt.Sprintf("%v without its input", top), m, ghost.shape, top.shape)
}

// c24Empty: models without layers, alone and among others.
func c24Empty[T types.Number](rt *rapid.T, c *rec) {
	parts := genParts(rt, c, 1, 2)
	var ms []*model.Model[T]
	for _, s := range parts {
		ms = append(ms, build[T](s).m)
	}
	at := uniform(rt, "at", len(ms)+1)
	empty := model.NewModel[T]()
	if uniform(rt, "inOut", 2) == 0 {
		empty, _ = model.FromInOut[T](nil, nil)
	}
	ms = append(ms[:at], append([]*model.Model[T]{empty}, ms[at:]...)...)
	text := fmt.Sprintf("%s with an empty model at %d", partsString(parts), at)
	for n := uniform(rt, "compositions", 3); n > 0; n-- {
		var w *model.Model[T]
		var err error
		msg := catch(func() { w, err = model.FromModels(ms...) })
		if msg != "" || err == nil || err.Error() == "" || w != nil {
			rt.Fatalf("%s: FromModels: %s %v", text, msg, err)
		}
	}
	s := parts[0]
	c24Calls(rt, c, text, empty, s.in.shape, s.root.shape)
	c.K("%s", text)
	c.NT(true)
	// with layers it is a model like any other
	b := build[T](s)
	empty.FirstLayer, empty.LastLayer = b.m.FirstLayer, b.m.LastLayer
	var err error
	msg := catch(func() { _, err = empty.Predict(tensor.NewOnes[T](s.in.shape...)) })
	if msg != "" || err != nil {
		rt.Fatalf("%s: predicting after it got layers: %s %v", text, msg, err)
	}
}

func hasModel(n *nspec) bool {
	for ; n != nil; n = n.pre {
		if n.kind == "model" || n.kind == "concat" {
			return true
		}
	}
	return false
}
