package harness

import (
	"fmt"
	"math"
	"testing"

	"github.com/julioguillermo/godeep/activation"
	"github.com/julioguillermo/godeep/layer"
	"github.com/julioguillermo/godeep/model"
	"github.com/julioguillermo/godeep/types"
	"pgregory.net/rapid"
)

const ruleC12 = "random networks as for C11 (every layer type, joined branches, nested models), and compositions of 2..4 of them (compositions of compositions, first part compiled or trained before), of which the whole or one part is trained; explicit parameters, one training step on one sample with a random learning rate and momentum. Oracle: independent float64 reverse-mode differentiation with the documented conventions; the change of every single parameter is compared (1e-9 float64, 2e-3 float32, relative to the largest change, plus rounding of the parameter). Not compared (counted trivial): pre-activations at a kink, ties in a pool, degenerate Norm or SoftMax. Non-trivial: the network has parameters and its largest gradient exceeds 1e-6."

func TestC12(t *testing.T) {
	run(t, "C12", ruleC12,
		sub{name: "networks", n: 24000, f: func(rt *rapid.T, c *rec) { dispatchF(rt, c, c12Net[float32], c12Net[float64]) }},
		sub{name: "pairs", n: 16000, f: func(rt *rapid.T, c *rec) { dispatchF(rt, c, c12Pair[float32], c12Pair[float64]) }},
		sub{name: "composed", n: 8000, f: func(rt *rapid.T, c *rec) { dispatchF(rt, c, c12Line[float32], c12Line[float64]) }},
	)
	plain(t, "C12", "sharedHiddenLayer", c12Diamond)
}

// diffStep compares the parameters after a step with before + want.
func diffStep[T types.Number](before, after []T, want []float64) string {
	if len(before) != len(want) || len(after) != len(want) {
		return fmt.Sprintf("%d parameters, want %d", len(after), len(want))
	}
	mw := 0.0
	for i := range want {
		mw = math.Max(mw, math.Abs(want[i]))
	}
	tol := tolF[T]()
	for i := range want {
		d := float64(after[i]) - float64(before[i])
		lim := tol*mw + 40*epsOf[T]()*(1+math.Abs(float64(before[i]))+math.Abs(float64(after[i])))
		if !(math.Abs(d-want[i]) <= lim) {
			return fmt.Sprintf("parameter %d changed by %.10g, want %.10g (tolerance %.2g)", i, d, want[i], lim)
		}
	}
	return ""
}

// where names the parameter with a flat number.
func (s *netSpec) where(i int) string {
	for _, p := range s.params {
		if i < prod(p.wShape) {
			return fmt.Sprintf("weight %v of %s", unravel(uint(i), strides(p.wShape)), p.kind)
		}
		i -= prod(p.wShape)
		if i < prod(p.bShape) {
			return fmt.Sprintf("bias %v of %s", unravel(uint(i), strides(p.bShape)), p.kind)
		}
		i -= prod(p.bShape)
	}
	return "?"
}

func c12Check[T types.Number](rt *rapid.T, c *rec, s *netSpec) {
	f32 := bitsOf[T]() == 32
	r := genRng(rt, "values")
	c.K("seed%d", r.s)
	s.initParams(r, f32)
	b, err := compiled[T](s)
	if err != nil {
		rt.Fatalf("%s: %v", s, err)
	}
	x := randVec(r, prod(s.in.shape), f32)
	y := randVec(r, prod(s.root.shape), f32)
	alpha := float64(T(0.05 + r.f64()))
	mom := float64(T(r.f64()))
	h := newHealth()
	o := s.root.forward(x, h)
	e := make([]float64, len(o))
	for i := range e {
		e[i] = y[i] - o[i]
	}
	s.root.backward(e)
	want := s.grads()
	big := 0.0
	for i := range want {
		want[i] *= alpha
		big = math.Max(big, math.Abs(want[i]))
	}
	before := b.params()
	if _, err := b.m.TrainOne(tens[T](x, s.in.shape), tens[T](y, s.root.shape), T(alpha), T(mom)); err != nil {
		rt.Fatalf("%s: TrainOne: %v", s, err)
	}
	if _, ok := steady([]*netSpec{s}, x, y, f32); !ok || !h.okBackward(f32) {
		c.Triv()
		c.L("ill-conditioned")
		return
	}
	c.NT(big > 1e-6)
	if d := diffStep(before, b.params(), want); d != "" {
		var i int
		fmt.Sscanf(d, "parameter %d", &i)
		rt.Fatalf("%s: %s [%s]", s, d, s.where(i))
	}
}

func c12Net[T types.Number](rt *rapid.T, c *rec) { c12Check[T](rt, c, genNet(rt, c)) }

// c12Line: the first step of a composed model or of one of its parts.
func c12Line[T types.Number](rt *rapid.T, c *rec) { lineSteps[T](rt, c, genLine(rt, c, 2, 4), true, 1) }

// c12Pair: In > parametric > X > Y > parametric, X and Y of every kind.
func c12Pair[T types.Number](rt *rapid.T, c *rec) {
	g := &netGen{rt: rt, maxElems: 200, noBranch: true}
	if g.intr("grand", 0, 15) == 15 {
		g.grand, g.maxElems = true, 1200
	}
	s := &netSpec{in: &nspec{kind: "in", shape: []uint{uint(g.upTo("c", 1, 3, 8)), uint(g.upTo("x", 2, 7, 14)), uint(g.upTo("y", 2, 7, 14))}}}
	param := func(cur *nspec) *nspec {
		for i := 0; ; i++ {
			n := g.step(cur, 2)
			if n.parametric() && (n.kind != "dense" || i > 4 || g.intr("denseOK", 0, 5) == 0) {
				return n
			}
		}
	}
	other := func(cur *nspec) *nspec {
		for {
			n := g.step(cur, 2)
			if !n.parametric() {
				return n
			}
		}
	}
	s.root = param(s.in)
	s.root = other(s.root)
	if g.intr("second", 0, 1) == 1 {
		s.root = other(s.root)
	}
	s.root = param(s.root)
	if g.intr("tail", 0, 1) == 1 {
		s.root = other(s.root)
	}
	s.fromInOut = g.intr("inOut", 0, 1) == 0
	s.prepare()
	describe(c, s)
	c12Check[T](rt, c, s)
}

// c12Diamond probes the listed finding: a hidden layer that feeds two layers.
func c12Diamond(shard, shards int, st *subStats) string {
	if shard != 0 {
		return ""
	}
	type F = float64
	lin := activation.Linear[F]{}
	in := layer.NewInput[F](2)
	d1 := layer.NewDense[F](2, lin)
	d1.Connect(in)
	s1, s2 := layer.NewSubTensor[F](0, 0, 1), layer.NewSubTensor[F](0, 1, 2)
	s1.Connect(d1)
	s2.Connect(d1)
	m, _ := model.FromInOut[F](in, layer.NewConcat[F](s1, s2, 0))
	if err := m.Compile(); err != nil {
		return "compiling the network with a shared hidden layer: " + err.Error()
	}
	p := d1.(*layer.Dense[F])
	w0, b0 := []F{0.5, -0.25, 1, 0.75}, []F{0.125, -0.5}
	p.Weights.LoadData(w0)
	p.Bias.LoadData(b0)
	x, y := []F{2, -1}, []F{3, 5}
	if _, err := m.TrainOne(mk(x, []uint{2}), mk(y, []uint{2}), 0.5, 0); err != nil {
		return "training the network with a shared hidden layer: " + err.Error()
	}
	st.Evaluations++
	st.Nontrivial++
	out.Extra["enumerated_nontrivial"]++
	correct, known := true, true
	for i := 0; i < 2; i++ {
		e := y[i] - (w0[2*i]*x[0] + w0[2*i+1]*x[1] + b0[i])
		f := []F{0.5, 0}[i] // the finding: half of the first part, nothing of the second
		for j := 0; j < 3; j++ {
			var got, g F
			if j < 2 {
				got, g = p.Weights.GetData()[2*i+j]-w0[2*i+j], 0.5*e*x[j]
			} else {
				got, g = p.Bias.GetData()[i]-b0[i], 0.5*e
			}
			correct = correct && math.Abs(got-g) < 1e-12
			known = known && math.Abs(got-f*g) < 1e-12
		}
	}
	switch {
	case correct:
		return ""
	case known:
		out.Findings = append(out.Findings, "shared-hidden-layer")
		return ""
	}
	return fmt.Sprintf("In2>Dense2 feeding two SubTensors that are joined: weights %v bias %v after one step", p.Weights.GetData(), p.Bias.GetData())
}
