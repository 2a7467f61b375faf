package harness

import (
	"math"
	"testing"

	"github.com/julioguillermo/godeep/types"
	"pgregory.net/rapid"
)

const ruleC11 = "random networks (chains of 1..5 layers, two or three joined branches, nested models up to depth 2; every layer type and constructor, non-square kernels, strides, pools, all activations; inputs of rank 1..4), parameters set explicitly, 1..3 inputs each. Oracle: an independent float64 evaluation of the layer definitions. Tolerance 1e-9 (float64) or 2e-3 (float32) of the largest value. Not compared (counted trivial): Norm of an almost-zero and SoftMax of an almost-constant tensor. Non-trivial: the network has a layer besides Flatten and at least two output or input elements."

func TestC11(t *testing.T) {
	run(t, "C11", ruleC11,
		sub{name: "networks", n: 24000, f: func(rt *rapid.T, c *rec) { dispatchF(rt, c, c11Net[float32], c11Net[float64]) }},
		sub{name: "singleLayer", n: 24000, f: func(rt *rapid.T, c *rec) { dispatchF(rt, c, c11Layer[float32], c11Layer[float64]) }},
	)
}

func c11Compare[T types.Number](rt *rapid.T, c *rec, s *netSpec) {
	f32 := bitsOf[T]() == 32
	r := genRng(rt, "values")
	s.initParams(r, f32)
	b, err := compiled[T](s)
	if err != nil {
		rt.Fatalf("%s: %v", s, err)
	}
	c.K("seed%d", r.s)
	n := rapid.IntRange(1, 3).Draw(rt, "inputs")
	c.NT(prod(s.in.shape) > 1 || prod(s.root.shape) > 1)
	for i := 0; i < n; i++ {
		x := randVec(r, prod(s.in.shape), f32)
		h := newHealth()
		want := s.root.forward(x, h)
		got, err := b.m.Predict(tens[T](x, s.in.shape))
		if err != nil {
			rt.Fatalf("%s: Predict: %v", s, err)
		}
		if !eqShape(got.GetShape(), s.root.shape) {
			rt.Fatalf("%s: output shape %v, want %v", s, got.GetShape(), s.root.shape)
		}
		if ok, _ := steady([]*netSpec{s}, x, nil, f32); !ok || !h.okForward(f32) {
			c.Triv()
			c.L("ill-conditioned")
			continue
		}
		if d := closeAll(got.GetData(), want, tolF[T]()); d != "" {
			rt.Fatalf("%s: output: %s", s, d)
		}
	}
}

func c11Net[T types.Number](rt *rapid.T, c *rec) {
	s := genNetShared(rt, c)
	c11Compare[T](rt, c, s)
}

// c11Layer: one layer on a wider range of sizes, and special-valued inputs for
// the layers that only select elements.
func c11Layer[T types.Number](rt *rapid.T, c *rec) {
	g := &netGen{rt: rt, maxElems: 600, noBranch: true}
	if g.intr("grand", 0, 15) == 15 {
		g.grand, g.maxElems = true, 2500
	}
	s := &netSpec{in: &nspec{kind: "in"}}
	if g.intr("rank", 0, 4) == 0 {
		s.in.shape = genShape(rt, "shape", 1, 5, 200)
	} else {
		s.in.shape = []uint{uint(g.upTo("c", 1, 4, 12)), uint(g.upTo("x", 1, 12, 24)), uint(g.upTo("y", 1, 12, 24))}
	}
	s.root = g.step(s.in, 2)
	s.prepare()
	describe(c, s)
	if k := s.root.kind; k == "pool" || k == "up" || k == "flatten" || k == "sub" {
		r := genRng(rt, "values")
		c.K("seed%d", r.s)
		x := make([]float64, prod(s.in.shape))
		for i := range x {
			switch r.intn(8) {
			case 0:
				x[i] = math.Inf(1 - 2*r.intn(2))
			case 1:
				x[i] = []float64{math.MaxFloat32, -math.MaxFloat32}[r.intn(2)]
			case 2:
				x[i] = float64(r.between(-3, 3))
			default:
				x[i] = float64(float32(-r.f64() * 1000))
			}
		}
		b, err := compiled[T](s)
		if err != nil {
			rt.Fatalf("%s: %v", s, err)
		}
		want := s.root.forward(x, newHealth())
		got, err := b.m.Predict(tens[T](x, s.in.shape))
		if err != nil {
			rt.Fatalf("%s: Predict: %v", s, err)
		}
		checkTensor[T](rt, s.String(), got, s.root.shape, toT[T](want))
		c.NT(len(x) > 1)
		return
	}
	c11Compare[T](rt, c, s)
}
