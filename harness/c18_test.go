package harness

import (
	"fmt"
	"testing"

	"github.com/julioguillermo/godeep/tensor"
	"github.com/julioguillermo/godeep/types"
	"pgregory.net/rapid"
)

const ruleC18 = "random networks and compositions; two equal models go through the same history of 2..8 valid operations (Predict, TrainOne with momentum, ResetIS, Train on one repeated sample), and one of them also gets rejected calls in between: Predict, TrainOne, ExecFit or Train with an input or target of another shape (other rank, other extents, other size, same size in another shape), also as one of several samples of a data set, or with different numbers of inputs and targets, or with none. Oracle: the rejected call returns an error (and no prediction), leaves all parameters and the samples bit for bit, and from then on both models give bit for bit the same predictions, losses and parameters. Non-trivial: a rejected call followed by a valid one on a model with parameters."

func TestC18(t *testing.T) {
	run(t, "C18", ruleC18,
		sub{name: "history", n: 9000, f: func(rt *rapid.T, c *rec) { dispatchF(rt, c, c18Hist[float32], c18Hist[float64]) }},
		sub{name: "composed", n: 3000, f: func(rt *rapid.T, c *rec) { dispatchF(rt, c, c18Comp[float32], c18Comp[float64]) }},
	)
}

func c18Hist[T types.Number](rt *rapid.T, c *rec) {
	f32 := bitsOf[T]() == 32
	s := genNet(rt, c)
	r := genRng(rt, "values")
	c.K("seed%d", r.s)
	s.initParams(r, f32)
	var two [2]*whole[T]
	for i := range two {
		b, err := compiled[T](s)
		if err != nil {
			rt.Fatalf("%s: %v", s, err)
		}
		two[i] = &whole[T]{b.m, []*net[T]{b}}
	}
	if uniform(rt, "new", 4) == 0 {
		// the first call a model gets is rejected
		b := build[T](s)
		is, _ := otherShape(rt, s.in.shape)
		x, y := tens[T](randVec(r, prod(is), f32), is), tens[T](randVec(r, prod(s.root.shape), f32), s.root.shape)
		var err error
		call := uniform(rt, "firstCall", 3)
		msg := catch(func() {
			switch call {
			case 0:
				_, err = b.m.Predict(x)
			case 1:
				_, err = b.m.TrainOne(x, y, 1, 0)
			case 2:
				quiet(func() { err = b.m.Train([]tensor.Tensor[T]{x}, []tensor.Tensor[T]{y}, 1, 1, 1, 0) })
			}
		})
		if msg != "" || err == nil {
			rt.Fatalf("%s: first call (%d) of a model with input %v: %s, error %v", s, call, is, msg, err)
		}
		if err := b.setParams(); err != nil {
			rt.Fatalf("%s: %v", s, err)
		}
		two[1] = &whole[T]{b.m, []*net[T]{b}}
		c.L("first call rejected")
	}
	c18Run(rt, c, s.String(), two[0], two[1], r)
}

func c18Comp[T types.Number](rt *rapid.T, c *rec) {
	parts, mkWhole := genComposition[T](rt, c, 2, 3)
	r := genRng(rt, "values")
	c.K("seed%d", r.s)
	what := partsString(parts)
	for _, s := range parts {
		s.initParams(r, bitsOf[T]() == 32)
	}
	var two [2]*whole[T]
	for i := range two {
		w, err := mkWhole()
		if err != nil {
			rt.Fatalf("%s: %v", what, err)
		}
		two[i] = w
	}
	c18Run(rt, c, what, two[0], two[1], r)
}

func c18Run[T types.Number](rt *rapid.T, c *rec, what string, a, b *whole[T], r *rng) {
	f32 := bitsOf[T]() == 32
	in, outS := a.in(), a.out()
	hist := ""
	bad := false
	fresh := func(sh []uint) tensor.Tensor[T] { return tens[T](randVec(r, prod(sh), f32), sh) }
	for n := rapid.IntRange(2, 8).Draw(rt, "ops"); n >= 0; n-- {
		for k := uniform(rt, "rejected", 3); k > 0; k-- {
			wrong := uniform(rt, "wrong", 3)
			is, os := in, outS
			if wrong != 1 {
				is, _ = otherShape(rt, in)
			}
			if wrong != 0 {
				os, _ = otherShape(rt, outS)
			}
			before := b.params()
			x, y := fresh(is), fresh(os)
			xd, yd := x.GetData(), y.GetData()
			var err error
			var res tensor.Tensor[T]
			var msg, call string
			switch uniform(rt, "call", 5) {
			case 0:
				if wrong == 1 {
					is, _ = otherShape(rt, in)
					x = fresh(is)
					xd = x.GetData()
				}
				call = fmt.Sprintf("Predict%v", is)
				msg = catch(func() { res, err = b.m.Predict(x) })
				if err != nil && res != nil {
					rt.Fatalf("%s: %s%s: an error and a result", what, hist, call)
				}
			case 1:
				call = fmt.Sprintf("TrainOne%v%v", is, os)
				msg = catch(func() { _, err = b.m.TrainOne(x, y, T(pick(rt, "badAlpha", 0.5)), T(pick(rt, "badMom", 0.5))) })
			case 2:
				call = fmt.Sprintf("ExecFit%v%v", is, os)
				if err := b.m.CompileBackPropagation(); err != nil {
					rt.Fatalf("%s: %v", what, err)
				}
				if err := a.m.CompileBackPropagation(); err != nil {
					rt.Fatalf("%s: %v", what, err)
				}
				msg = catch(func() { err = b.m.ExecFit(x, y) })
			case 3:
				k := 1 + uniform(rt, "dataset", 3)
				call = fmt.Sprintf("Train(%d of%v%v)", k, is, os)
				var xs, ys []tensor.Tensor[T]
				for i := 0; i < k; i++ {
					xs, ys = append(xs, x), append(ys, y)
				}
				if uniform(rt, "mixed", 2) == 0 {
					// the wrong sample among good ones
					at := uniform(rt, "at", 4)
					for i := 0; i < 4; i++ {
						if i != at {
							xs, ys = append(xs, fresh(in)), append(ys, fresh(outS))
						} else {
							xs, ys = append(xs, x), append(ys, y)
						}
					}
					xs, ys = xs[k:], ys[k:]
					call = fmt.Sprintf("Train(4 samples, the one at %d of%v%v)", at, is, os)
				}
				quiet(func() {
					msg = catch(func() {
						err = b.m.Train(xs, ys, uint(1+uniform(rt, "epochs", 2)), uint(uniform(rt, "batch", 3)), T(pick(rt, "badAlpha", 0.5)), 0)
					})
				})
			case 4:
				k, m := uniform(rt, "inputs", 4), uniform(rt, "targets", 4)
				epochs, batch := uint(uniform(rt, "epochs", 3)), uint(uniform(rt, "batch", 3))
				if k == m && (k > 0 || epochs == 0 || batch == 0) {
					k++
				}
				call = fmt.Sprintf("Train(%d,%d)", k, m)
				var xs, ys []tensor.Tensor[T]
				for i := 0; i < k; i++ {
					xs = append(xs, fresh(in))
				}
				for i := 0; i < m; i++ {
					ys = append(ys, fresh(outS))
				}
				quiet(func() {
					msg = catch(func() {
						err = b.m.Train(xs, ys, epochs, batch, T(pick(rt, "badAlpha", 0.5)), 0)
					})
				})
			}
			hist += "!" + call + " "
			if msg != "" {
				rt.Fatalf("%s in%v out%v: %s: %s", what, in, outS, hist, msg)
			}
			if err == nil {
				rt.Fatalf("%s in%v out%v: %s: not rejected", what, in, outS, hist)
			}
			if d := sameAll(b.params(), before); d != "" {
				rt.Fatalf("%s in%v out%v: %s: the rejected call changed the parameters: %s", what, in, outS, hist, d)
			}
			if d := sameAll(x.GetData(), xd) + sameAll(y.GetData(), yd); d != "" {
				rt.Fatalf("%s: %s: the rejected call changed a sample: %s", what, hist, d)
			}
			bad = true
		}
		x, y := fresh(in), fresh(outS)
		alpha, mom := T(pick(rt, "alpha", 0.05, 0.1)), T(pick(rt, "momentum", 0.5, 0, 0.9))
		var va, vb []T
		op := uniform(rt, "op", 5)
		if n == 0 {
			op = 0
		}
		for i, w := range []*whole[T]{a, b} {
			var v []T
			var err error
			switch op {
			case 0:
				var p tensor.Tensor[T]
				p, err = w.m.Predict(x)
				if err == nil {
					v = p.GetData()
				}
			case 1, 2:
				var l T
				l, err = w.m.TrainOne(x, y, alpha, mom)
				v = []T{l}
			case 3:
				err = w.m.ResetIS()
			case 4:
				quiet(func() { err = w.m.Train([]tensor.Tensor[T]{x}, []tensor.Tensor[T]{y}, 2, 0, alpha, mom) })
			}
			if err != nil {
				rt.Fatalf("%s: %s: operation %d: %v", what, hist, op, err)
			}
			if i == 0 {
				va = v
			} else {
				vb = v
			}
		}
		hist += []string{"predict ", "train ", "train ", "reset ", "Train "}[op]
		if d := sameAll(vb, va); d != "" {
			rt.Fatalf("%s in%v out%v: %s: the result differs from that of a model without the rejected calls: %s", what, in, outS, hist, d)
		}
		if d := sameAll(b.params(), a.params()); d != "" {
			rt.Fatalf("%s in%v out%v: %s: parameters differ from those of a model without the rejected calls: %s", what, in, outS, hist, d)
		}
		c.NT(bad && len(b.params()) > 0 && op != 3)
		if wild(a.params()) {
			break
		}
	}
	c.K("%s", hist)
}
