package harness

import (
	"bytes"
	"fmt"
	"math"
	"testing"

	"github.com/julioguillermo/godeep/activation"
	"github.com/julioguillermo/godeep/layer"
	"github.com/julioguillermo/godeep/model"
	"github.com/julioguillermo/godeep/types"
	"pgregory.net/rapid"
)

const ruleC16 = "1..4 (now and then up to 13) random models, each fitting the output of the one before, composed (also in two stages, also with a first part that was compiled or trained before); then histories of 2..10 operations: predicting with the whole or a part, training the whole or a part, loading new parameters into the whole or a part, setting them. Oracle: the independent float64 evaluation of the parts one after another (tolerance as C11), and bit-for-bit the parts' own Predict chained by hand. Composing with a later part that was compiled on its own must be an error that leaves all parts working. Non-trivial: at least two parts and one prediction after a change of parameters."

func TestC16(t *testing.T) {
	run(t, "C16", ruleC16,
		sub{name: "history", n: 12000, f: func(rt *rapid.T, c *rec) { dispatchF(rt, c, c16Hist[float32], c16Hist[float64]) }},
		sub{name: "refused", n: 3000, f: func(rt *rapid.T, c *rec) { dispatchF(rt, c, c16Refused[float32], c16Refused[float64]) }},
	)
	plain(t, "C16", "repeatedOutput", c16Repeated)
	plain(t, "C16", "none", func(shard, shards int, st *subStats) string {
		st.Evaluations++
		m, err := model.FromModels[float64]()
		if err == nil || m != nil {
			return fmt.Sprintf("FromModels of no models returned %v, %v", m, err)
		}
		return ""
	})
}

// c16Repeated probes the listed finding: the second part of a composition gets
// an input of its own, while the first one's output has the same value twice.
func c16Repeated(shard, shards int, st *subStats) string {
	if shard != 0 {
		return ""
	}
	type F = float64
	in := layer.NewInput[F](1)
	f, s := layer.NewFlatten[F](), layer.NewSubTensor[F](0, 0, 1)
	f.Connect(in)
	s.Connect(in)
	g, _ := model.FromInOut[F](in, layer.NewConcat[F](f, s, 0))
	l := layer.NewDense[F](1, activation.Linear[F]{})
	d := model.NewModel[F]().Push(layer.NewInput[F](2)).Push(l)
	if _, err := model.FromModels(g, d); err != nil {
		return "composing: " + err.Error()
	}
	p := l.(*layer.Dense[F])
	p.Weights.LoadData([]F{10, 100})
	p.Bias.LoadData([]F{1})
	o, err := d.Predict(mk([]F{2, 3}, []uint{2}))
	if err != nil {
		return "Predict of the part: " + err.Error()
	}
	st.Evaluations++
	switch o.GetData()[0] {
	case 321:
		return ""
	case 331: // 3 and 3
		out.Findings = append(out.Findings, "repeated-output")
		return ""
	}
	return fmt.Sprintf("the part In2>Dense1 after the part cat(In1>flatten|In1>sub) predicts %v for 2,3 with the weights 10,100 and the bias 1", o.GetData())
}

func c16Hist[T types.Number](rt *rapid.T, c *rec) {
	f32 := bitsOf[T]() == 32
	parts := genParts(rt, c, 1, 4)
	what := partsString(parts)
	r := genRng(rt, "values")
	c.K("seed%d", r.s)
	for _, s := range parts {
		s.initParams(r, f32)
	}
	w, err := composeAny[T](rt, c, parts)
	if err != nil {
		rt.Fatalf("%s: %v", what, err)
	}
	hist := ""
	changed := false
	n := rapid.IntRange(2, 10).Draw(rt, "ops")
	for i := 0; i <= n; i++ {
		k := uniform(rt, "op", 8)
		if i == n || i == 0 {
			k = 0
		}
		j := uniform(rt, "part", len(parts))
		p := w.parts[j]
		var err error
		switch k {
		case 0, 1:
			hist += "predict "
			x := randVec(r, prod(w.in()), f32)
			got, e := w.m.Predict(tens[T](x, w.in()))
			if e != nil {
				rt.Fatalf("%s: %s: Predict: %v", what, hist, e)
			}
			if !eqShape(got.GetShape(), w.out()) {
				rt.Fatalf("%s: %s: output shape %v, want %v", what, hist, got.GetShape(), w.out())
			}
			// reference
			h := newHealth()
			v := x
			for q, s := range parts {
				w.parts[q].readParams()
				v = s.root.forward(v, h)
			}
			if ok, _ := steady(parts, x, nil, f32); ok && h.okForward(f32) && tame(v) && tameParams(parts) {
				if d := closeAll(got.GetData(), v, tolF[T]()); d != "" {
					rt.Fatalf("%s: %s: prediction of the whole: %s", what, hist, d)
				}
			} else {
				c.L("ill-conditioned")
			}
			// by hand
			cur := tens[T](x, w.in())
			for q := range parts {
				cur, e = w.parts[q].m.Predict(cur)
				if e != nil {
					rt.Fatalf("%s: %s: Predict of part %d: %v", what, hist, q, e)
				}
			}
			if d := sameAll(got.GetData(), cur.GetData()); d != "" {
				rt.Fatalf("%s: %s: the whole and the parts one after another differ: %s", what, hist, d)
			}
			c.NT(len(parts) > 1 && changed)
		case 2:
			hist += "trainWhole "
			err = w.train(r, 0.05, 0.5)
			changed = true
		case 3:
			hist += fmt.Sprintf("trainPart%d ", j)
			_, err = p.m.TrainOne(tens[T](randVec(r, prod(p.spec.in.shape), f32), p.spec.in.shape), tens[T](randVec(r, prod(p.spec.root.shape), f32), p.spec.root.shape), T(pick(rt, "alpha", 0.05)), 0)
			changed = true
		case 4:
			hist += "loadWhole "
			for _, s := range parts {
				s.initParams(r, f32)
			}
			other, e := composeAny[T](rt, c, parts)
			if e != nil {
				rt.Fatalf("%s: %v", what, e)
			}
			var buf bytes.Buffer
			if e := other.m.Save(&buf); e != nil {
				rt.Fatalf("%s: Save: %v", what, e)
			}
			w.m.ResetLoad()
			err = w.m.Load(&buf)
			if d := sameAll(w.params(), other.params()); err == nil && d != "" {
				rt.Fatalf("%s: loading the whole: %s", what, d)
			}
			changed = true
		case 5:
			hist += fmt.Sprintf("setPart%d ", j)
			p.spec.initParams(r, f32)
			err = p.setParams()
			changed = true
		case 7:
			if !w.apart(j) {
				c.L("part not used alone")
				break
			}
			hist += fmt.Sprintf("predictPart%d ", j)
			x := randVec(r, prod(p.spec.in.shape), f32)
			got, e := p.m.Predict(tens[T](x, p.spec.in.shape))
			if e != nil {
				rt.Fatalf("%s: %s: Predict: %v", what, hist, e)
			}
			p.readParams()
			h := newHealth()
			v := p.spec.root.forward(x, h)
			if ok, _ := steady(parts[j:j+1], x, nil, f32); ok && h.okForward(f32) && tame(v) && tameParams(parts[j:j+1]) {
				if d := closeAll(got.GetData(), v, tolF[T]()); d != "" {
					rt.Fatalf("%s: %s: prediction of the part: %s", what, hist, d)
				}
			}
		case 6:
			hist += "reset "
			err = w.m.ResetIS()
			if err == nil {
				err = w.m.Compile()
			}
		}
		if err != nil {
			rt.Fatalf("%s: %s: %v", what, hist, err)
		}
	}
	c.K("%s", hist)
}

// c16Refused: a part but the first has been compiled on its own. That is an
// error, after which all parts work on their own.
func c16Refused[T types.Number](rt *rapid.T, c *rec) {
	f32 := bitsOf[T]() == 32
	parts := genParts(rt, c, 2, 4)
	what := partsString(parts)
	r := genRng(rt, "values")
	c.K("seed%d", r.s)
	var nets []*net[T]
	var ms []*model.Model[T]
	for _, s := range parts {
		s.initParams(r, f32)
		b := build[T](s)
		nets, ms = append(nets, b), append(ms, b.m)
	}
	for k := 1 + uniform(rt, "compiled", 2); k > 0; k-- {
		i := 1 + uniform(rt, "which", len(parts)-1)
		if err := ms[i].Compile(); err != nil {
			rt.Fatalf("%s: Compile: %v", what, err)
		}
		if uniform(rt, "bp", 2) == 0 {
			if err := ms[i].CompileBackPropagation(); err != nil {
				rt.Fatalf("%s: CompileBackPropagation: %v", what, err)
			}
		}
		c.K("compiled%d", i)
	}
	var m *model.Model[T]
	var err error
	if p := catch(func() { m, err = model.FromModels(ms...) }); p != "" {
		rt.Fatalf("%s: composing with a compiled part: %s", what, p)
	}
	if err == nil || m != nil {
		rt.Fatalf("%s: composing with a part that was compiled on its own: %v, %v", what, m, err)
	}
	c.NT(true)
	for i, b := range nets {
		s := parts[i]
		if err := b.m.Compile(); err != nil {
			rt.Fatalf("%s: Compile of part %d after the refusal: %v", what, i, err)
		}
		if err := b.setParams(); err != nil {
			rt.Fatalf("%s: %v", what, err)
		}
		x := randVec(r, prod(s.in.shape), f32)
		got, err := b.m.Predict(tens[T](x, s.in.shape))
		if err != nil {
			rt.Fatalf("%s: Predict of part %d after the refusal: %v", what, i, err)
		}
		h := newHealth()
		v := s.root.forward(x, h)
		if ok, _ := steady(parts[i:i+1], x, nil, f32); ok && h.okForward(f32) {
			if d := closeAll(got.GetData(), v, tolF[T]()); d != "" {
				rt.Fatalf("%s: part %d after the refusal: %s", what, i, d)
			}
		}
	}
}

// tame: no value beyond what the tolerance of the comparison is made for
// (training on random targets can diverge).
func tame(v []float64) bool {
	for _, x := range v {
		if !(math.Abs(x) < 1e3) {
			return false
		}
	}
	return true
}

func tameParams(parts []*netSpec) bool {
	for _, s := range parts {
		for _, p := range s.params {
			for _, v := range [][]float64{p.w, p.b} {
				for _, x := range v {
					if !(math.Abs(x) < 20) {
						return false
					}
				}
			}
		}
	}
	return true
}
