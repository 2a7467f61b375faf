package harness

import (
	"bytes"
	"fmt"
	"testing"

	"github.com/julioguillermo/godeep/tensor"
	"github.com/julioguillermo/godeep/types"
	"pgregory.net/rapid"
)

const ruleC14 = "random networks and histories of 4..25 operations: Predict on a few inputs (again and again), ResetIS, Compile, CompileBackPropagation, Save, Load, printing, freezing and releasing layers, training steps, writing into returned results and into given inputs (which are partly given in the same tensor again). Oracle: for the same parameters and input the result is bit for bit the one seen before and the one of a separately built model holding the same parameters; parameters, inputs and earlier results keep their values. First use goes through Compile, CompileBackPropagation, Predict, TrainOne or several of them. Non-trivial: some input was predicted at least twice with another operation in between."

func TestC14(t *testing.T) {
	run(t, "C14", ruleC14,
		sub{name: "history", n: 12000, f: func(rt *rapid.T, c *rec) { dispatchF(rt, c, c14Hist[float32], c14Hist[float64]) }},
		sub{name: "firstUse", n: 8000, f: func(rt *rapid.T, c *rec) { dispatchF(rt, c, c14First[float32], c14First[float64]) }},
	)
}

type kept[T types.Number] struct {
	t    tensor.Tensor[T]
	want []T
	what string
	in   int // the number of the input, or -1
}

func c14Hist[T types.Number](rt *rapid.T, c *rec) {
	f32 := bitsOf[T]() == 32
	s := genNetShared(rt, c)
	r := genRng(rt, "values")
	c.K("seed%d", r.s)
	s.initParams(r, f32)
	b, err := compiled[T](s)
	if err != nil {
		rt.Fatalf("%s: %v", s, err)
	}
	var inputs [][]T
	for i := rapid.IntRange(1, 3).Draw(rt, "inputs"); i > 0; i-- {
		v := toT[T](randVec(r, prod(s.in.shape), f32))
		if len(inputs) > 0 && rapid.Bool().Draw(rt, "akin") {
			v = akin(r, inputs[0])
		}
		inputs = append(inputs, v)
	}
	// some inputs are always given in the same tensor, whose values change
	var own []tensor.Tensor[T]
	for j := range inputs {
		switch uniform(rt, "given", 3) {
		case 0:
			own = append(own, nil)
		case 1:
			own = append(own, mk(inputs[j], s.in.shape))
		case 2:
			own = append(own, exec(rt, "input", tensor.Reshape[T](mk(inputs[j], []uint{uint(len(inputs[j]))}), s.in.shape...)))
		}
	}
	frz := newFreezer(b.m, b)
	cache := map[int][]T{}
	var old []*kept[T]
	hist := ""
	version := b.params()
	again, between := false, false
	n := rapid.IntRange(4, 25).Draw(rt, "ops")
	check := func(mayTrain bool) {
		rt.Helper()
		if !mayTrain {
			if d := sameAll(b.params(), version); d != "" {
				rt.Fatalf("%s: %s: parameters changed: %s", s, hist, d)
			}
		}
		for _, k := range old {
			if d := diffData(k.t.GetData(), k.want); d != "" {
				rt.Fatalf("%s: %s: %s: %s", s, hist, k.what, d)
			}
		}
	}
	for i := 0; i < n; i++ {
		k := uniform(rt, "op", 15)
		var err error
		train := false
		switch {
		case k <= 5:
			j := uniform(rt, "input", len(inputs))
			hist += fmt.Sprintf("P%d ", j)
			x := own[j]
			if x == nil {
				x = mk(inputs[j], s.in.shape)
			}
			got, e := b.m.Predict(x)
			if e != nil {
				rt.Fatalf("%s: %s: Predict: %v", s, hist, e)
			}
			d := got.GetData()
			if !eqShape(got.GetShape(), s.root.shape) {
				rt.Fatalf("%s: %s: result shape %v, want %v", s, hist, got.GetShape(), s.root.shape)
			}
			if uniform(rt, "often", 200) == 0 {
				// the same many times
				for q := 0; q < 80; q++ {
					more, e := b.m.Predict(x)
					if e != nil {
						rt.Fatalf("%s: %s: Predict: %v", s, hist, e)
					}
					if df := sameAll(more.GetData(), d); df != "" {
						rt.Fatalf("%s: %s: Predict repeated %d times: %s", s, hist, q+1, df)
					}
				}
			}
			if w, ok := cache[j]; ok {
				if df := sameAll(d, w); df != "" {
					rt.Fatalf("%s: %s: Predict of input %d differs from before: %s", s, hist, j, df)
				}
				again = again || between
			} else {
				cache[j] = d
				b.readParams()
				f, e := compiled[T](s)
				if e != nil {
					rt.Fatalf("%s: %v", s, e)
				}
				fr, e := f.m.Predict(mk(inputs[j], s.in.shape))
				if e != nil {
					rt.Fatalf("%s: Predict of a new model: %v", s, e)
				}
				if df := sameAll(d, fr.GetData()); df != "" {
					rt.Fatalf("%s: %s: Predict of input %d differs from a new model with the same parameters: %s", s, hist, j, df)
				}
			}
			old = append(old, &kept[T]{x, inputs[j], "the tensor given to Predict changed", j}, &kept[T]{got, d, "a result returned by Predict changed", -1})
			between = false
		case k == 6:
			hist += "resetIS "
			err = b.m.ResetIS()
			between = true
		case k == 7:
			hist += "compile "
			err = b.m.Compile()
			between = true
		case k == 8:
			hist += "compileBP "
			err = b.m.CompileBackPropagation()
			between = true
		case k == 9:
			hist += "save "
			b.m.ResetSave()
			err = b.m.Save(&bytes.Buffer{})
			between = true
		case k == 10:
			hist += "train "
			_, err = b.m.TrainOne(tens[T](randVec(r, prod(s.in.shape), f32), s.in.shape), tens[T](randVec(r, prod(s.root.shape), f32), s.root.shape), T(pick(rt, "alpha", 0.05, 0)), 0)
			train = true
		case k == 11 && len(old) > 0:
			// write into something handed over earlier
			q := old[uniform(rt, "kept", len(old))]
			hist += "overwrite "
			v := toT[T](randVec(r, len(q.want), f32))
			if rapid.Bool().Draw(rt, "akin") {
				v = akin(r, q.want)
			}
			if e := q.t.LoadData(v); e != nil {
				rt.Fatalf("LoadData: %v", e)
			}
			for _, k := range old {
				if k.t == q.t {
					k.want = v
				}
			}
			if q.in >= 0 && q.t == own[q.in] {
				inputs[q.in] = v
				delete(cache, q.in)
				hist += fmt.Sprintf("of input %d ", q.in)
			}
			between = true
		case k == 12:
			hist += "load "
			s.initParams(r, f32)
			src, e := compiled[T](s)
			if e != nil {
				rt.Fatalf("%s: %v", s, e)
			}
			var buf bytes.Buffer
			if e := src.m.Save(&buf); e != nil {
				rt.Fatalf("%s: Save: %v", s, e)
			}
			b.m.ResetLoad()
			err = b.m.Load(&buf)
			train = true
		case k == 13:
			hist += "freeze "
			frz.change(rt)
			between = true
		case k == 14:
			hist += "print "
			_ = b.m.String()
			between = true
		}
		if err != nil {
			rt.Fatalf("%s: %s: %v", s, hist, err)
		}
		check(train)
		if train {
			version = b.params()
			cache = map[int][]T{}
		}
		if len(old) > 12 {
			old = old[len(old)-12:]
		}
	}
	c.K("%s", hist)
	c.NT(again)
}

// c14First: however a model gets compiled, equal parameters mean equal predictions.
func c14First[T types.Number](rt *rapid.T, c *rec) {
	f32 := bitsOf[T]() == 32
	s := genNetShared(rt, c)
	r := genRng(rt, "values")
	c.K("seed%d", r.s)
	s.initParams(r, f32)
	a, err := compiled[T](s)
	if err != nil {
		rt.Fatalf("%s: %v", s, err)
	}
	b := build[T](s)
	how := ""
	x, y := tens[T](randVec(r, prod(s.in.shape), f32), s.in.shape), tens[T](randVec(r, prod(s.root.shape), f32), s.root.shape)
	for i := rapid.IntRange(1, 3).Draw(rt, "uses"); i > 0; i-- {
		var err error
		switch k := uniform(rt, "use", 6); k {
		case 0:
			how += "Compile "
			err = b.m.Compile()
		case 1:
			how += "CompileBackPropagation "
			err = b.m.CompileBackPropagation()
		case 2:
			how += "Predict "
			_, err = b.m.Predict(x)
		case 3:
			how += "TrainOne "
			_, err = b.m.TrainOne(x, y, 0, 0)
		case 4:
			how += "ResetIS "
			err = b.m.ResetIS()
		case 5:
			how += "Train "
			quiet(func() { err = b.m.Train([]tensor.Tensor[T]{x}, []tensor.Tensor[T]{y}, 1, 1, 0, 0) })
		}
		if err != nil {
			rt.Fatalf("%s: %s: %v", s, how, err)
		}
	}
	c.K("%s", how)
	c.L(how)
	if err := b.setParams(); err != nil {
		rt.Fatalf("%s: %s: %v", s, how, err)
	}
	for i := 0; i < 2; i++ {
		x := tens[T](randVec(r, prod(s.in.shape), f32), s.in.shape)
		p, err := a.m.Predict(x)
		if err != nil {
			rt.Fatalf("%s: Predict: %v", s, err)
		}
		q, err := b.m.Predict(x)
		if err != nil {
			rt.Fatalf("%s: after %s: Predict: %v", s, how, err)
		}
		if d := sameAll(q.GetData(), p.GetData()); d != "" {
			rt.Fatalf("%s: first used by %s: Predict: %s", s, how, d)
		}
	}
	c.NT(true)
}
