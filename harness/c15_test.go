package harness

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"testing"
	"testing/iotest"

	"github.com/julioguillermo/godeep/model"
	"github.com/julioguillermo/godeep/number"
	"github.com/julioguillermo/godeep/tensor"
	"github.com/julioguillermo/godeep/types"
	"pgregory.net/rapid"
)

const ruleC15 = "random networks (branches, nested models) and models composed of 2..3 models; 1..4 rounds of training, freezing and releasing layers, saving, loading into a separately built model (through whole, half-sized and one-byte readers, with bytes following), comparing all parameters and several predictions bit for bit. Fault enumeration: truncation points and byte budgets of a failing writer (all of them up to 160 bytes, else about 60 spread ones and the neighbourhood of every parameter tensor's end), each of which must give an error and leave a retry after the reset working. Non-trivial: the model has at least two parameters."

func TestC15(t *testing.T) {
	run(t, "C15", ruleC15,
		sub{name: "roundTrip", n: 8000, f: func(rt *rapid.T, c *rec) { dispatchF(rt, c, c15Round[float32], c15Round[float64]) }},
		sub{name: "composed", n: 4000, f: func(rt *rapid.T, c *rec) { dispatchF(rt, c, c15Comp[float32], c15Comp[float64]) }},
		sub{name: "faults", n: 2500, f: func(rt *rapid.T, c *rec) { dispatchF(rt, c, c15Faults[float32], c15Faults[float64]) }},
	)
}

// whole is a model or a composition, with access to the parameters of its parts.
type whole[T types.Number] struct {
	m     *model.Model[T]
	parts []*net[T]
}

func (w *whole[T]) params() []T {
	var r []T
	for _, p := range w.parts {
		r = append(r, p.params()...)
	}
	return r
}

// first is the first part as a model of its own.
func (w *whole[T]) first() *whole[T] {
	return &whole[T]{w.parts[0].m, w.parts[:1]}
}

func (w *whole[T]) in() []uint { return w.parts[0].spec.in.shape }

func (w *whole[T]) out() []uint { return w.parts[len(w.parts)-1].spec.root.shape }

func c15Transfer[T types.Number](rt *rapid.T, what string, a, b *whole[T], kind int) {
	var buf bytes.Buffer
	a.m.ResetSave()
	want := a.params()
	if err := a.m.Save(&buf); err != nil {
		rt.Fatalf("%s: Save: %v", what, err)
	}
	if buf.Len() != len(want)*bitsOf[T]()/8 {
		rt.Fatalf("%s: Save wrote %d bytes for %d parameters of %d bytes", what, buf.Len(), len(want), bitsOf[T]()/8)
	}
	if d := sameAll(a.params(), want); d != "" {
		rt.Fatalf("%s: Save changed a parameter: %s", what, d)
	}
	tail := []byte("following bytes")
	if uniform(rt, "atEnd", 2) == 1 {
		tail = nil
	}
	buf.Write(tail)
	rd := wrapReader(kind, &buf)
	b.m.ResetLoad()
	if err := b.m.Load(rd); err != nil {
		rt.Fatalf("%s: Load: %v", what, err)
	}
	rest, _ := io.ReadAll(rd)
	if !bytes.Equal(rest, tail) {
		rt.Fatalf("%s: Load left %d bytes, want the %d written afterwards", what, len(rest), len(tail))
	}
	if d := sameAll(b.params(), want); d != "" {
		rt.Fatalf("%s: loaded parameters: %s", what, d)
	}
}

func c15Same[T types.Number](rt *rapid.T, what string, a, b *whole[T], r *rng) {
	for i := 0; i < 2; i++ {
		x := randVec(r, prod(a.in()), true)
		p, err := a.m.Predict(tens[T](x, a.in()))
		if err != nil {
			rt.Fatalf("%s: Predict: %v", what, err)
		}
		q, err := b.m.Predict(tens[T](x, a.in()))
		if err != nil {
			rt.Fatalf("%s: Predict of the loaded model: %v", what, err)
		}
		if d := sameAll(q.GetData(), p.GetData()); d != "" {
			rt.Fatalf("%s: prediction of the loaded model: %s", what, d)
		}
	}
}

func (w *whole[T]) train(r *rng, alpha, mom float64) error {
	_, err := w.m.TrainOne(tens[T](randVec(r, prod(w.in()), true), w.in()), tens[T](randVec(r, prod(w.out()), true), w.out()), T(alpha), T(mom))
	return err
}

func c15Rounds[T types.Number](rt *rapid.T, c *rec, what string, mk func() *whole[T]) {
	r := genRng(rt, "values")
	c.K("seed%d", r.s)
	a, b := mk(), mk()
	c.NT(len(a.params()) > 1)
	freezable := rapid.IntRange(0, 2).Draw(rt, "freezing") == 0
	for n := rapid.IntRange(1, 4).Draw(rt, "rounds"); n > 0; n-- {
		if freezable {
			for _, w := range []*whole[T]{a, b} {
				if rapid.Bool().Draw(rt, "freeze") {
					newFreezer(w.m, w.parts...).change(rt)
					c.L("layers frozen")
				}
			}
		}
		for k := rapid.IntRange(0, 2).Draw(rt, "train"); k > 0; k-- {
			if err := a.train(r, 0.05, 0.5); err != nil {
				rt.Fatalf("%s: TrainOne: %v", what, err)
			}
		}
		if rapid.IntRange(0, 2).Draw(rt, "trainB") == 0 {
			if err := b.train(r, 0.05, 0.5); err != nil {
				rt.Fatalf("%s: TrainOne: %v", what, err)
			}
		}
		kind := rapid.IntRange(0, 3).Draw(rt, "reader")
		if len(a.parts) > 1 && rapid.IntRange(0, 2).Draw(rt, "firstAlone") == 0 {
			// the first part alone, before the marks of the whole are reset
			c15Transfer(rt, what+" first part", a.first(), b.first(), kind)
			c.L("first part alone")
		}
		c15Transfer(rt, what, a, b, kind)
		c15Same(rt, what, a, b, r)
		if rapid.Bool().Draw(rt, "swap") {
			a, b = b, a
			c.L("swapped")
		}
	}
}

func c15Round[T types.Number](rt *rapid.T, c *rec) {
	s := genNetShared(rt, c)
	r := genRng(rt, "params")
	c.K("seed%d", r.s)
	c15Rounds(rt, c, s.String(), func() *whole[T] {
		s.initParams(r, bitsOf[T]() == 32)
		b, err := compiled[T](s)
		if err != nil {
			rt.Fatalf("%s: %v", s, err)
		}
		return &whole[T]{b.m, []*net[T]{b}}
	})
}

// numParts draws the number of parts and the number of layers a part may
// have: now and then many short parts.
func numParts(rt *rapid.T, c *rec, lo, hi int) (n, long int) {
	n = rapid.IntRange(lo, hi).Draw(rt, "parts")
	if hi >= 3 && uniform(rt, "many", 12) == 11 {
		c.L("many parts")
		return hi + 1 + uniform(rt, "manyParts", 9), 1
	}
	return n, 3
}

// genParts draws networks each of which fits the output of the one before.
func genParts(rt *rapid.T, c *rec, lo, hi int) []*netSpec {
	n, long := numParts(rt, c, lo, hi)
	var l []*netSpec
	for i := 0; i < n; i++ {
		g := &netGen{rt: rt, maxElems: 60}
		var s *netSpec
		if i == 0 {
			s = g.gen()
		} else {
			s = &netSpec{in: &nspec{kind: "in", shape: l[i-1].root.shape}}
			if g.intr("branches", 0, 3) == 0 {
				s.root = g.tree(s.in, 1)
			} else {
				s.root = g.chain(s.in, g.intr("len", 1, long), 1)
			}
			s.fromInOut = g.intr("inOut", 0, 1) == 0
			if f := firstOf(s.root, s.in); f != nil && f.kind == "dense" && len(s.in.shape) == 1 && g.intr("inDense", 0, 2) == 0 {
				s.inDense = true
			}
			s.prepare()
		}
		describe(c, s)
		l = append(l, s)
	}
	return l
}

func compose[T types.Number](parts []*netSpec) (*whole[T], error) {
	return composeFrom[T](parts, 0, 0)
}

// composeFrom composes the first parts (all: 0) to a model which it composes
// with the others. Before, the first part may be compiled (1), prepared for
// training (2) and trained with a rate of 0 (3).
func composeFrom[T types.Number](parts []*netSpec, group, early int) (*whole[T], error) {
	w := &whole[T]{}
	var ms []*model.Model[T]
	for _, s := range parts {
		b := build[T](s)
		w.parts = append(w.parts, b)
		ms = append(ms, b.m)
	}
	var err error
	m := catch(func() {
		if early > 0 {
			err = ms[0].Compile()
		}
		if early > 1 && err == nil {
			err = ms[0].CompileBackPropagation()
		}
		if early > 2 && err == nil {
			s := parts[0]
			x := randVec(&rng{s: 3}, prod(s.in.shape), true)
			_, err = ms[0].TrainOne(tens[T](x, s.in.shape), tensor.NewZeros[T](s.root.shape...), 0, 0)
			if wild(w.parts[0].params()) {
				// a degenerate Norm or SoftMax
				w, err = composeFrom[T](parts, group, 2)
				return
			}
		}
		if group > 0 && err == nil {
			var first *model.Model[T]
			first, err = model.FromModels(ms[:group]...)
			ms = append([]*model.Model[T]{first}, ms[group:]...)
		}
		if err == nil {
			w.m, err = model.FromModels(ms...)
		}
	})
	if m != "" {
		return nil, errors.New(m)
	}
	if err != nil {
		return nil, err
	}
	for _, p := range w.parts {
		if err := p.setParams(); err != nil {
			return nil, err
		}
	}
	return w, nil
}

// composeAny draws the way in which the parts are composed.
func composeAny[T types.Number](rt *rapid.T, c *rec, parts []*netSpec) (*whole[T], error) {
	group, early := 0, 0
	if uniform(rt, "grouped", 3) == 0 {
		group = 1 + uniform(rt, "group", len(parts))
		c.L("composition of a composition")
	}
	if uniform(rt, "early", 3) == 0 {
		early = 1 + uniform(rt, "earlyKind", 3)
		c.L("first part compiled before")
	}
	c.K("group%d early%d", group, early)
	return composeFrom[T](parts, group, early)
}

// genComposition draws parts and a way to make compositions of them that are
// equal in everything that follows. If the output of a part is shared by
// branches of the next (a listed finding), they are composed in one way only.
func genComposition[T types.Number](rt *rapid.T, c *rec, lo, hi int) ([]*netSpec, func() (*whole[T], error)) {
	if uniform(rt, "branchesLater", 2) == 0 {
		parts := genParts(rt, c, lo, hi)
		return parts, func() (*whole[T], error) { return compose[T](parts) }
	}
	parts := genLine(rt, c, lo, hi)
	return parts, func() (*whole[T], error) { return composeAny[T](rt, c, parts) }
}

// apart: part j can be given any input of its own. Not so (a listed finding) if
// the values that it takes from the part before are several times the same one.
func (w *whole[T]) apart(j int) bool {
	seen := map[*number.Scalar[T]]bool{}
	for _, o := range w.parts[j].m.Input.GetOperands() {
		if seen[o] {
			return false
		}
		seen[o] = true
	}
	return true
}

// genLine draws parts of which only the first has branches (a later one's
// branches would share a hidden layer).
func genLine(rt *rapid.T, c *rec, lo, hi int) []*netSpec {
	n, long := numParts(rt, c, lo, hi)
	var l []*netSpec
	for i := 0; i < n; i++ {
		g := &netGen{rt: rt, maxElems: 60, noBranch: i > 0}
		var s *netSpec
		if i == 0 {
			s = g.gen()
		} else {
			s = &netSpec{in: &nspec{kind: "in", shape: l[i-1].root.shape}}
			s.root = g.chain(s.in, g.intr("len", 1, long), 1)
			s.fromInOut = g.intr("inOut", 0, 1) == 0
			if f := firstOf(s.root, s.in); f != nil && f.kind == "dense" && len(s.in.shape) == 1 && g.intr("inDense", 0, 2) == 0 {
				s.inDense = true
			}
			s.prepare()
		}
		describe(c, s)
		l = append(l, s)
	}
	return l
}

// line is the network that the composed parts make. undo restores the parts.
func line(parts []*netSpec) (s *netSpec, undo func()) {
	for i := 1; i < len(parts); i++ {
		parts[i].in.kind, parts[i].in.pre = "nin", parts[i-1].root
	}
	s = &netSpec{in: parts[0].in, root: parts[len(parts)-1].root}
	s.prepare()
	return s, func() {
		for i := 1; i < len(parts); i++ {
			parts[i].in.kind, parts[i].in.pre = "in", nil
		}
		for _, p := range parts {
			p.prepare()
		}
	}
}

func partsString(l []*netSpec) string {
	t := ""
	for _, s := range l {
		t += fmt.Sprintf("<%s> ", s)
	}
	return t
}

func c15Comp[T types.Number](rt *rapid.T, c *rec) {
	parts := genParts(rt, c, 2, 3)
	r := genRng(rt, "params")
	c.K("seed%d", r.s)
	c15Rounds(rt, c, partsString(parts), func() *whole[T] {
		for _, s := range parts {
			s.initParams(r, bitsOf[T]() == 32)
		}
		w, err := composeAny[T](rt, c, parts)
		if err != nil {
			rt.Fatalf("%s: %v", partsString(parts), err)
		}
		return w
	})
}

func c15Faults[T types.Number](rt *rapid.T, c *rec) {
	var specs []*netSpec
	if uniform(rt, "composition", 4) == 0 {
		specs = genParts(rt, c, 2, 3)
	} else {
		s := (&netGen{rt: rt, maxElems: 40}).gen()
		describe(c, s)
		specs = []*netSpec{s}
	}
	s := partsString(specs)
	r := genRng(rt, "values")
	c.K("seed%d", r.s)
	single := bitsOf[T]() == 32
	two := [2]*whole[T]{}
	for i := range two {
		for _, p := range specs {
			p.initParams(r, single)
		}
		var err error
		if len(specs) > 1 {
			two[i], err = compose[T](specs)
		} else {
			var n *net[T]
			n, err = compiled[T](specs[0])
			if err == nil {
				two[i] = &whole[T]{n.m, []*net[T]{n}}
			}
		}
		if err != nil {
			rt.Fatalf("%s: %v", s, err)
		}
	}
	a, b := two[0], two[1]
	var buf bytes.Buffer
	if err := a.m.Save(&buf); err != nil {
		rt.Fatalf("%s: Save: %v", s, err)
	}
	all := buf.Bytes()
	want := a.params()
	points := map[int]bool{}
	for k := 0; k < len(all); k++ {
		if len(all) <= 160 || r.intn(len(all)) < 60 {
			points[k] = true
		}
	}
	at := 0
	var params []*nspec
	for _, p := range specs {
		params = append(params, p.params...)
	}
	for _, p := range params {
		for _, n := range []int{prod(p.wShape), prod(p.bShape)} {
			at += n * bitsOf[T]() / 8
			for d := -1; d <= 1; d++ {
				if at+d >= 0 && at+d < len(all) {
					points[at+d] = true
				}
			}
		}
	}
	if len(all) > 0 {
		points[0], points[len(all)-1] = true, true
	}
	kind := rapid.IntRange(0, 3).Draw(rt, "reader")
	fail := rapid.Bool().Draw(rt, "readerFails")
	for k := 0; k < len(all); k++ {
		if !points[k] {
			continue
		}
		out.Extra["faults_injected"] += 2
		var rd io.Reader = bytes.NewReader(all[:k])
		if fail {
			rd = io.MultiReader(rd, iotest.ErrReader(errors.New("read fault")))
		}
		b.m.ResetLoad()
		var err error
		if m := catch(func() { err = b.m.Load(wrapReader(kind, rd)) }); m != "" {
			rt.Fatalf("%s: Load of %d of %d bytes: %s", s, k, len(all), m)
		}
		if err == nil {
			rt.Fatalf("%s: Load of %d of %d bytes gave no error", s, k, len(all))
		}
		a.m.ResetSave()
		if m := catch(func() { err = a.m.Save(&limitedWriter{left: k}) }); m != "" {
			rt.Fatalf("%s: Save to a writer failing after %d bytes: %s", s, k, m)
		}
		if err == nil {
			rt.Fatalf("%s: Save to a writer failing after %d of %d bytes gave no error", s, k, len(all))
		}
		if r.intn(4) == 0 || k == len(all)-1 || k == 0 {
			// the retry works
			var again bytes.Buffer
			a.m.ResetSave()
			if err := a.m.Save(&again); err != nil || !bytes.Equal(again.Bytes(), all) {
				rt.Fatalf("%s: Save after a failed one (at byte %d): %v, %d bytes", s, k, err, again.Len())
			}
			b.m.ResetLoad()
			if err := b.m.Load(bytes.NewReader(all)); err != nil {
				rt.Fatalf("%s: Load after a failed one (at byte %d): %v", s, k, err)
			}
			if d := sameAll(b.params(), want); d != "" {
				rt.Fatalf("%s: Load after a failed one (at byte %d): %s", s, k, d)
			}
			for _, p := range b.parts {
				p.spec.initParams(r, single)
				if err := p.setParams(); err != nil {
					rt.Fatalf("%v", err)
				}
			}
		}
		if d := sameAll(a.params(), want); d != "" {
			rt.Fatalf("%s: Save changed a parameter: %s", s, d)
		}
	}
	c.NT(len(all) > 8)
}
