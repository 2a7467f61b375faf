package harness

import (
	"fmt"
	"math"
	"os"
	"strings"

	"github.com/julioguillermo/godeep/activation"
	"github.com/julioguillermo/godeep/layer"
	"github.com/julioguillermo/godeep/model"
	"github.com/julioguillermo/godeep/tensor"
	"github.com/julioguillermo/godeep/types"
	"pgregory.net/rapid"
)

// ---------------------------------------------------------------------- specs

// nspec is one node of a network. Every node but the input feeds one other.
type nspec struct {
	kind  string
	pre   *nspec
	pre2  *nspec // concat
	shape []uint

	act            act
	kw, kh, sx, sy uint
	dim, from, to  uint
	alt            bool // build it through the other constructor
	trainable      bool

	// a nested model
	inner, innerIn *nspec // innerIn nil: the model has no input layer of its own
	fromInOut      bool

	// reference state
	wShape, bShape []uint
	w, b           []float64
	dw, db         []float64 // gradient of the last backward pass
	out, neta, dif []float64
	down           bool // a parametric layer is downstream
}

func (n *nspec) parametric() bool { return n.kind == "dense" || n.kind == "conv" || n.kind == "deconv" }

// netSpec is a whole network.
type netSpec struct {
	in, root  *nspec
	inDense   bool // the first layer is a dense layer with its own input
	fromInOut bool
	params    []*nspec // in order of instantiation
}

func (n *nspec) String() string {
	switch n.kind {
	case "in":
		return fmt.Sprintf("In%v", n.shape)
	case "nin":
		return "nested"
	case "dense":
		return fmt.Sprintf("%v>Dense%d:%s", n.pre, n.shape[0], n.act)
	case "conv", "deconv":
		return fmt.Sprintf("%v>%s%d,%dx%d/%dx%d:%s", n.pre, n.kind, n.shape[0], n.kw, n.kh, n.sx, n.sy, n.act)
	case "pool", "up":
		return fmt.Sprintf("%v>%s%dx%d", n.pre, n.kind, n.sx, n.sy)
	case "sub":
		return fmt.Sprintf("%v>sub(%d,%d:%d)", n.pre, n.dim, n.from, n.to)
	case "concat":
		return fmt.Sprintf("cat%d(%v | %v)", n.dim, n.pre, n.pre2)
	case "model":
		if n.innerIn == nil {
			return fmt.Sprintf("model{%v}", n.inner)
		}
		return fmt.Sprintf("%v>model{%v}", n.pre, n.inner)
	}
	return fmt.Sprintf("%v>%s", n.pre, n.kind)
}

func (s *netSpec) String() string {
	t := s.root.String()
	if s.inDense {
		t += " inDense"
	}
	return t
}

// ------------------------------------------------------------------ generation

type netGen struct {
	rt       *rapid.T
	maxElems int
	grand    bool // past the usual sizes
	acts     []string
	noBranch bool
	plainP   bool // parametric layers preferred
	trunk    bool // a hidden layer may feed several others
	n        int
}

func (g *netGen) intr(label string, a, b int) int { return a + uniform(g.rt, label, b-a+1) }

// uniform draws below n, without rapid's preference for small numbers, but
// still shrinking to them.
func uniform(rt *rapid.T, label string, n int) int {
	v := rapid.Uint32().Draw(rt, label)
	if v < uint32(n) {
		return int(v)
	}
	return (&rng{s: uint64(v)}).intn(n)
}

// upTo draws from lo..hi, of a large network also from lo..most.
func (g *netGen) upTo(label string, lo, hi, most int) int {
	if g.grand && most > hi && g.intr(label+"Grand", 0, 1) == 1 {
		hi = most
	}
	return g.intr(label, lo, hi)
}

func (g *netGen) maxOps() int {
	if g.grand {
		return 20000
	}
	return 2500
}

func (g *netGen) act() act {
	a := act{name: "Tanh"}
	switch g.intr("act", 0, 11) {
	case 0, 1:
		a.name = "Tanh"
	case 2, 3:
		a.name = "Sigmoid"
	case 4:
		a.name = "Linear"
	case 5:
		a.name = "Sin"
	case 6:
		a.name = "Swish"
	case 7:
		a.name = "GELU"
	case 8:
		a.name, a.alpha = "ELU", pick(g.rt, "alpha", 1.0, 0.5, 2)
	case 9:
		a.name, a.alpha, a.lam = "SELU", 1.5, 1.25
	case 10:
		a.name, a.alpha = "Relu", pick(g.rt, "alpha", 0.25, 0.5, -0.5)
	default:
		a.name, a.alpha = "Relu", 0
	}
	return a
}

// inputLike: nothing but input layers up to the input.
func inputLike(n *nspec) bool {
	return n.kind == "in" || (n.kind == "nin" && inputLike(n.pre))
}

// sharesInput: the layer's error tensor is the one of the input.
func sharesInput(n *nspec) bool {
	switch n.kind {
	case "in":
		return true
	case "nin", "softmax":
		return sharesInput(n.pre)
	case "model":
		return sharesInput(n.inner)
	case "concat":
		return sharesInput(n.pre) || sharesInput(n.pre2)
	}
	return false
}

func (g *netGen) sub(cur *nspec, dim, from, to uint) *nspec {
	s := append([]uint{}, cur.shape...)
	s[dim] = to - from
	return &nspec{kind: "sub", pre: cur, shape: s, dim: dim, from: from, to: to}
}

func (g *netGen) dense(cur *nspec) *nspec {
	hi := 8
	if prod(cur.shape) > 60 {
		hi = 3
	}
	o := uint(g.upTo("outs", 1, hi, min(70, g.maxOps()/prod(cur.shape))))
	return &nspec{kind: "dense", pre: cur, shape: []uint{o}, act: g.act(), trainable: true,
		wShape: []uint{o, uint(prod(cur.shape))}, bShape: []uint{o}}
}

func (g *netGen) step(cur *nspec, depth int) *nspec {
	for try := 0; ; try++ {
		k := g.intr("layer", 0, 19)
		if try > 6 && k > 1 {
			k = 0
		}
		s := cur.shape
		two := len(s) == 3
		switch {
		case k <= 3 && (!two || k <= 1):
			return g.dense(cur)
		case k <= 7 && two:
			n := &nspec{kind: "conv", pre: cur, act: g.act(), trainable: true}
			n.kw, n.kh = uint(g.upTo("kw", 1, int(min(4, s[1])), int(min(9, s[1])))), uint(g.upTo("kh", 1, int(min(4, s[2])), int(min(9, s[2]))))
			n.sx, n.sy = uint(g.upTo("sx", 1, 3, 6)), uint(g.upTo("sy", 1, 3, 6))
			if g.intr("square", 0, 3) == 0 {
				m := min(n.kw, n.kh)
				n.kw, n.kh, n.sy = m, m, n.sx
			}
			n.alt = n.kw == n.kh && n.sx == n.sy && g.intr("ctor", 0, 1) == 0
			n.shape = []uint{uint(g.upTo("filters", 1, 3, 9)), (s[1]-n.kw)/n.sx + 1, (s[2]-n.kh)/n.sy + 1}
			n.wShape = []uint{n.shape[0], s[0], n.kw, n.kh}
			n.bShape = n.shape
			if prod(n.shape)*prod(n.wShape)/int(n.shape[0]) > g.maxOps() {
				continue
			}
			return n
		case k <= 10 && two:
			n := &nspec{kind: "deconv", pre: cur, act: g.act(), trainable: true}
			n.kw, n.kh = uint(g.upTo("kw", 1, 3, 7)), uint(g.upTo("kh", 1, 3, 7))
			n.sx, n.sy = uint(g.upTo("sx", 1, 3, 6)), uint(g.upTo("sy", 1, 3, 6))
			if g.intr("square", 0, 3) == 0 {
				n.kh, n.sy = n.kw, n.sx
			}
			n.alt = n.kw == n.kh && n.sx == n.sy && g.intr("ctor", 0, 1) == 0
			n.shape = []uint{uint(g.upTo("filters", 1, 3, 9)), (s[1]-1)*n.sx + n.kw, (s[2]-1)*n.sy + n.kh}
			n.wShape = []uint{n.shape[0], s[0], n.kw, n.kh}
			n.bShape = n.shape
			if prod(n.shape) > g.maxElems || prod(s)*prod(n.wShape)/int(s[0]) > g.maxOps() {
				continue
			}
			return n
		case k <= 12 && two:
			n := &nspec{kind: "pool", pre: cur, sx: uint(g.upTo("sx", 1, 4, 9)), sy: uint(g.upTo("sy", 1, 4, 9))}
			if g.intr("square", 0, 3) == 0 {
				n.sy = n.sx
			}
			n.alt = n.sx == n.sy && g.intr("ctor", 0, 1) == 0
			n.shape = []uint{s[0], (s[1] + n.sx - 1) / n.sx, (s[2] + n.sy - 1) / n.sy}
			return n
		case k == 13 && two:
			n := &nspec{kind: "up", pre: cur, sx: uint(g.upTo("sx", 1, 3, 7)), sy: uint(g.upTo("sy", 1, 3, 7))}
			n.alt = n.sx == n.sy && g.intr("ctor", 0, 1) == 0
			n.shape = []uint{s[0], s[1] * n.sx, s[2] * n.sy}
			if prod(n.shape) > g.maxElems {
				continue
			}
			return n
		case k == 14:
			return &nspec{kind: "flatten", pre: cur, shape: []uint{uint(prod(s))}}
		case k == 15:
			return &nspec{kind: "norm", pre: cur, shape: s}
		case k == 16:
			return &nspec{kind: "enorm", pre: cur, shape: s}
		case k == 17 && prod(s) > 2:
			return &nspec{kind: "softmax", pre: cur, shape: s}
		case k == 18 && len(s) > 0:
			d := uint(g.intr("dim", 0, len(s)-1))
			from := g.intr("from", 0, int(s[d])-1)
			return g.sub(cur, d, uint(from), uint(g.intr("to", from+1, int(s[d]))))
		case k == 19 && depth < 2:
			n := &nspec{kind: "model", pre: cur, fromInOut: g.intr("inOut", 0, 1) == 0}
			base := cur
			if g.intr("ownIn", 0, 2) > 0 {
				n.innerIn = &nspec{kind: "nin", pre: cur, shape: s}
				base = n.innerIn
			}
			if n.innerIn != nil && inputLike(n.innerIn) && !g.noBranch && g.intr("innerBranch", 0, 1) == 0 {
				n.inner = g.tree(base, depth+1)
			} else {
				n.inner = g.chain(base, g.intr("innerLen", 1, 3), depth+1)
			}
			if n.innerIn == nil && n.inner == base {
				continue
			}
			n.shape = n.inner.shape
			return n
		}
	}
}

func (g *netGen) chain(base *nspec, n, depth int) *nspec {
	cur := base
	for i := 0; i < n; i++ {
		cur = g.step(cur, depth)
	}
	return cur
}

// branch is a chain that can be one side of a Concat.
func (g *netGen) branch(base *nspec, depth int) *nspec {
	n := g.intr("branchLen", 1, 4)
	if n == 4 {
		n = 0 // the base itself, beside a layer that it feeds
	}
	return g.chain(base, n, depth)
}

func (g *netGen) join(a, b *nspec) *nspec {
	if sharesInput(a) && sharesInput(b) || a == b {
		b = &nspec{kind: pick(g.rt, "sep", "norm", "enorm"), pre: b, shape: b.shape}
	}
	if len(a.shape) != len(b.shape) || len(a.shape) == 0 {
		if len(a.shape) != 1 {
			a = &nspec{kind: "flatten", pre: a, shape: []uint{uint(prod(a.shape))}}
		}
		if len(b.shape) != 1 {
			b = &nspec{kind: "flatten", pre: b, shape: []uint{uint(prod(b.shape))}}
		}
	}
	d := g.intr("catDim", 0, len(a.shape)-1)
	for i := range a.shape {
		if i == d {
			continue
		}
		if a.shape[i] > b.shape[i] {
			a = g.sub(a, uint(i), a.shape[i]-b.shape[i], a.shape[i])
		} else if b.shape[i] > a.shape[i] {
			b = g.sub(b, uint(i), 0, a.shape[i])
		}
	}
	s := append([]uint{}, a.shape...)
	s[d] += b.shape[d]
	return &nspec{kind: "concat", pre: a, pre2: b, dim: uint(d), shape: s}
}

// tree joins two or three branches and goes on.
func (g *netGen) tree(base *nspec, depth int) *nspec {
	t := g.join(g.branch(base, depth), g.branch(base, depth))
	if g.intr("third", 0, 2) == 0 {
		b := g.branch(base, depth)
		if g.intr("thirdSide", 0, 1) == 0 {
			t = g.join(t, b)
		} else {
			t = g.join(b, t)
		}
	}
	return g.chain(t, g.intr("afterCat", 0, 2), depth)
}

func (g *netGen) gen() *netSpec {
	rt := g.rt
	s := &netSpec{}
	if g.maxElems == 0 {
		g.maxElems = 160
		if g.intr("grand", 0, 15) == 15 {
			g.grand, g.maxElems = true, 1200
		}
	}
	s.in = &nspec{kind: "in"}
	switch g.intr("inKind", 0, 7) {
	case 0, 1:
		s.in.shape = []uint{uint(g.upTo("ins", 1, 9, 300))}
	case 2:
		s.in.shape = genShapeN(rt, "inShape", g.upTo("inRank", 2, 4, 7), g.upTo("inSize", 24, 24, 400))
	default:
		s.in.shape = []uint{uint(g.upTo("c", 1, 3, 8)), uint(g.upTo("x", 1, 7, 15)), uint(g.upTo("y", 1, 7, 15))}
	}
	n := g.upTo("len", 1, 5, 10)
	if !g.noBranch && g.intr("branches", 0, 3) == 0 {
		base := s.in
		if g.trunk && g.intr("trunk", 0, 1) == 0 {
			base = g.chain(base, g.intr("trunkLen", 1, 2), 1)
		}
		s.root = g.tree(base, 0)
		s.fromInOut = g.intr("inOut", 0, 1) == 0
	} else {
		s.root = g.chain(s.in, n, 0)
		s.fromInOut = g.intr("inOut", 0, 2) == 0
		// the first layer may be the dense layer itself
		if f := firstOf(s.root, s.in); f != nil && f.kind == "dense" && len(s.in.shape) == 1 && g.intr("inDense", 0, 1) == 0 {
			s.inDense = true
		}
	}
	s.prepare()
	return s
}

// firstOf is the only layer fed by in along plain layers (nil if it is not one).
func firstOf(n, in *nspec) *nspec {
	for n.kind != "concat" && n.kind != "model" && n.kind != "nin" && n.kind != "in" {
		if n.pre == in {
			return n
		}
		n = n.pre
	}
	return nil
}

func (s *netSpec) prepare() {
	s.params = nil
	seen := map[*nspec]bool{}
	var walk func(n *nspec, down bool)
	walk = func(n *nspec, down bool) {
		if n == nil {
			return
		}
		n.down = down
		switch n.kind {
		case "in":
			return
		case "model":
			walk(n.inner, down)
			return
		case "concat":
			walk(n.pre, down)
			walk(n.pre2, down)
			return
		}
		if n.kind == "nin" {
			n.down = true // may be walked several times; unused
		}
		walk(n.pre, down || n.parametric())
		if n.parametric() && !seen[n] {
			seen[n] = true
			s.params = append(s.params, n)
		}
	}
	walk(s.root, false)
	// an input shared by branches is walked repeatedly, and so is what lies
	// between a nested and the outer input - which is nothing but inputs.
}

// initParams draws the parameters of the reference.
func (s *netSpec) initParams(r *rng, f32 bool) {
	q := func(v float64) float64 {
		if f32 {
			return float64(float32(v))
		}
		return v
	}
	for _, p := range s.params {
		fan := float64(prod(p.wShape)) / float64(p.wShape[0])
		mode, size := r.intn(24), 1.8/math.Sqrt(fan)
		if mode == 1 {
			size *= 8
		}
		draw := func(v *float64, size float64) {
			*v = q((r.f64()*2 - 1) * size)
			switch {
			case mode == 2 && r.intn(2) == 0:
				*v = 0
			case mode == 3:
				*v = float64(r.between(-1, 1))
			}
		}
		p.w = make([]float64, prod(p.wShape))
		for i := range p.w {
			draw(&p.w[i], size)
		}
		p.b = make([]float64, prod(p.bShape))
		for i := range p.b {
			draw(&p.b[i], 1)
		}
	}
}

// ------------------------------------------------------------------- reference

// health collects what makes a comparison ill-conditioned.
type health struct {
	kink, pool, soft, norm float64 // smallest distances seen
}

func newHealth() *health { return &health{math.Inf(1), math.Inf(1), math.Inf(1), math.Inf(1)} }

func (h *health) okForward(f32 bool) bool {
	if f32 {
		return h.soft > 0.05 && h.norm > 0.02
	}
	return h.soft > 1e-4 && h.norm > 1e-4
}

func (h *health) okBackward(f32 bool) bool {
	if f32 {
		return h.okForward(f32) && h.kink > 1e-4 && h.pool > 1e-4
	}
	return h.okForward(f32) && h.kink > 1e-8 && h.pool > 1e-8
}

func (n *nspec) forward(x []float64, h *health) []float64 {
	switch n.kind {
	case "in":
		n.out = x
		return x
	case "nin":
		n.out = n.pre.forward(x, h)
		return n.out
	case "model":
		n.out = n.inner.forward(x, h)
		return n.out
	case "concat":
		a := n.pre.forward(x, h)
		b := n.pre2.forward(x, h)
		_, n.out = refConcat(n.pre.shape, n.pre2.shape, a, b, int(n.dim))
		return n.out
	}
	in := n.pre.forward(x, h)
	is := n.pre.shape
	switch n.kind {
	case "dense":
		o, m := int(n.shape[0]), len(in)
		n.neta = make([]float64, o)
		for i := 0; i < o; i++ {
			s := n.b[i]
			for j := 0; j < m; j++ {
				s += n.w[i*m+j] * in[j]
			}
			n.neta[i] = s
		}
	case "conv":
		n.neta = append([]float64{}, n.b...)
		n.taps(is, func(o, w, i int) { n.neta[o] += n.w[w] * in[i] })
	case "deconv":
		n.neta = append([]float64{}, n.b...)
		n.taps(is, func(o, w, i int) { n.neta[o] += n.w[w] * in[i] })
	case "pool":
		n.out = make([]float64, prod(n.shape))
		n.windows(is, func(o int, ins []int) {
			best := math.Inf(-1)
			for _, i := range ins {
				best = math.Max(best, in[i])
			}
			n.out[o] = best
			second := math.Inf(-1)
			seen := false
			for _, i := range ins {
				if in[i] == best && !seen {
					seen = true
					continue
				}
				second = math.Max(second, in[i])
			}
			h.pool = math.Min(h.pool, best-second)
		})
	case "up":
		n.out = make([]float64, prod(n.shape))
		mi := strides(is)
		each(n.shape, func(k int, ix []uint) {
			n.out[k] = in[ravel([]uint{ix[0], ix[1] / n.sx, ix[2] / n.sy}, mi)]
		})
	case "flatten":
		n.out = in
	case "sub":
		_, n.out = refSub(is, in, int(n.dim), n.from, n.to, 0)
	case "norm", "enorm":
		m := 0.0
		for _, v := range in {
			m = math.Max(m, math.Abs(v))
		}
		h.norm = math.Min(h.norm, m)
		n.out = make([]float64, len(in))
		for i, v := range in {
			if n.kind == "norm" {
				n.out[i] = v / m
			} else {
				n.out[i] = v/m*2 - 1
			}
		}
	case "softmax":
		m := math.Inf(1)
		for _, v := range in {
			m = math.Min(m, v)
		}
		s := 0.0
		for _, v := range in {
			s += v - m
		}
		h.soft = math.Min(h.soft, s)
		n.out = make([]float64, len(in))
		for i, v := range in {
			n.out[i] = (v - m) / s
		}
	default:
		panic(n.kind)
	}
	if n.parametric() {
		n.out = make([]float64, len(n.neta))
		for i, v := range n.neta {
			n.out[i], _ = n.act.f(v)
			if n.act.name == "Relu" || n.act.name == "ELU" || n.act.name == "SELU" {
				h.kink = math.Min(h.kink, math.Abs(v))
			}
		}
	}
	return n.out
}

// taps calls f for every (output, weight, input) triple of a convolution or
// transposed convolution.
func (n *nspec) taps(is []uint, f func(o, w, i int)) {
	mo, mw, mi := strides(n.shape), strides(n.wShape), strides(is)
	each(n.wShape, func(w int, wx []uint) {
		_ = mw
		if n.kind == "conv" {
			for x := uint(0); x < n.shape[1]; x++ {
				for y := uint(0); y < n.shape[2]; y++ {
					f(int(ravel([]uint{wx[0], x, y}, mo)), w, int(ravel([]uint{wx[1], x*n.sx + wx[2], y*n.sy + wx[3]}, mi)))
				}
			}
			return
		}
		for x := uint(0); x < is[1]; x++ {
			for y := uint(0); y < is[2]; y++ {
				f(int(ravel([]uint{wx[0], x*n.sx + wx[2], y*n.sy + wx[3]}, mo)), w, int(ravel([]uint{wx[1], x, y}, mi)))
			}
		}
	})
}

func (n *nspec) windows(is []uint, f func(o int, ins []int)) {
	mi := strides(is)
	each(n.shape, func(o int, ix []uint) {
		var ins []int
		for x := ix[1] * n.sx; x < (ix[1]+1)*n.sx && x < is[1]; x++ {
			for y := ix[2] * n.sy; y < (ix[2]+1)*n.sy && y < is[2]; y++ {
				ins = append(ins, int(ravel([]uint{ix[0], x, y}, mi)))
			}
		}
		f(o, ins)
	})
}

// backward takes the error at the node's output, sets dw and db of every
// parametric node above, and passes the error on.
func (n *nspec) backward(e []float64) {
	switch n.kind {
	case "in":
		return
	case "nin":
		n.pre.backward(e)
		return
	case "model":
		n.inner.backward(e)
		return
	case "concat":
		a := make([]float64, prod(n.pre.shape))
		b := make([]float64, prod(n.pre2.shape))
		ma, mb := strides(n.pre.shape), strides(n.pre2.shape)
		each(n.shape, func(k int, ix []uint) {
			if ix[n.dim] < n.pre.shape[n.dim] {
				a[ravel(ix, ma)] = e[k]
			} else {
				j := append([]uint{}, ix...)
				j[n.dim] -= n.pre.shape[n.dim]
				b[ravel(j, mb)] = e[k]
			}
		})
		n.pre.backward(a)
		n.pre2.backward(b)
		return
	}
	is := n.pre.shape
	in := n.pre.out
	pe := make([]float64, len(in))
	switch n.kind {
	case "dense", "conv", "deconv":
		d := append([]float64{}, e...)
		if n.down {
			for i := range d {
				s, _ := n.act.d(n.neta[i])
				d[i] *= s
			}
		}
		n.dif = d
		n.db = append([]float64{}, d...)
		n.dw = make([]float64, len(n.w))
		if n.kind == "dense" {
			m := len(in)
			for i := range d {
				for j := 0; j < m; j++ {
					n.dw[i*m+j] = d[i] * in[j]
					pe[j] += d[i] * n.w[i*m+j]
				}
			}
		} else {
			n.taps(is, func(o, w, i int) {
				n.dw[w] += d[o] * in[i]
				pe[i] += d[o] * n.w[w]
			})
		}
	case "pool":
		n.windows(is, func(o int, ins []int) {
			for _, i := range ins {
				if in[i] == n.out[o] {
					pe[i] += e[o]
					break
				}
			}
		})
	case "up":
		mi := strides(is)
		each(n.shape, func(k int, ix []uint) {
			pe[ravel([]uint{ix[0], ix[1] / n.sx, ix[2] / n.sy}, mi)] += e[k]
		})
	case "flatten", "softmax":
		copy(pe, e)
	case "sub":
		mi := strides(is)
		each(n.shape, func(k int, ix []uint) {
			j := append([]uint{}, ix...)
			j[n.dim] += n.from
			pe[ravel(j, mi)] = e[k]
		})
	case "norm", "enorm":
		m := 0.0
		for _, v := range in {
			m = math.Max(m, math.Abs(v))
		}
		f := 1.0
		if n.kind == "enorm" {
			f = 2
		}
		for i := range e {
			pe[i] = e[i] * f / m
		}
	}
	n.pre.backward(pe)
}

// --------------------------------------------------------------- instantiation

type net[T types.Number] struct {
	spec   *netSpec
	m      *model.Model[T]
	layers map[*nspec]layer.Layer[T]
}

func (b *net[T]) lay(n *nspec) layer.Layer[T] {
	if l, ok := b.layers[n]; ok {
		return l
	}
	l := b.bare(n)
	switch n.kind {
	case "in", "concat", "model":
	case "nin":
		// connected when the model is
	default:
		if p := b.lay(n.pre); p != nil {
			l.Connect(p)
		}
	}
	return l
}

// bare creates the layer without connecting it to its predecessor.
func (b *net[T]) bare(n *nspec) layer.Layer[T] {
	if l, ok := b.layers[n]; ok {
		return l
	}
	var l layer.Layer[T]
	var a activation.Activation[T]
	if n.parametric() {
		a = mkAct[T](n.act)
	}
	switch n.kind {
	case "in", "nin":
		arg := append([]uint{}, n.shape...)
		l = layer.NewInput[T](arg...)
		for i := range arg { // the caller may go on using its slice
			arg[i] += 2
		}
	case "dense":
		if b.spec.inDense && n.pre == b.spec.in {
			l = layer.NewInDense[T](n.pre.shape[0], n.shape[0], a)
		} else {
			l = layer.NewDense[T](n.shape[0], a)
		}
	case "conv":
		if n.alt {
			l = layer.NewConv2D[T](n.shape[0], n.kw, n.sx, a)
		} else {
			l = layer.NewConv2Dwh[T](n.shape[0], n.kw, n.kh, n.sx, n.sy, a)
		}
	case "deconv":
		if n.alt {
			l = layer.NewDeconv2D[T](n.shape[0], n.kw, n.sx, a)
		} else {
			l = layer.NewDeconv2Dwh[T](n.shape[0], n.kw, n.kh, n.sx, n.sy, a)
		}
	case "pool":
		if n.alt {
			l = layer.NewMaxPool2D[T](n.sx)
		} else {
			l = layer.NewMaxPool2Dxy[T](n.sx, n.sy)
		}
	case "up":
		if n.alt {
			l = layer.NewUpSampling2D[T](n.sx)
		} else {
			l = layer.NewUpSampling2Dxy[T](n.sx, n.sy)
		}
	case "flatten":
		l = layer.NewFlatten[T]()
	case "sub":
		l = layer.NewSubTensor[T](n.dim, n.from, n.to)
	case "norm":
		l = layer.NewNorm[T]()
	case "enorm":
		l = layer.NewENorm[T]()
	case "softmax":
		l = layer.NewSoftMax[T]()
	case "concat":
		l = layer.NewConcat[T](b.lay(n.pre), b.lay(n.pre2), n.dim)
	case "model":
		m := b.assemble(n.innerIn, n.pre, n.inner, n.fromInOut)
		m.Connect(b.lay(n.pre))
		l = m
	default:
		panic(n.kind)
	}
	b.layers[n] = l
	return l
}

// assemble makes a model of everything between in (nil: the layer fed by
// outer is the first) and root.
func (b *net[T]) assemble(in, outer, root *nspec, inOut bool) *model.Model[T] {
	var list []*nspec // from the base upwards
	n := root
	for n != in && n != outer && n.kind != "concat" {
		list = append([]*nspec{n}, list...)
		n = n.pre
	}
	base := n
	if base.kind == "concat" && base != outer {
		l := b.lay(base)
		first := b.lay(in)
		if inOut {
			l = b.lay(root)
			list = nil
		}
		m, _ := model.FromInOut[T](first, l)
		for _, n := range list {
			m.Push(b.bare(n))
		}
		return m
	}
	skipIn := in == nil || (b.spec.inDense && in == b.spec.in)
	if inOut {
		var prev, first layer.Layer[T]
		if !skipIn {
			prev = b.bare(in)
			first = prev
		}
		for _, n := range list {
			l := b.bare(n)
			if prev != nil {
				l.Connect(prev)
			}
			if first == nil {
				first = l
			}
			prev = l
		}
		m, _ := model.FromInOut[T](first, prev)
		return m
	}
	m := model.NewModel[T]()
	if !skipIn {
		m.Push(b.bare(in))
	}
	for _, n := range list {
		m.Push(b.bare(n))
	}
	return m
}

func build[T types.Number](s *netSpec) *net[T] {
	b := &net[T]{spec: s, layers: map[*nspec]layer.Layer[T]{}}
	b.m = b.assemble(s.in, nil, s.root, s.fromInOut)
	return b
}

// base gives access to a parametric layer's exported tensors.
func base[T types.Number](l layer.Layer[T]) *layer.Base[T] {
	switch x := l.(type) {
	case *layer.Dense[T]:
		return &x.Base
	case *layer.Conv2D[T]:
		return &x.Base
	case *layer.Deconv2D[T]:
		return &x.Base
	}
	return nil
}

func toT[T types.Number](v []float64) []T {
	r := make([]T, len(v))
	for i := range v {
		r[i] = T(v[i])
	}
	return r
}

func toF[T types.Number](v []T) []float64 {
	r := make([]float64, len(v))
	for i := range v {
		r[i] = float64(v[i])
	}
	return r
}

// setParams writes the reference's parameters into the compiled model.
func (b *net[T]) setParams() error {
	for _, p := range b.spec.params {
		l := base(b.layers[p])
		if l.Weights == nil || l.Bias == nil {
			return fmt.Errorf("%s has no parameters after compiling", p.kind)
		}
		if !eqShape(l.Weights.GetShape(), p.wShape) || !eqShape(l.Bias.GetShape(), p.bShape) {
			return fmt.Errorf("%s: weights %v, bias %v; want %v, %v", p.kind, l.Weights.GetShape(), l.Bias.GetShape(), p.wShape, p.bShape)
		}
		if err := l.Weights.LoadData(toT[T](p.w)); err != nil {
			return err
		}
		if err := l.Bias.LoadData(toT[T](p.b)); err != nil {
			return err
		}
	}
	return nil
}

// params returns all parameters of the model, flat.
func (b *net[T]) params() []T {
	var r []T
	for _, p := range b.spec.params {
		l := base(b.layers[p])
		r = append(r, l.Weights.GetData()...)
		r = append(r, l.Bias.GetData()...)
	}
	return r
}

// readParams copies the model's parameters into the reference.
func (b *net[T]) readParams() {
	for _, p := range b.spec.params {
		l := base(b.layers[p])
		p.w, p.b = toF(l.Weights.GetData()), toF(l.Bias.GetData())
	}
}

func (s *netSpec) nParams() int {
	n := 0
	for _, p := range s.params {
		n += prod(p.wShape) + prod(p.bShape)
	}
	return n
}

// grads returns a*gradient in the order of params.
func (s *netSpec) grads() []float64 {
	var r []float64
	for _, p := range s.params {
		r = append(r, p.dw...)
		r = append(r, p.db...)
	}
	return r
}

func (s *netSpec) flat() []float64 {
	var r []float64
	for _, p := range s.params {
		r = append(r, p.w...)
		r = append(r, p.b...)
	}
	return r
}

// compiled builds and compiles a model and gives it the reference's parameters.
func compiled[T types.Number](s *netSpec) (*net[T], error) {
	b := build[T](s)
	var err error
	if m := catch(func() { err = b.m.Compile() }); m != "" {
		return nil, fmt.Errorf("%s", m)
	}
	if err != nil {
		return nil, err
	}
	return b, b.setParams()
}

// steady tells whether rounding errors cannot grow beyond a tenth of the
// tolerances: it evaluates the reference again with parameters, input and error
// disturbed by a few units in the last place. y nil: prediction only.
func steady(parts []*netSpec, x, y []float64, f32 bool) (fwd, bwd bool) {
	d, tol := 1e-14, 1e-9
	if f32 {
		d, tol = 1e-6, 2e-3
	}
	r := &rng{s: 77}
	shake := func(v []float64) []float64 {
		o := make([]float64, len(v))
		for i := range v {
			o[i] = v[i] * (1 + d*(2*r.f64()-1)*2)
		}
		return o
	}
	eval := func(disturb bool) (o, g []float64) {
		f := func(v []float64) []float64 { return v }
		if disturb {
			f = shake
		}
		h := newHealth()
		o = f(x)
		var saved [][]float64
		for _, s := range parts {
			for _, p := range s.params {
				saved = append(saved, p.w, p.b)
				p.w, p.b = f(p.w), f(p.b)
			}
		}
		for _, s := range parts {
			o = s.root.forward(o, h)
		}
		if y != nil {
			e := make([]float64, len(o))
			for i := range e {
				e[i] = y[i] - o[i]
			}
			parts[0].root.backward(f(e))
			g = parts[0].grads()
		}
		for _, s := range parts {
			for _, p := range s.params {
				p.w, p.b = saved[0], saved[1]
				saved = saved[2:]
			}
		}
		return o, append([]float64{}, g...)
	}
	dev := func(a, b []float64, one float64) float64 {
		m, w := one, 0.0
		for i := range a {
			m = math.Max(m, math.Abs(a[i]))
			if !(math.Abs(a[i]-b[i]) <= w) {
				w = math.Abs(a[i] - b[i])
			}
		}
		if w == 0 {
			return 0
		}
		return w / m
	}
	o, g := eval(false)
	fwd, bwd = true, true
	for k := 0; k < 2; k++ {
		o2, g2 := eval(true)
		if !(dev(o, o2, 1) < tol/10) {
			fwd, bwd = false, false
		}
		if !(dev(g, g2, 0) < tol/10) {
			bwd = false
		}
	}
	return fwd, bwd
}

// ------------------------------------------------------------------- comparing

func tolF[T types.Number]() float64 {
	if bitsOf[T]() == 32 {
		return 2e-3
	}
	return 1e-9
}

func closeAll[T types.Number](got []T, want []float64, tol float64) string {
	if len(got) != len(want) {
		return fmt.Sprintf("%d values, want %d", len(got), len(want))
	}
	m := 0.0
	for _, w := range want {
		m = math.Max(m, math.Abs(w))
	}
	for i := range got {
		if !(math.Abs(float64(got[i])-want[i]) <= tol*(1+m)) {
			return fmt.Sprintf("value %d is %v, want %v", i, got[i], want[i])
		}
	}
	return ""
}

func genNet(rt *rapid.T, c *rec) *netSpec {
	g := &netGen{rt: rt}
	s := g.gen()
	describe(c, s)
	return s
}

// genNetShared also draws networks in which a hidden layer feeds several
// others (whose gradients are a known finding of C12).
func genNetShared(rt *rapid.T, c *rec) *netSpec {
	g := &netGen{rt: rt, trunk: true}
	s := g.gen()
	describe(c, s)
	return s
}

func describe(c *rec, s *netSpec) {
	c.K("%s", s.String())
	seen := map[string]bool{}
	var walk func(n *nspec)
	walk = func(n *nspec) {
		if n == nil || n.kind == "in" {
			return
		}
		seen[n.kind] = true
		if n.kind == "model" {
			walk(n.inner)
			return
		}
		walk(n.pre)
		walk(n.pre2)
	}
	walk(s.root)
	for k := range seen {
		if k != "nin" {
			c.L(k)
		}
	}
}

func quantize(v []float64, f32 bool) []float64 {
	if f32 {
		for i := range v {
			v[i] = float64(float32(v[i]))
		}
	}
	return v
}

func randVec(r *rng, n int, f32 bool) []float64 {
	v := make([]float64, n)
	mode, size := r.intn(16), 2.0
	switch mode {
	case 1:
		size = 40
	case 2:
		size = 0.01
	}
	for i := range v {
		v[i] = (r.f64()*2 - 1) * size
		switch {
		case mode == 3 && r.intn(2) == 0:
			v[i] = 0
		case mode == 4:
			v[i] = float64(r.between(-2, 2))
		}
	}
	return quantize(v, f32)
}

func tens[T types.Number](v []float64, shape []uint) tensor.Tensor[T] {
	return mk(toT[T](v), shape)
}

// quiet runs f with the standard output discarded.
var devNull *os.File

func quiet(f func()) {
	if devNull == nil {
		devNull, _ = os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	}
	old := os.Stdout
	os.Stdout = devNull
	defer func() { os.Stdout = old }()
	f()
}

func sameAll[T types.Number](a, b []T) string {
	if len(a) != len(b) {
		return fmt.Sprintf("%d values against %d", len(a), len(b))
	}
	for i := range a {
		if !eqVal(a[i], b[i]) {
			return fmt.Sprintf("value %d is %v, not %v", i, a[i], b[i])
		}
	}
	return ""
}

func short(s string) string {
	if len(s) > 300 {
		return s[:300] + "..."
	}
	return strings.TrimSpace(s)
}
