From 56a97ff870ba324a7df8727092b2f5e5b4943396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:12 +0000
Subject: [PATCH 01/48] fix: return the error instead of panicking on an index
 of the wrong arity

---
 tools/tools.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/tools/tools.go b/tools/tools.go
index 6840f85..b874dd8 100644
--- a/tools/tools.go
+++ b/tools/tools.go
@@ -44,7 +44,6 @@ func GetIndex(mul, shape, index []uint) (uint, error) {
 		)
 	}
 	if len(shape) != len(index) {
-		panic("kkk")
 		return 0, errors.FmtNeuralError(
 			"Invalid index dimensions %d for internal dimensions %d",
 			len(index),
-- 
2.43.0


From 783a844694036c52529c864f4d09e5c6e8345268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:12 +0000
Subject: [PATCH 02/48] fix: TensorMat.Reshape to a different size truncates or
 zero-fills

---
 tensor/reshape.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensor/reshape.go b/tensor/reshape.go
index b789799..f164c94 100644
--- a/tensor/reshape.go
+++ b/tensor/reshape.go
@@ -69,7 +69,7 @@ func (p *TensorMat[T]) Reshape(shape ...uint) *TensorMat[T] {
 		}
 	}
 
-	for i := min; i < p.GetSize(); i++ {
+	for i := min; i < uint(len(ops)); i++ {
 		ops[i] = &number.Scalar[T]{}
 	}
 
-- 
2.43.0


From dc1bfdb5851c9a5b45e94f274a0d28e472e49005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:13 +0000
Subject: [PATCH 03/48] fix: SaveFull writes and LoadFull reads fixed-size
 shapes, LoadFull allocates its values

---
 tensor/tensor_mat.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/tensor/tensor_mat.go b/tensor/tensor_mat.go
index 87a7188..32969b0 100644
--- a/tensor/tensor_mat.go
+++ b/tensor/tensor_mat.go
@@ -162,12 +162,12 @@ func (p *TensorMat[T]) SetBuild(b bool) Tensor[T] {
 }
 
 func (p *TensorMat[T]) SaveFull(w io.Writer) error {
-	err := binary.Write(w, binary.LittleEndian, len(p.Shape))
+	err := binary.Write(w, binary.LittleEndian, int64(len(p.Shape)))
 	if err != nil {
 		return err
 	}
 	for _, s := range p.Shape {
-		err := binary.Write(w, binary.LittleEndian, s)
+		err := binary.Write(w, binary.LittleEndian, uint64(s))
 		if err != nil {
 			return err
 		}
@@ -182,7 +182,7 @@ func (p *TensorMat[T]) SaveFull(w io.Writer) error {
 }
 
 func (p *TensorMat[T]) LoadFull(r io.Reader) error {
-	var dims int
+	var dims int64
 	err := binary.Read(r, binary.LittleEndian, &dims)
 	if err != nil {
 		return err
@@ -190,16 +190,19 @@ func (p *TensorMat[T]) LoadFull(r io.Reader) error {
 
 	p.Shape = make([]uint, dims)
 	for i := range p.Shape {
-		err := binary.Read(r, binary.LittleEndian, &p.Shape[i])
+		var s uint64
+		err := binary.Read(r, binary.LittleEndian, &s)
 		if err != nil {
 			return err
 		}
+		p.Shape[i] = uint(s)
 	}
 
 	p.MulIndex = tools.GetIndexMul(p.Shape)
 	p.Operands = make([]*number.Scalar[T], tools.GetDataSize(p.Shape))
 
 	for i := range p.Operands {
+		p.Operands[i] = &number.Scalar[T]{}
 		err := binary.Read(r, binary.LittleEndian, &p.Operands[i].Value)
 		if err != nil {
 			return err
-- 
2.43.0


From 84578510d61b776544a8e31443ff468e59ad1768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:13 +0000
Subject: [PATCH 04/48] fix: extended sub-tensors fill the index just past the
 end of the dimension

---
 tensor/sub_tensor.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tensor/sub_tensor.go b/tensor/sub_tensor.go
index 3ef6ea7..09340cb 100644
--- a/tensor/sub_tensor.go
+++ b/tensor/sub_tensor.go
@@ -88,7 +88,7 @@ func (p *TensorSubTensor[T]) BuildGraph(ctx *context.Context) error {
 	for i := range p.Operands {
 		idx := tools.ReverseIndex(p.MulIndex, p.Shape, uint(i))
 		idx[p.D] += p.S
-		if idx[p.D] > p.M && p.GoOut {
+		if idx[p.D] >= p.M && p.GoOut {
 			p.Operands[i] = &number.Scalar[T]{}
 		} else {
 			o, err := p.T.GetOperand(idx...)
@@ -187,7 +187,7 @@ func (p *TensorMat[T]) FOSubTensor(dim, start, end uint, fill T) (*TensorMat[T],
 	for i := range ops {
 		idx := tools.ReverseIndex(mulIndex, shape, uint(i))
 		idx[dim] += start
-		if idx[dim] > max {
+		if idx[dim] >= max {
 			ops[i] = &number.Scalar[T]{
 				Value: fill,
 			}
-- 
2.43.0


From 95539e88ef4370022f12b010e7408da07f9f3b2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:54 +0000
Subject: [PATCH 05/48] fix: Flatten of an expression takes its size when the
 graph is built

---
 tensor/reshape.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/tensor/reshape.go b/tensor/reshape.go
index f164c94..bacc578 100644
--- a/tensor/reshape.go
+++ b/tensor/reshape.go
@@ -9,7 +9,8 @@ import (
 
 type TensorReshape[T types.Number] struct {
 	TensorMat[T]
-	T Tensor[T]
+	T       Tensor[T]
+	flatten bool
 }
 
 func Reshape[T types.Number](t Tensor[T], shape ...uint) Tensor[T] {
@@ -22,7 +23,13 @@ func Reshape[T types.Number](t Tensor[T], shape ...uint) Tensor[T] {
 }
 
 func Flatten[T types.Number](t Tensor[T]) Tensor[T] {
-	return Reshape(t, t.GetSize())
+	return &TensorReshape[T]{
+		TensorMat: TensorMat[T]{
+			Shape: []uint{t.GetSize()},
+		},
+		T:       t,
+		flatten: true,
+	}
 }
 
 func (p *TensorReshape[T]) BuildGraph(ctx *context.Context) error {
@@ -36,6 +43,10 @@ func (p *TensorReshape[T]) BuildGraph(ctx *context.Context) error {
 		return err
 	}
 
+	// The size of an expression is only known once it has been built
+	if p.flatten {
+		p.Shape = []uint{p.T.GetSize()}
+	}
 	p.MulIndex = tools.GetIndexMul(p.Shape)
 	p.Operands = make([]*number.Scalar[T], tools.GetDataSize(p.Shape))
 
-- 
2.43.0


From 2abf512b804ac64a58128dacd9597315061c7dfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:54 +0000
Subject: [PATCH 06/48] fix: Concat checks the dimension and every other extent
 of its operands

---
 tensor/concat.go | 46 +++++++++++++++++++++++++++++++---------------
 1 file changed, 31 insertions(+), 15 deletions(-)

diff --git a/tensor/concat.go b/tensor/concat.go
index 8a6acaf..d2218cc 100644
--- a/tensor/concat.go
+++ b/tensor/concat.go
@@ -23,6 +23,34 @@ func Concat[T types.Number](a, b Tensor[T], dim uint) Tensor[T] {
 	}
 }
 
+func checkConcat(a, b []uint, dim uint) error {
+	if len(a) != len(b) {
+		return errors.FmtNeuralError(
+			"Shapes with different dimensions %d and %d",
+			len(a),
+			len(b),
+		)
+	}
+	if dim >= uint(len(a)) {
+		return errors.FmtNeuralError(
+			"Invalid concat dimension %d for tensors with dimension %d",
+			dim,
+			len(a),
+		)
+	}
+	for i := range a {
+		if a[i] != b[i] && uint(i) != dim {
+			return errors.FmtNeuralError(
+				"Different shapes %d and %d at %d",
+				a[i],
+				b[i],
+				i,
+			)
+		}
+	}
+	return nil
+}
+
 func (p *TensorConcat[T]) BuildGraph(ctx *context.Context) error {
 	if p.builded {
 		return nil
@@ -37,21 +65,9 @@ func (p *TensorConcat[T]) BuildGraph(ctx *context.Context) error {
 		return err
 	}
 
-	e := tools.Equals(p.A.GetShape(), p.B.GetShape())
-	if e == -2 {
-		return errors.FmtNeuralError(
-			"Shapes with different dimensions %d and %d",
-			len(p.A.GetShape()),
-			len(p.B.GetShape()),
-		)
-	}
-	if e >= 0 && uint(e) != p.D {
-		return errors.FmtNeuralError(
-			"Different shapes %d and %d at %d",
-			p.A.GetShape()[e],
-			p.B.GetShape()[e],
-			e,
-		)
+	err = checkConcat(p.A.GetShape(), p.B.GetShape(), p.D)
+	if err != nil {
+		return err
 	}
 
 	p.Shape = p.A.GetShape()
-- 
2.43.0


From 467630aa80babfeb23937b280a15fbf09a15ec65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:54 +0000
Subject: [PATCH 07/48] fix: TensorMat.Concat returns an error for operands
 that do not fit

---
 tensor/concat.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tensor/concat.go b/tensor/concat.go
index d2218cc..fc5f472 100644
--- a/tensor/concat.go
+++ b/tensor/concat.go
@@ -106,6 +106,10 @@ func (p *TensorConcat[_]) concatLastDim(dimSize, index uint, oIndex []uint) erro
 }
 
 func (p *TensorMat[T]) Concat(m *TensorMat[T], dim uint) (*TensorMat[T], error) {
+	err := checkConcat(p.Shape, m.Shape, dim)
+	if err != nil {
+		return nil, err
+	}
 	dimSize := p.Shape[dim]
 	shape := p.GetShape()
 	shape[dim] += m.GetShape()[dim]
-- 
2.43.0


From 7a56ec730979782afac6b0c3858b2f969239214a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:55 +0000
Subject: [PATCH 08/48] fix: TensorMat.Concat copies the values instead of
 sharing them with its operands

---
 tensor/concat.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tensor/concat.go b/tensor/concat.go
index fc5f472..ab851c9 100644
--- a/tensor/concat.go
+++ b/tensor/concat.go
@@ -141,14 +141,14 @@ func (p *TensorMat[T]) concatLastDim(
 		if err != nil {
 			return err
 		}
-		ops[index] = o
+		ops[index] = &number.Scalar[T]{Value: o.Value}
 	} else {
 		oIndex[dim] -= dimSize
 		o, err := m.GetOperand(oIndex...)
 		if err != nil {
 			return err
 		}
-		ops[index] = o
+		ops[index] = &number.Scalar[T]{Value: o.Value}
 	}
 	return nil
 }
-- 
2.43.0


From 9395723c8628a02f0aea18abcdd33b99a103ffb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:55 +0000
Subject: [PATCH 09/48] fix: DotAt returns an error for dimensions out of range

---
 tensor/dot_product.go | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/tensor/dot_product.go b/tensor/dot_product.go
index fb89514..afd901b 100644
--- a/tensor/dot_product.go
+++ b/tensor/dot_product.go
@@ -67,6 +67,16 @@ func (p *TensorDotProduct[T]) BuildGraph(ctx *context.Context) error {
 		}
 	}
 
+	if p.Da >= uint(len(sha)) || p.Db >= uint(len(shb)) {
+		return errors.FmtNeuralError(
+			"Invalid dot dimensions %d and %d for tensors with dimensions %d and %d",
+			p.Da,
+			p.Db,
+			len(sha),
+			len(shb),
+		)
+	}
+
 	if sha[p.Da] != shb[p.Db] {
 		return errors.FmtNeuralError(
 			"Invalid dot operation to tensors with shape[%d] %d and shape[%d] %d",
@@ -214,6 +224,16 @@ func (p *TensorMat[T]) DotAt(m *TensorMat[T], dim1, dim2 uint) (*TensorMat[T], e
 		return nil, errors.FmtNeuralError("Can not do dot to an empty tensor")
 	}
 
+	if dim1 >= uint(len(sha)) || dim2 >= uint(len(shb)) {
+		return nil, errors.FmtNeuralError(
+			"Invalid dot dimensions %d and %d for tensors with dimensions %d and %d",
+			dim1,
+			dim2,
+			len(sha),
+			len(shb),
+		)
+	}
+
 	if sha[dim1] != shb[dim2] {
 		return nil, errors.FmtNeuralError(
 			"Invalid dot operation to tensors with shape[%d] %d and shape[%d] %d",
-- 
2.43.0


From ff280f0e5d7eba57e7fefb827ef1ceb82a7d172b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:55 +0000
Subject: [PATCH 10/48] fix: the derivative of ELU is 1 for non-negative inputs

---
 activation/elu.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/activation/elu.go b/activation/elu.go
index 0308393..fae547a 100644
--- a/activation/elu.go
+++ b/activation/elu.go
@@ -19,7 +19,7 @@ func (p ELU[T]) Activate(n T) T {
 
 func (p ELU[T]) Derive(n T) T {
 	if n >= 0 {
-		return n
+		return 1
 	}
 	return p.Activate(n) + p.Alpha
 }
-- 
2.43.0


From 0261a671065ff45a3827106c2ee99abc9c58f16e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:23 +0000
Subject: [PATCH 11/48] fix: compute the derivative of GELU analytically, the
 float32 difference quotient was noise

---
 activation/gelu.go | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/activation/gelu.go b/activation/gelu.go
index 2d7fac9..3c5e8f6 100644
--- a/activation/gelu.go
+++ b/activation/gelu.go
@@ -13,11 +13,9 @@ func (GELU[T]) Activate(n T) T {
 	return T(0.5 * x * (1 + math.Tanh(math.Sqrt(2/math.Pi)*(x+0.044715*math.Pow(x, 3)))))
 }
 
-func (p GELU[T]) Derive(x T) T {
-	h := 0.000001
-	H := T(h)
-	if H == 0 {
-		H++
-	}
-	return (p.Activate(x+H) - p.Activate(x-H)) / (2 * H)
+func (p GELU[T]) Derive(n T) T {
+	x := float64(n)
+	t := math.Tanh(math.Sqrt(2/math.Pi) * (x + 0.044715*math.Pow(x, 3)))
+	dt := (1 - t*t) * math.Sqrt(2/math.Pi) * (1 + 3*0.044715*x*x)
+	return T(0.5*(1+t) + 0.5*x*dt)
 }
-- 
2.43.0


From 6303e7bf7c328c1c523f826f17626b33c900bd8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:23 +0000
Subject: [PATCH 12/48] fix: Conv2D back-propagation uses the kernel height and
 the horizontal stride

---
 layer/conv2d.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/layer/conv2d.go b/layer/conv2d.go
index b3ae8e1..9291bf2 100644
--- a/layer/conv2d.go
+++ b/layer/conv2d.go
@@ -175,7 +175,7 @@ func (p *Conv2D[T]) BuildBackpropagation(
 					}
 					for i := uint(0); i < inShape[0]; i++ {
 						for kx := uint(0); kx < p.KW; kx++ {
-							for ky := uint(0); ky < p.KW; ky++ {
+							for ky := uint(0); ky < p.KH; ky++ {
 								ix := x*p.SX + kx
 								iy := y*p.SY + ky
 								if ix >= inShape[1] || iy >= inShape[2] {
@@ -259,9 +259,9 @@ func (p *Conv2D[T]) BuildBackpropagation(
 					ops := make([]*number.Scalar[T], 0, outShape[1]*outShape[2])
 					for ox := uint(0); ox < outShape[1]; ox++ {
 						for oy := uint(0); oy < outShape[2]; oy++ {
-							ix := ox*p.SY + kx
+							ix := ox*p.SX + kx
 							iy := oy*p.SY + ky
-							if ix < inShape[1] || iy < inShape[2] {
+							if ix < inShape[1] && iy < inShape[2] {
 								in, err = p.Input.GetOperand(i, ix, iy)
 								if err != nil {
 									return err
-- 
2.43.0


From 4d8f55c169cbfcc447c778726730e168dbe17d1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:23 +0000
Subject: [PATCH 13/48] fix: Conv2D reports a zero stride or a kernel larger
 than its input

---
 layer/conv2d.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/layer/conv2d.go b/layer/conv2d.go
index 9291bf2..3e23d36 100644
--- a/layer/conv2d.go
+++ b/layer/conv2d.go
@@ -83,6 +83,16 @@ func (p *Conv2D[T]) BuildFeedforward(ctx *context.Context) error {
 	}
 
 	inShape := p.Input.GetShape()
+	if p.SX == 0 || p.SY == 0 || p.KW > inShape[1] || p.KH > inShape[2] {
+		return p.Error(fmt.Sprintf(
+			"Invalid kernel %dx%d with stride %dx%d for input shape %s",
+			p.KW,
+			p.KH,
+			p.SX,
+			p.SY,
+			tools.ShapeStr(inShape),
+		))
+	}
 	outShape := []uint{
 		p.NF,
 		(inShape[1]-p.KW)/p.SX + 1,
-- 
2.43.0


From 80adc76d968cfd8012022c730dd8c38c6c2f3bf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:23 +0000
Subject: [PATCH 14/48] fix: MaxPool2D reports a zero pool size

---
 layer/max_pool_2d.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/layer/max_pool_2d.go b/layer/max_pool_2d.go
index 5df8343..fbabd9b 100644
--- a/layer/max_pool_2d.go
+++ b/layer/max_pool_2d.go
@@ -67,6 +67,10 @@ func (p *MaxPool2D[T]) BuildFeedforward(ctx *context.Context) error {
 		))
 	}
 
+	if p.SX == 0 || p.SY == 0 {
+		return p.Error("The pool size can not be 0")
+	}
+
 	inShape := p.Input.GetShape()
 	outShape := p.Input.GetShape()
 	outShape[1] = (outShape[1] + 1) / p.SX
-- 
2.43.0


From a936c7386c5e8e9ae82e1d7102d0e9bf42459518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:23 +0000
Subject: [PATCH 15/48] fix: MaxPool2D covers the whole input for every pool
 size

---
 layer/max_pool_2d.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/layer/max_pool_2d.go b/layer/max_pool_2d.go
index fbabd9b..74b6f28 100644
--- a/layer/max_pool_2d.go
+++ b/layer/max_pool_2d.go
@@ -73,8 +73,8 @@ func (p *MaxPool2D[T]) BuildFeedforward(ctx *context.Context) error {
 
 	inShape := p.Input.GetShape()
 	outShape := p.Input.GetShape()
-	outShape[1] = (outShape[1] + 1) / p.SX
-	outShape[2] = (outShape[2] + 1) / p.SY
+	outShape[1] = (outShape[1] + p.SX - 1) / p.SX
+	outShape[2] = (outShape[2] + p.SY - 1) / p.SY
 	p.Output = tensor.NewZeros[T](outShape...)
 	// p.Output = p.Neta // tensor.NewZeros[T](outShape...)
 
-- 
2.43.0


From 8d1422b3e5d2342419d2ceb6b23b65612f996be2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:24 +0000
Subject: [PATCH 16/48] fix: NewUpSampling2Dxy creates an up-sampling layer

---
 layer/up_sampling_2d.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/layer/up_sampling_2d.go b/layer/up_sampling_2d.go
index 5b353fc..a2a6a6a 100644
--- a/layer/up_sampling_2d.go
+++ b/layer/up_sampling_2d.go
@@ -27,7 +27,7 @@ func NewUpSampling2D[T types.Number](s uint) Layer[T] {
 }
 
 func NewUpSampling2Dxy[T types.Number](sx, sy uint) Layer[T] {
-	l := &MaxPool2D[T]{}
+	l := &UpSampling2D[T]{}
 	l.Type = "MaxPool"
 	l.SX = sx
 	l.SY = sy
-- 
2.43.0


From 59b8d1dbb1c8e9765bdb35f1c0ce91bf83ccbe35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:51 +0000
Subject: [PATCH 17/48] fix: Concat fits the layers it joins and resets their
 errors

---
 layer/concat.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/layer/concat.go b/layer/concat.go
index e807315..69addfc 100644
--- a/layer/concat.go
+++ b/layer/concat.go
@@ -135,6 +135,22 @@ func (p *Concat[T]) BuildBackpropagation(ctx *context.Context, a, m *number.Scal
 	return p.PostBuildBackpropagation(ctx, a, m)
 }
 
+func (p *Concat[T]) Fit() error {
+	err := p.l1.Fit()
+	if err != nil {
+		return err
+	}
+	return p.l2.Fit()
+}
+
+func (p *Concat[T]) ResetFit(ctx *context.Context) error {
+	err := p.l1.ResetFit(ctx)
+	if err != nil {
+		return err
+	}
+	return p.l2.ResetFit(ctx)
+}
+
 func (p *Concat[T]) ResetPrinted() {
 	p.printed = false
 
-- 
2.43.0


From 2a90b3852c84f7417ff8ba2c10f45f61a463d869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:26 +0000
Subject: [PATCH 18/48] fix: build the error tensor of Concat so that any layer
 can follow it

---
 layer/concat.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/layer/concat.go b/layer/concat.go
index 69addfc..3ae511c 100644
--- a/layer/concat.go
+++ b/layer/concat.go
@@ -86,7 +86,7 @@ func (p *Concat[T]) BuildFeedforward(ctx *context.Context) error {
 
 	p.Dif = tensor.Concat[T](p.l1.GetDif(), p.l2.GetDif(), p.dim)
 
-	return nil
+	return p.Dif.BuildGraph(ctx)
 }
 
 func (p *Concat[T]) BuildBackpropagation(ctx *context.Context, a, m *number.Scalar[T]) error {
-- 
2.43.0


From 2d0096bb050d2d54f168f1c9ea474d5a4d1e23c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:26 +0000
Subject: [PATCH 19/48] fix: Concat passes Reset, ResetLoad and ResetSave on to
 the layers it joins

---
 layer/concat.go | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/layer/concat.go b/layer/concat.go
index 3ae511c..e6a5356 100644
--- a/layer/concat.go
+++ b/layer/concat.go
@@ -151,6 +151,26 @@ func (p *Concat[T]) ResetFit(ctx *context.Context) error {
 	return p.l2.ResetFit(ctx)
 }
 
+func (p *Concat[T]) Reset(ctx *context.Context) error {
+	err := p.l1.Reset(ctx)
+	if err != nil {
+		return err
+	}
+	return p.l2.Reset(ctx)
+}
+
+func (p *Concat[T]) ResetLoad() {
+	p.loaded = false
+	p.l1.ResetLoad()
+	p.l2.ResetLoad()
+}
+
+func (p *Concat[T]) ResetSave() {
+	p.saved = false
+	p.l1.ResetSave()
+	p.l2.ResetSave()
+}
+
 func (p *Concat[T]) ResetPrinted() {
 	p.printed = false
 
-- 
2.43.0


From a09ef87ad8a7d2f07fcb25b27727f22e4ed1dba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:26 +0000
Subject: [PATCH 20/48] fix: Flatten and a connected Input count once as a user
 of the previous layer

---
 layer/flatten.go | 2 +-
 layer/input.go   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/layer/flatten.go b/layer/flatten.go
index 38dc6ad..9e18469 100644
--- a/layer/flatten.go
+++ b/layer/flatten.go
@@ -47,7 +47,7 @@ func (p *Flatten[T]) BuildFeedforward(ctx *context.Context) error {
 	// p.Neta = tensor.Flatten[T](p.PreLayer.GetNetas())
 	// p.Activation = p.PreLayer.GetActivation()
 
-	p.PreLayer.GetRef().Value += p.Ref.Value
+	p.PreLayer.GetRef().Value += p.Ref.Value - 1
 	p.Ref = p.PreLayer.GetRef()
 
 	err = p.Output.BuildGraph(ctx)
diff --git a/layer/input.go b/layer/input.go
index 8f3fb09..ee0c26d 100644
--- a/layer/input.go
+++ b/layer/input.go
@@ -34,7 +34,7 @@ func (p *Input[T]) Build() (uint, error) {
 	}
 
 	if p.PreLayer != nil {
-		p.PreLayer.GetRef().Value += p.Ref.Value
+		p.PreLayer.GetRef().Value += p.Ref.Value - 1
 		p.Ref = p.PreLayer.GetRef()
 		// p.Activation = p.PreLayer.GetActivation()
 	}
-- 
2.43.0


From da3b41c4246c88e8470b2b44c67233574c5eea50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:27 +0000
Subject: [PATCH 21/48] fix: training compiles the model when needed and
 compiling twice keeps the graphs

---
 model/model.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/model/model.go b/model/model.go
index b848c09..f05ba00 100644
--- a/model/model.go
+++ b/model/model.go
@@ -150,6 +150,10 @@ func (p *Model[T]) Push(l layer.Layer[T]) *Model[T] {
 }
 
 func (p *Model[T]) Compile() error {
+	if p.GraphFeedForward != nil {
+		return nil
+	}
+
 	p.LastLayer.GetRef().Value++
 	_, err := p.Build()
 	if err != nil {
@@ -186,10 +190,18 @@ func (p *Model[T]) Compile() error {
 }
 
 func (p *Model[T]) CompileBackPropagation() error {
+	if p.GraphBackPropagation != nil {
+		return nil
+	}
+	err := p.Compile()
+	if err != nil {
+		return err
+	}
+
 	ctx := &context.Context{}
 
 	dif := p.LastLayer.GetDif().SetBuild(false)
-	err := dif.BuildGraph(ctx)
+	err = dif.BuildGraph(ctx)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From cabc0124bb2c869832066fe6109d58c416d93ef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:27 +0000
Subject: [PATCH 22/48] fix: Dense remembers its last update so that the
 momentum has an effect

---
 layer/dense.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/layer/dense.go b/layer/dense.go
index 233cb20..2e5c7cb 100644
--- a/layer/dense.go
+++ b/layer/dense.go
@@ -240,6 +240,11 @@ func (p *Dense[T]) BuildBackpropagation(
 			Scalar: new_bias,
 			Args:   []*number.Scalar[T]{bias, moment, mul_dif_alpha},
 		})
+		ctx.Push(&operation.Add[T]{
+			Scalar: momentum,
+			A:      moment,
+			B:      mul_dif_alpha,
+		})
 
 		for j := uint(0); j < inputs; j++ {
 			input := p.Input.GetOperands()[j]
@@ -271,6 +276,11 @@ func (p *Dense[T]) BuildBackpropagation(
 				Scalar: new_weight,
 				Args:   []*number.Scalar[T]{weight, moment, delta},
 			})
+			ctx.Push(&operation.Add[T]{
+				Scalar: momentum,
+				A:      moment,
+				B:      delta,
+			})
 		}
 	}
 
-- 
2.43.0


From bfd0f8bf6a67d6e642ed83d86bc4295a90d44f3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:27 +0000
Subject: [PATCH 23/48] fix: Conv2D and Deconv2D remember the last update of
 their weights

---
 layer/conv2d.go   | 11 ++++++++---
 layer/deconv2d.go | 11 ++++++++---
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/layer/conv2d.go b/layer/conv2d.go
index 3e23d36..469ecfa 100644
--- a/layer/conv2d.go
+++ b/layer/conv2d.go
@@ -301,9 +301,14 @@ func (p *Conv2D[T]) BuildBackpropagation(
 						Scalar: nw,
 						Args:   []*number.Scalar[T]{w, dw, m},
 					})
-					ctx.Push(&operation.Set[T]{
-						Scalar: m,
-						O:      dw,
+					last, err := p.MWeights.GetOperand(f, i, kx, ky)
+					if err != nil {
+						return err
+					}
+					ctx.Push(&operation.Add[T]{
+						Scalar: last,
+						A:      dw,
+						B:      m,
 					})
 				}
 			}
diff --git a/layer/deconv2d.go b/layer/deconv2d.go
index 6cebb96..5571ea5 100644
--- a/layer/deconv2d.go
+++ b/layer/deconv2d.go
@@ -327,9 +327,14 @@ func (p *Deconv2D[T]) BuildBackpropagation(
 						Scalar: nw,
 						Args:   []*number.Scalar[T]{w, dw, mw},
 					})
-					ctx.Push(&operation.Set[T]{
-						Scalar: mw,
-						O:      dw,
+					last, err := p.MWeights.GetOperand(outF, inF, kx, ky)
+					if err != nil {
+						return err
+					}
+					ctx.Push(&operation.Add[T]{
+						Scalar: last,
+						A:      dw,
+						B:      mw,
 					})
 				}
 			}
-- 
2.43.0


From 8b1e15ef134cd36c7c7a89c315ead97fe4ea83d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:09 +0000
Subject: [PATCH 24/48] fix: Model.SetTrainable reaches the first layer and the
 layers joined by Concat

---
 layer/concat.go      |  4 ++++
 model/model_layer.go | 21 +++++++++++++++++----
 2 files changed, 21 insertions(+), 4 deletions(-)

diff --git a/layer/concat.go b/layer/concat.go
index e6a5356..acd4204 100644
--- a/layer/concat.go
+++ b/layer/concat.go
@@ -135,6 +135,10 @@ func (p *Concat[T]) BuildBackpropagation(ctx *context.Context, a, m *number.Scal
 	return p.PostBuildBackpropagation(ctx, a, m)
 }
 
+func (p *Concat[T]) GetPrelayers() (Layer[T], Layer[T]) {
+	return p.l1, p.l2
+}
+
 func (p *Concat[T]) Fit() error {
 	err := p.l1.Fit()
 	if err != nil {
diff --git a/model/model_layer.go b/model/model_layer.go
index 192f50b..e73e814 100644
--- a/model/model_layer.go
+++ b/model/model_layer.go
@@ -38,11 +38,24 @@ func (p *Model[T]) Fit() error {
 }
 
 func (p *Model[T]) SetTrainable(t bool) {
-	cur := p.LastLayer
-	for cur != nil && cur != p.FirstLayer {
-		cur.SetTrainable(t)
-		cur = cur.GetPrelayer()
+	p.setTrainable(p.LastLayer, t)
+}
+
+func (p *Model[T]) setTrainable(cur layer.Layer[T], t bool) {
+	if cur == nil {
+		return
+	}
+	cur.SetTrainable(t)
+	if cur == p.FirstLayer {
+		return
+	}
+	if c, ok := cur.(*layer.Concat[T]); ok {
+		l1, l2 := c.GetPrelayers()
+		p.setTrainable(l1, t)
+		p.setTrainable(l2, t)
+		return
 	}
+	p.setTrainable(cur.GetPrelayer(), t)
 }
 
 func (p *Model[T]) GetInputs() tensor.Tensor[T] {
-- 
2.43.0


From 856a9a20669d4d7de4222b6ec7778b1ddfdd344c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:09 +0000
Subject: [PATCH 25/48] fix: ScalarRand of an integer type draws from the whole
 range

---
 number/constructors.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/number/constructors.go b/number/constructors.go
index f145da6..c0c3c01 100644
--- a/number/constructors.go
+++ b/number/constructors.go
@@ -24,7 +24,7 @@ func ScalarOne[T types.Number]() *Scalar[T] {
 
 func ScalarRand[T types.Number](min, max T) *Scalar[T] {
 	return &Scalar[T]{
-		Value: T(rand.Float64())*(max-min) + min,
+		Value: T(rand.Float64()*float64(max-min)) + min,
 	}
 }
 
-- 
2.43.0


From c65f0e5ecbf2b458a0962b6c2304d5fdf33c6c5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:10 +0000
Subject: [PATCH 26/48] fix: F64.String prints the value in double precision

---
 scalar/f64.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scalar/f64.go b/scalar/f64.go
index 8bcf595..a269765 100644
--- a/scalar/f64.go
+++ b/scalar/f64.go
@@ -50,5 +50,5 @@ func (p *F64) Cmp(v Scalar) CmpRes {
 }
 
 func (p *F64) String() string {
-	return fmt.Sprint(p.G32())
+	return fmt.Sprint(p.G64())
 }
-- 
2.43.0


From e05177da0058a4b34611b01c58e996d829cfb53c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:10 +0000
Subject: [PATCH 27/48] fix: tensors keep their own copy of the shape they are
 given

---
 tensor/constructor.go | 2 ++
 tensor/reshape.go     | 3 ++-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/tensor/constructor.go b/tensor/constructor.go
index dcbc56b..397e635 100644
--- a/tensor/constructor.go
+++ b/tensor/constructor.go
@@ -9,6 +9,8 @@ import (
 )
 
 func initMat[T types.Number](shape []uint) *TensorMat[T] {
+	// The caller may reuse its slice
+	shape = append([]uint{}, shape...)
 	return &TensorMat[T]{
 		Shape:    shape,
 		MulIndex: tools.GetIndexMul(shape),
diff --git a/tensor/reshape.go b/tensor/reshape.go
index bacc578..343ed31 100644
--- a/tensor/reshape.go
+++ b/tensor/reshape.go
@@ -16,7 +16,7 @@ type TensorReshape[T types.Number] struct {
 func Reshape[T types.Number](t Tensor[T], shape ...uint) Tensor[T] {
 	return &TensorReshape[T]{
 		TensorMat: TensorMat[T]{
-			Shape: shape,
+			Shape: append([]uint{}, shape...),
 		},
 		T: t,
 	}
@@ -66,6 +66,7 @@ func (p *TensorReshape[T]) BuildGraph(ctx *context.Context) error {
 }
 
 func (p *TensorMat[T]) Reshape(shape ...uint) *TensorMat[T] {
+	shape = append([]uint{}, shape...)
 	mulIndex := tools.GetIndexMul(shape)
 	ops := make([]*number.Scalar[T], tools.GetDataSize(shape))
 
-- 
2.43.0


From f085599003d4a4a8276f581d273696dac302b19c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:03 +0000
Subject: [PATCH 28/48] fix: load images whose bounds do not start at the
 origin

---
 img/image.go | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/img/image.go b/img/image.go
index 517de4d..eb7b861 100644
--- a/img/image.go
+++ b/img/image.go
@@ -24,6 +24,7 @@ func LoadImage[T types.Number](path string) (tensor.Tensor[T], error) {
 	if err != nil {
 		return nil, err
 	}
+	min := img.Bounds().Min
 	size := img.Bounds().Size()
 	width := size.X
 	height := size.Y
@@ -31,7 +32,7 @@ func LoadImage[T types.Number](path string) (tensor.Tensor[T], error) {
 	t := tensor.NewZeros[T](4, uint(width), uint(height))
 	for i := 0; i < width; i++ {
 		for j := 0; j < height; j++ {
-			c := img.At(i, j)
+			c := img.At(min.X+i, min.Y+j)
 			r, g, b, a := c.RGBA()
 			t.Set(T(float64(r)/MaxColor), 0, uint(i), uint(j))
 			t.Set(T(float64(g)/MaxColor), 1, uint(i), uint(j))
@@ -54,6 +55,7 @@ func LoadSimpleScaled[T types.Number](path string, width, height uint) (tensor.T
 	if err != nil {
 		return nil, err
 	}
+	min := img.Bounds().Min
 	size := img.Bounds().Size()
 
 	scalX := float64(size.X) / float64(width)
@@ -68,7 +70,7 @@ func LoadSimpleScaled[T types.Number](path string, width, height uint) (tensor.T
 		for j = 0; j < height; j++ {
 			X = int(float64(i) * scalX)
 			Y = int(float64(j) * scalY)
-			c := img.At(X, Y)
+			c := img.At(min.X+X, min.Y+Y)
 			r, g, b, a := c.RGBA()
 			t.Set(T(float64(r)/MaxColor), 0, uint(i), uint(j))
 			t.Set(T(float64(g)/MaxColor), 1, uint(i), uint(j))
@@ -94,6 +96,7 @@ func LoadSmoothScaled[T types.Number](
 	if err != nil {
 		return nil, err
 	}
+	min := img.Bounds().Min
 	size := img.Bounds().Size()
 
 	scaleX := float64(size.X) / float64(width)
@@ -108,10 +111,10 @@ func LoadSmoothScaled[T types.Number](
 			srcY := int(float64(y) * scaleY)
 
 			// Obtiene los píxeles vecinos
-			p1 := img.At(srcX, srcY)
-			p2 := img.At(srcX+1, srcY)
-			p3 := img.At(srcX, srcY+1)
-			p4 := img.At(srcX+1, srcY+1)
+			p1 := img.At(min.X+srcX, min.Y+srcY)
+			p2 := img.At(min.X+srcX+1, min.Y+srcY)
+			p3 := img.At(min.X+srcX, min.Y+srcY+1)
+			p4 := img.At(min.X+srcX+1, min.Y+srcY+1)
 
 			// Calcula los pesos de interpolación
 			dx := float64(x)*scaleX - float64(srcX)
-- 
2.43.0


From f6e0681ed48f12496f3462808012f3b55fa0ba23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:03 +0000
Subject: [PATCH 29/48] fix: smooth scaling does not read past the borders of
 the image

---
 img/image.go        |  7 ++++---
 img/smooth_scale.go | 16 +++++++++++++---
 2 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/img/image.go b/img/image.go
index eb7b861..9b71b66 100644
--- a/img/image.go
+++ b/img/image.go
@@ -111,10 +111,11 @@ func LoadSmoothScaled[T types.Number](
 			srcY := int(float64(y) * scaleY)
 
 			// Obtiene los píxeles vecinos
+			nextX, nextY := nextPixel(uint(srcX), uint(size.X)), nextPixel(uint(srcY), uint(size.Y))
 			p1 := img.At(min.X+srcX, min.Y+srcY)
-			p2 := img.At(min.X+srcX+1, min.Y+srcY)
-			p3 := img.At(min.X+srcX, min.Y+srcY+1)
-			p4 := img.At(min.X+srcX+1, min.Y+srcY+1)
+			p2 := img.At(min.X+int(nextX), min.Y+srcY)
+			p3 := img.At(min.X+srcX, min.Y+int(nextY))
+			p4 := img.At(min.X+int(nextX), min.Y+int(nextY))
 
 			// Calcula los pesos de interpolación
 			dx := float64(x)*scaleX - float64(srcX)
diff --git a/img/smooth_scale.go b/img/smooth_scale.go
index 1342d97..dac6c55 100644
--- a/img/smooth_scale.go
+++ b/img/smooth_scale.go
@@ -55,6 +55,14 @@ import (
 //    return dst
 //}
 
+// nextPixel returns the neighbour after i, the last pixel being its own neighbour.
+func nextPixel(i, size uint) uint {
+	if i+1 < size {
+		return i + 1
+	}
+	return i
+}
+
 func SmoothScale[T types.Number](
 	img tensor.Tensor[T],
 	width, height uint,
@@ -74,6 +82,8 @@ func SmoothScale[T types.Number](
 			// Calcula las coordenadas correspondientes en la imagen original
 			srcX := uint(float64(x) * scaleX)
 			srcY := uint(float64(y) * scaleY)
+			nextX := nextPixel(srcX, shape[1])
+			nextY := nextPixel(srcY, shape[2])
 
 			// Calcula los pesos de interpolación
 			dx := float64(x)*scaleX - float64(srcX)
@@ -85,15 +95,15 @@ func SmoothScale[T types.Number](
 				if err != nil {
 					return nil, err
 				}
-				p2, err := img.Get(d, srcX+1, srcY)
+				p2, err := img.Get(d, nextX, srcY)
 				if err != nil {
 					return nil, err
 				}
-				p3, err := img.Get(d, srcX, srcY+1)
+				p3, err := img.Get(d, srcX, nextY)
 				if err != nil {
 					return nil, err
 				}
-				p4, err := img.Get(d, srcX+1, srcY+1)
+				p4, err := img.Get(d, nextX, nextY)
 				if err != nil {
 					return nil, err
 				}
-- 
2.43.0


From 1ecc62feff7c8876f6e2f8a32f7a6efb4de48246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:03 +0000
Subject: [PATCH 30/48] fix: SmoothScale keeps the number of channels of its
 input

---
 img/smooth_scale.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/img/smooth_scale.go b/img/smooth_scale.go
index dac6c55..d24a28d 100644
--- a/img/smooth_scale.go
+++ b/img/smooth_scale.go
@@ -74,7 +74,7 @@ func SmoothScale[T types.Number](
 
 	scaleX := float64(shape[1]) / float64(width)
 	scaleY := float64(shape[2]) / float64(height)
-	t := tensor.NewZeros[T](4, width, height)
+	t := tensor.NewZeros[T](shape[0], width, height)
 
 	// Realiza el escalado suave de la imagen
 	for x := uint(0); x < width; x++ {
-- 
2.43.0


From 97942003380e4d8d9b71c5d7a51c584be90c53cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:01:36 +0000
Subject: [PATCH 31/48] fix: GELU derivative is NaN for inputs of huge
 magnitude

---
 activation/gelu.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/activation/gelu.go b/activation/gelu.go
index 3c5e8f6..0a9754c 100644
--- a/activation/gelu.go
+++ b/activation/gelu.go
@@ -16,6 +16,10 @@ func (GELU[T]) Activate(n T) T {
 func (p GELU[T]) Derive(n T) T {
 	x := float64(n)
 	t := math.Tanh(math.Sqrt(2/math.Pi) * (x + 0.044715*math.Pow(x, 3)))
-	dt := (1 - t*t) * math.Sqrt(2/math.Pi) * (1 + 3*0.044715*x*x)
+	dt := 1 - t*t
+	if dt != 0 {
+		// Far from 0 the slope of tanh is 0 and x*x may overflow
+		dt *= math.Sqrt(2/math.Pi) * (1 + 3*0.044715*x*x)
+	}
 	return T(0.5*(1+t) + 0.5*x*dt)
 }
-- 
2.43.0


From 11db967fea8ee329861b2122e67580be8dd961cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:01:36 +0000
Subject: [PATCH 32/48] fix: Swish derivative loses its value by cancellation
 for large inputs

---
 activation/swish.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/activation/swish.go b/activation/swish.go
index bd6be81..293f493 100644
--- a/activation/swish.go
+++ b/activation/swish.go
@@ -13,5 +13,6 @@ func (p Swish[T]) Activate(t T) T {
 }
 
 func (p Swish[T]) Derive(t T) T {
-	return p.Activate(t) + p.Sigmoid.Activate(t)*(1-p.Activate(t))
+	a := p.Sigmoid.Activate(t)
+	return a * (1 + t*(1-a))
 }
-- 
2.43.0


From d767b7e60a4a8635aaaef86e47b790794bf225e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:48:17 +0000
Subject: [PATCH 33/48] fix: LoadSmoothScaled rounds the interpolated colour
 instead of truncating it

Truncation made pixels of a one-coloured image one step darker wherever the
weights add up to slightly less than 1.
---
 img/image.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/img/image.go b/img/image.go
index 9b71b66..cdf6ffe 100644
--- a/img/image.go
+++ b/img/image.go
@@ -136,7 +136,7 @@ func LoadSmoothScaled[T types.Number](
 					r3,
 				) + dx*dy*float64(
 					r4,
-				),
+				) + 0.5,
 			)
 			g := uint32(
 				(1.0-dx)*(1.0-dy)*float64(
@@ -147,7 +147,7 @@ func LoadSmoothScaled[T types.Number](
 					g3,
 				) + dx*dy*float64(
 					g4,
-				),
+				) + 0.5,
 			)
 			b := uint32(
 				(1.0-dx)*(1.0-dy)*float64(
@@ -158,7 +158,7 @@ func LoadSmoothScaled[T types.Number](
 					b3,
 				) + dx*dy*float64(
 					b4,
-				),
+				) + 0.5,
 			)
 			a := uint32(
 				(1.0-dx)*(1.0-dy)*float64(
@@ -169,7 +169,7 @@ func LoadSmoothScaled[T types.Number](
 					a3,
 				) + dx*dy*float64(
 					a4,
-				),
+				) + 0.5,
 			)
 
 			// Asigna el nuevo color al píxel en la imagen escalada
-- 
2.43.0


From fcada8f1610956bc72affe3c0ed1231c0db7f7b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:30 +0000
Subject: [PATCH 34/48] fix: a model that failed to compile keeps reporting the
 error

Compiling, predicting or training again found the layers half built and
dereferenced nil; FromModels ignored the errors of its parts.
---
 model/model.go | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/model/model.go b/model/model.go
index f05ba00..d79d5e0 100644
--- a/model/model.go
+++ b/model/model.go
@@ -36,6 +36,9 @@ type Model[T types.Number] struct {
 	GraphCalDif          *graph.Graph
 	GraphResetFit        *graph.Graph
 	GraphReset           *graph.Graph
+
+	// why the model can not be compiled, its layers being half built
+	compileErr error
 }
 
 func NewModel[T types.Number]() *Model[T] {
@@ -62,13 +65,19 @@ func FromModels[T types.Number](models ...*Model[T]) (*Model[T], error) {
 
 	for i := 0; i < len(models); i++ {
 		if models[i].GraphFeedForward == nil {
-			models[i].Compile()
+			err := models[i].Compile()
+			if err != nil {
+				return nil, err
+			}
 		}
 	}
 
 	for i := len(models) - 1; i >= 0; i-- {
 		if models[i].GraphBackPropagation == nil {
-			models[i].CompileBackPropagation()
+			err := models[i].CompileBackPropagation()
+			if err != nil {
+				return nil, err
+			}
 		}
 	}
 
@@ -153,7 +162,13 @@ func (p *Model[T]) Compile() error {
 	if p.GraphFeedForward != nil {
 		return nil
 	}
+	if p.compileErr == nil {
+		p.compileErr = p.compile()
+	}
+	return p.compileErr
+}
 
+func (p *Model[T]) compile() error {
 	p.LastLayer.GetRef().Value++
 	_, err := p.Build()
 	if err != nil {
-- 
2.43.0


From 7c0727060ce0874c7b4efcf474aec5c6922a8f8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:25 +0000
Subject: [PATCH 35/48] fix: every layer carries the name of its own type

---
 layer/deconv2d.go       | 4 ++--
 layer/input.go          | 1 +
 layer/sub_tensor.go     | 1 +
 layer/up_sampling_2d.go | 4 ++--
 4 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/layer/deconv2d.go b/layer/deconv2d.go
index 5571ea5..9df820b 100644
--- a/layer/deconv2d.go
+++ b/layer/deconv2d.go
@@ -26,7 +26,7 @@ func NewDeconv2D[T types.Number](
 	act activation.Activation[T],
 ) Layer[T] {
 	l := &Deconv2D[T]{}
-	l.Type = "Conv2D"
+	l.Type = "Deconv2D"
 	l.Activation = act
 	l.NF = filters
 	l.KW = kernelSize
@@ -43,7 +43,7 @@ func NewDeconv2Dwh[T types.Number](
 	act activation.Activation[T],
 ) Layer[T] {
 	l := &Deconv2D[T]{}
-	l.Type = "Conv2D"
+	l.Type = "Deconv2D"
 	l.Activation = act
 	l.NF = filters
 	l.KW = kernelWidth
diff --git a/layer/input.go b/layer/input.go
index ee0c26d..55f45fe 100644
--- a/layer/input.go
+++ b/layer/input.go
@@ -20,6 +20,7 @@ func NewInput[T types.Number](shape ...uint) Layer[T] {
 			Activation: activation.Linear[T]{},
 		},
 	}
+	in.Type = "Input"
 	return in
 }
 
diff --git a/layer/sub_tensor.go b/layer/sub_tensor.go
index 6fd6b5d..7469f76 100644
--- a/layer/sub_tensor.go
+++ b/layer/sub_tensor.go
@@ -20,6 +20,7 @@ func NewSubTensor[T types.Number](dim, from, to uint) Layer[T] {
 		from: from,
 		to:   to,
 	}
+	l.Type = "SubTensor"
 
 	return l
 }
diff --git a/layer/up_sampling_2d.go b/layer/up_sampling_2d.go
index a2a6a6a..fd9469e 100644
--- a/layer/up_sampling_2d.go
+++ b/layer/up_sampling_2d.go
@@ -19,7 +19,7 @@ type UpSampling2D[T types.Number] struct {
 
 func NewUpSampling2D[T types.Number](s uint) Layer[T] {
 	l := &UpSampling2D[T]{}
-	l.Type = "MaxPool"
+	l.Type = "UpSampling"
 	l.SX = s
 	l.SY = s
 
@@ -28,7 +28,7 @@ func NewUpSampling2D[T types.Number](s uint) Layer[T] {
 
 func NewUpSampling2Dxy[T types.Number](sx, sy uint) Layer[T] {
 	l := &UpSampling2D[T]{}
-	l.Type = "MaxPool"
+	l.Type = "UpSampling"
 	l.SX = sx
 	l.SY = sy
 
-- 
2.43.0


From 26af4cc3c8f6c74d7a7b2bc5db13a92ab2d5a6b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:25 +0000
Subject: [PATCH 36/48] fix: printing a model with a connected Input does not
 panic

---
 layer/input.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/layer/input.go b/layer/input.go
index 55f45fe..3e26346 100644
--- a/layer/input.go
+++ b/layer/input.go
@@ -53,7 +53,12 @@ func (p *Input[T]) BuildFeedforward(ctx *context.Context) error {
 	//}
 
 	if p.PreLayer != nil {
-		return p.PreLayer.BuildFeedforward(ctx)
+		err := p.PreLayer.BuildFeedforward(ctx)
+		if err != nil {
+			return err
+		}
+		p.Output = p.PreLayer.GetOutputs()
+		return nil
 		//p.Input = p.PreLayer.GetOutputs()
 		//p.Output = p.PreLayer.GetOutputs()
 		//// p.Neta = p.PreLayer.GetNetas()
-- 
2.43.0


From b0987d166a939a23e52513141379bbaabd29e3da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:25 +0000
Subject: [PATCH 37/48] fix: a layer used by several others is printed once

---
 layer/base.go   | 1 +
 layer/concat.go | 5 +++++
 2 files changed, 6 insertions(+)

diff --git a/layer/base.go b/layer/base.go
index 356a6a7..1df053d 100644
--- a/layer/base.go
+++ b/layer/base.go
@@ -242,6 +242,7 @@ func (p *Base[T]) PushToString(sb *strings.Builder) {
 	if p.printed {
 		return
 	}
+	p.printed = true
 	if p.PreLayer != nil {
 		p.PreLayer.PushToString(sb)
 		sb.WriteString(
diff --git a/layer/concat.go b/layer/concat.go
index acd4204..810de6a 100644
--- a/layer/concat.go
+++ b/layer/concat.go
@@ -183,6 +183,11 @@ func (p *Concat[T]) ResetPrinted() {
 }
 
 func (p *Concat[T]) PushToString(sb *strings.Builder) {
+	if p.printed {
+		return
+	}
+	p.printed = true
+
 	p.l1.PushToString(sb)
 	p.l2.PushToString(sb)
 
-- 
2.43.0


From 2f874b806bc690071028213cbc4f094873c35ec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:47:15 +0000
Subject: [PATCH 38/48] fix: a refused expression leaves its parts unbuilt

NewGraph that returned an error left the good parts of the expression
marked as built: building the same expression again reported no error,
and a later graph over one of its parts did not compute it.
---
 context/context.go    | 15 +++++++++++++++
 graph/graph.go        |  1 +
 tensor/abs.go         |  2 +-
 tensor/activate.go    |  2 +-
 tensor/concat.go      |  2 +-
 tensor/copy.go        |  2 +-
 tensor/dim_math.go    |  2 +-
 tensor/dot_product.go |  2 +-
 tensor/fill.go        |  2 +-
 tensor/neg.go         |  2 +-
 tensor/oper2.go       |  2 +-
 tensor/oper_scalar.go |  2 +-
 tensor/reshape.go     |  2 +-
 tensor/softmax.go     |  2 +-
 tensor/sub_tensor.go  |  2 +-
 tensor/tensor_mat.go  |  8 +++++++-
 tensor/tensor_math.go |  2 +-
 tensor/transpose.go   |  2 +-
 18 files changed, 38 insertions(+), 16 deletions(-)

diff --git a/context/context.go b/context/context.go
index 2adba37..84e6900 100644
--- a/context/context.go
+++ b/context/context.go
@@ -11,6 +11,8 @@ type Context struct {
 	size  uint
 	start *node
 	end   *node
+
+	undo []func()
 }
 
 func NewCTX() *Context {
@@ -40,3 +42,16 @@ func (p *Context) GetOps() []operation.Operation {
 	}
 	return ops
 }
+
+// OnDiscard registers what has to be undone if the operations are never used.
+func (p *Context) OnDiscard(f func()) {
+	p.undo = append(p.undo, f)
+}
+
+// Discard drops the operations and undoes what was done to collect them.
+func (p *Context) Discard() {
+	for _, f := range p.undo {
+		f()
+	}
+	*p = Context{}
+}
diff --git a/graph/graph.go b/graph/graph.go
index 0b99acf..d13bb0a 100644
--- a/graph/graph.go
+++ b/graph/graph.go
@@ -19,6 +19,7 @@ func NewGraph[T types.Number](t tensor.Tensor[T]) (*Graph, error) {
 	ctx := context.NewCTX()
 	err := t.BuildGraph(ctx)
 	if err != nil {
+		ctx.Discard()
 		return nil, err
 	}
 	return &Graph{ctx.GetOps()}, nil
diff --git a/tensor/abs.go b/tensor/abs.go
index ea74667..4a0498b 100644
--- a/tensor/abs.go
+++ b/tensor/abs.go
@@ -22,7 +22,7 @@ func (p *TensorAbs[T]) BuildGraph(ctx *context.Context) error {
 	if p.builded {
 		return nil
 	}
-	p.builded = true
+	p.markBuilded(ctx)
 
 	err := p.T.BuildGraph(ctx)
 	if err != nil {
diff --git a/tensor/activate.go b/tensor/activate.go
index cefae49..848bda0 100644
--- a/tensor/activate.go
+++ b/tensor/activate.go
@@ -24,7 +24,7 @@ func (p *TensorActivate[T]) BuildGraph(ctx *context.Context) error {
 	if p.builded {
 		return nil
 	}
-	p.builded = true
+	p.markBuilded(ctx)
 
 	err := p.T.BuildGraph(ctx)
 	if err != nil {
diff --git a/tensor/concat.go b/tensor/concat.go
index ab851c9..f76ce34 100644
--- a/tensor/concat.go
+++ b/tensor/concat.go
@@ -55,7 +55,7 @@ func (p *TensorConcat[T]) BuildGraph(ctx *context.Context) error {
 	if p.builded {
 		return nil
 	}
-	p.builded = true
+	p.markBuilded(ctx)
 	err := p.A.BuildGraph(ctx)
 	if err != nil {
 		return err
diff --git a/tensor/copy.go b/tensor/copy.go
index 7a714b8..0a33f0f 100644
--- a/tensor/copy.go
+++ b/tensor/copy.go
@@ -29,7 +29,7 @@ func (p *TensorCopy[T]) BuildGraph(ctx *context.Context) error {
 	if p.builded {
 		return nil
 	}
-	p.builded = true
+	p.markBuilded(ctx)
 
 	err := p.F.BuildGraph(ctx)
 	if err != nil {
diff --git a/tensor/dim_math.go b/tensor/dim_math.go
index c3895a1..6632b98 100644
--- a/tensor/dim_math.go
+++ b/tensor/dim_math.go
@@ -37,7 +37,7 @@ func (p *TensorDimMath[T]) BuildGraph(ctx *context.Context) error {
 	if p.builded {
 		return nil
 	}
-	p.builded = true
+	p.markBuilded(ctx)
 	err := p.T.BuildGraph(ctx)
 	if err != nil {
 		return err
diff --git a/tensor/dot_product.go b/tensor/dot_product.go
index afd901b..d52ffbc 100644
--- a/tensor/dot_product.go
+++ b/tensor/dot_product.go
@@ -41,7 +41,7 @@ func (p *TensorDotProduct[T]) BuildGraph(ctx *context.Context) error {
 	if p.builded {
 		return nil
 	}
-	p.builded = true
+	p.markBuilded(ctx)
 
 	err := p.A.BuildGraph(ctx)
 	if err != nil {
diff --git a/tensor/fill.go b/tensor/fill.go
index 8025ee8..3a810a4 100644
--- a/tensor/fill.go
+++ b/tensor/fill.go
@@ -29,7 +29,7 @@ func (p *TensorFill[T]) BuildGraph(ctx *context.Context) error {
 	if p.builded {
 		return nil
 	}
-	p.builded = true
+	p.markBuilded(ctx)
 
 	err := p.T.BuildGraph(ctx)
 	if err != nil {
diff --git a/tensor/neg.go b/tensor/neg.go
index ecaf3a5..89270a8 100644
--- a/tensor/neg.go
+++ b/tensor/neg.go
@@ -22,7 +22,7 @@ func (p *TensorNeg[T]) BuildGraph(ctx *context.Context) error {
 	if p.builded {
 		return nil
 	}
-	p.builded = true
+	p.markBuilded(ctx)
 
 	err := p.T.BuildGraph(ctx)
 	if err != nil {
diff --git a/tensor/oper2.go b/tensor/oper2.go
index 449a492..33a4df7 100644
--- a/tensor/oper2.go
+++ b/tensor/oper2.go
@@ -36,7 +36,7 @@ func (p *TensorOp2[T]) BuildGraph(ctx *context.Context) error {
 	if p.builded {
 		return nil
 	}
-	p.builded = true
+	p.markBuilded(ctx)
 
 	err := p.A.BuildGraph(ctx)
 	if err != nil {
diff --git a/tensor/oper_scalar.go b/tensor/oper_scalar.go
index c5e5379..7a9fdc8 100644
--- a/tensor/oper_scalar.go
+++ b/tensor/oper_scalar.go
@@ -35,7 +35,7 @@ func (p *TensorOpScalar[T]) BuildGraph(ctx *context.Context) error {
 	if p.builded {
 		return nil
 	}
-	p.builded = true
+	p.markBuilded(ctx)
 
 	err := p.T.BuildGraph(ctx)
 	if err != nil {
diff --git a/tensor/reshape.go b/tensor/reshape.go
index 343ed31..c1d2730 100644
--- a/tensor/reshape.go
+++ b/tensor/reshape.go
@@ -36,7 +36,7 @@ func (p *TensorReshape[T]) BuildGraph(ctx *context.Context) error {
 	if p.builded {
 		return nil
 	}
-	p.builded = true
+	p.markBuilded(ctx)
 
 	err := p.T.BuildGraph(ctx)
 	if err != nil {
diff --git a/tensor/softmax.go b/tensor/softmax.go
index 230875d..bef8e71 100644
--- a/tensor/softmax.go
+++ b/tensor/softmax.go
@@ -23,7 +23,7 @@ func (p *TensorSoftMax[T]) BuildGraph(ctx *context.Context) error {
 	if p.builded {
 		return nil
 	}
-	p.builded = true
+	p.markBuilded(ctx)
 
 	err := p.T.BuildGraph(ctx)
 	if err != nil {
diff --git a/tensor/sub_tensor.go b/tensor/sub_tensor.go
index 09340cb..37de109 100644
--- a/tensor/sub_tensor.go
+++ b/tensor/sub_tensor.go
@@ -41,7 +41,7 @@ func (p *TensorSubTensor[T]) BuildGraph(ctx *context.Context) error {
 	if p.builded {
 		return nil
 	}
-	p.builded = true
+	p.markBuilded(ctx)
 
 	err := p.T.BuildGraph(ctx)
 	if err != nil {
diff --git a/tensor/tensor_mat.go b/tensor/tensor_mat.go
index 32969b0..4375dc7 100644
--- a/tensor/tensor_mat.go
+++ b/tensor/tensor_mat.go
@@ -21,11 +21,17 @@ type TensorMat[T types.Number] struct {
 	builded  bool
 }
 
+// markBuilded records that the context holds the operations of the tensor, unless it is discarded.
+func (p *TensorMat[T]) markBuilded(ctx *context.Context) {
+	p.builded = true
+	ctx.OnDiscard(func() { p.builded = false })
+}
+
 func (p *TensorMat[T]) BuildGraph(ctx *context.Context) error {
 	if p.builded {
 		return nil
 	}
-	p.builded = true
+	p.markBuilded(ctx)
 
 	for i := range p.Operands {
 		ctx.Push(&operation.Scalar[T]{Scalar: p.Operands[i]})
diff --git a/tensor/tensor_math.go b/tensor/tensor_math.go
index 4211de3..b7ed123 100644
--- a/tensor/tensor_math.go
+++ b/tensor/tensor_math.go
@@ -34,7 +34,7 @@ func (p *TensorTensorMath[T]) BuildGraph(ctx *context.Context) error {
 	if p.builded {
 		return nil
 	}
-	p.builded = true
+	p.markBuilded(ctx)
 
 	err := p.T.BuildGraph(ctx)
 	if err != nil {
diff --git a/tensor/transpose.go b/tensor/transpose.go
index 0d09df3..f365d76 100644
--- a/tensor/transpose.go
+++ b/tensor/transpose.go
@@ -22,7 +22,7 @@ func (p *TensorTanspose[T]) BuildGraph(ctx *context.Context) error {
 	if p.builded {
 		return nil
 	}
-	p.builded = true
+	p.markBuilded(ctx)
 
 	err := p.T.BuildGraph(ctx)
 	if err != nil {
-- 
2.43.0


From bb7e398aab932deb452e6c54d40ba0e00f148d37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:27:43 +0000
Subject: [PATCH 39/48] fix: Train checks the shapes of all samples before the
 first step

A data set with one sample that does not fit was trained on until that
sample happened to be drawn, and only then refused.
---
 model/model.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/model/model.go b/model/model.go
index d79d5e0..c3f35f8 100644
--- a/model/model.go
+++ b/model/model.go
@@ -353,6 +353,16 @@ func (p *Model[T]) Train(
 			return err
 		}
 	}
+	for i := range inputs {
+		err := tools.GetEqShapeErr("Fail to fit the model, input", p.Input.GetShape(), inputs[i].GetShape())
+		if err != nil {
+			return err
+		}
+		err = tools.GetEqShapeErr("Fail to fit the model, target", p.Target.GetShape(), targets[i].GetShape())
+		if err != nil {
+			return err
+		}
+	}
 	p.Alpha.Value = alpha
 	p.Momentum.Value = momentum
 	if batch == 0 {
-- 
2.43.0


From d35330914d0d09b59b7f8138d1584a684eeb81aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:27:43 +0000
Subject: [PATCH 40/48] fix: Train on no samples returns an error instead of
 panicking

---
 model/model.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/model/model.go b/model/model.go
index c3f35f8..87c6712 100644
--- a/model/model.go
+++ b/model/model.go
@@ -363,6 +363,9 @@ func (p *Model[T]) Train(
 			return err
 		}
 	}
+	if len(inputs) == 0 && epochs > 0 && batch > 0 {
+		return errors.FmtNeuralError("Fail to fit the model, there are no samples")
+	}
 	p.Alpha.Value = alpha
 	p.Momentum.Value = momentum
 	if batch == 0 {
-- 
2.43.0


From a03e5fddb3d327590cd7e76445c894413d35b791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:26:24 +0000
Subject: [PATCH 41/48] fix: a composed model passes the whole error on to its
 earlier parts

---
 model/model.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/model/model.go b/model/model.go
index 87c6712..3023157 100644
--- a/model/model.go
+++ b/model/model.go
@@ -72,6 +72,14 @@ func FromModels[T types.Number](models ...*Model[T]) (*Model[T], error) {
 		}
 	}
 
+	// the output of a part goes to the next part only, compiling the part
+	// alone counted one more user
+	for i := 0; i < len(models)-1; i++ {
+		if models[i].GraphBackPropagation == nil {
+			models[i].LastLayer.GetRef().Value--
+		}
+	}
+
 	for i := len(models) - 1; i >= 0; i-- {
 		if models[i].GraphBackPropagation == nil {
 			err := models[i].CompileBackPropagation()
-- 
2.43.0


From 270f95f7d586a37be199db27bea77e65593b7117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:27:03 +0000
Subject: [PATCH 42/48] fix: training a part of a composed model fits that
 part, and only that part

---
 layer/base.go  | 12 +++++++++++-
 model/model.go |  9 ++++++++-
 2 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/layer/base.go b/layer/base.go
index 1df053d..2181921 100644
--- a/layer/base.go
+++ b/layer/base.go
@@ -9,6 +9,7 @@ import (
 	"github.com/julioguillermo/godeep/context"
 	"github.com/julioguillermo/godeep/errors"
 	"github.com/julioguillermo/godeep/number"
+	"github.com/julioguillermo/godeep/operation"
 	"github.com/julioguillermo/godeep/tensor"
 	"github.com/julioguillermo/godeep/tools"
 	"github.com/julioguillermo/godeep/types"
@@ -42,6 +43,9 @@ type Base[T types.Number] struct {
 
 	Trainable bool
 
+	// not 0: the back-propagation computed new weights and bias
+	updated number.Scalar[T]
+
 	build     bool
 	ffBuilded bool
 	bpBuilded bool
@@ -127,6 +131,10 @@ func (p *Base[T]) PostBuildBackpropagation(
 	ctx *context.Context,
 	alpha, momentum *number.Scalar[T],
 ) error {
+	ctx.Push(&operation.Set[T]{
+		Scalar: &p.updated,
+		O:      &number.Scalar[T]{Value: 1},
+	})
 	if p.PreLayer != nil {
 		err := p.PreLayer.BuildBackpropagation(ctx, alpha, momentum)
 		if err != nil {
@@ -191,7 +199,9 @@ func (p *Base[T]) Fit() error {
 		p.PreLayer.Fit()
 	}
 
-	if !p.Trainable {
+	updated := p.updated.Value != 0
+	p.updated.Value = 0
+	if !p.Trainable || !updated {
 		return nil
 	}
 	if p.Weights != nil && p.NWeights != nil {
diff --git a/model/model.go b/model/model.go
index 3023157..ea05690 100644
--- a/model/model.go
+++ b/model/model.go
@@ -80,7 +80,8 @@ func FromModels[T types.Number](models ...*Model[T]) (*Model[T], error) {
 		}
 	}
 
-	for i := len(models) - 1; i >= 0; i-- {
+	// each part after those that feed it, so that its graph fits its layers only
+	for i := 0; i < len(models); i++ {
 		if models[i].GraphBackPropagation == nil {
 			err := models[i].CompileBackPropagation()
 			if err != nil {
@@ -142,6 +143,12 @@ func FromModels[T types.Number](models ...*Model[T]) (*Model[T], error) {
 	}
 
 	m.GraphBackPropagation = graph.NewEmptyGraph[T]()
+	for i := 0; i < size-1; i++ {
+		m.GraphBackPropagation.PushOperations(
+			&operation.Set[T]{Scalar: models[i].Alpha, O: m.Alpha},
+			&operation.Set[T]{Scalar: models[i].Momentum, O: m.Momentum},
+		)
+	}
 	for i := size - 1; i >= 0; i-- {
 		if models[i].GraphBackPropagation == nil {
 			return nil, errors.FmtNeuralError(
-- 
2.43.0


From 77ef7f30b66597e87df4cb384d8f6e4c86f7103c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:27:57 +0000
Subject: [PATCH 43/48] fix: composing with a model compiled on its own returns
 an error

---
 model/model.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/model/model.go b/model/model.go
index ea05690..4a2ec5a 100644
--- a/model/model.go
+++ b/model/model.go
@@ -57,6 +57,16 @@ func FromModels[T types.Number](models ...*Model[T]) (*Model[T], error) {
 		return nil, errors.FmtNeuralError("Can not create a model from 0 models")
 	}
 
+	for i := 1; i < len(models); i++ {
+		if models[i].GraphFeedForward != nil &&
+			models[i].FirstLayer.GetPrelayer() != models[i-1].LastLayer {
+			return nil, errors.FmtNeuralError(
+				"Model %d: it is already compiled, it can not be connected to another model",
+				i,
+			)
+		}
+	}
+
 	for i := 1; i < len(models); i++ {
 		if models[i].FirstLayer.GetPrelayer() != models[i-1].LastLayer {
 			models[i].FirstLayer.Connect(models[i-1].LastLayer)
-- 
2.43.0


From da2dd1a6629204634bfa024c06185132fcc39fd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:20 +0000
Subject: [PATCH 44/48] fix: the error of a part is not divided by the number
 of layers that use its output

---
 model/model.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/model/model.go b/model/model.go
index 4a2ec5a..5380fa4 100644
--- a/model/model.go
+++ b/model/model.go
@@ -82,11 +82,11 @@ func FromModels[T types.Number](models ...*Model[T]) (*Model[T], error) {
 		}
 	}
 
-	// the output of a part goes to the next part only, compiling the part
-	// alone counted one more user
+	// the error at the output of a part comes from one place, from the next part
+	// or, when the part is trained alone, from its target
 	for i := 0; i < len(models)-1; i++ {
 		if models[i].GraphBackPropagation == nil {
-			models[i].LastLayer.GetRef().Value--
+			models[i].LastLayer.GetRef().Value = 1
 		}
 	}
 
-- 
2.43.0


From 58020b59c803d62bb4396ade6dfeaaf722a295ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:55:29 +0000
Subject: [PATCH 45/48] fix: tensors of int can be saved and loaded

---
 tensor/tensor_mat.go | 30 ++++++++++++++++++++++++++----
 1 file changed, 26 insertions(+), 4 deletions(-)

diff --git a/tensor/tensor_mat.go b/tensor/tensor_mat.go
index 4375dc7..0284ab3 100644
--- a/tensor/tensor_mat.go
+++ b/tensor/tensor_mat.go
@@ -167,6 +167,28 @@ func (p *TensorMat[T]) SetBuild(b bool) Tensor[T] {
 	return p
 }
 
+// writeValue writes one element, an int as its 64 bits.
+func writeValue[T types.Number](w io.Writer, v T) error {
+	if i, ok := any(v).(int); ok {
+		return binary.Write(w, binary.LittleEndian, int64(i))
+	}
+	return binary.Write(w, binary.LittleEndian, v)
+}
+
+// readValue reads an element written by writeValue.
+func readValue[T types.Number](r io.Reader, v *T) error {
+	if p, ok := any(v).(*int); ok {
+		var i int64
+		err := binary.Read(r, binary.LittleEndian, &i)
+		if err != nil {
+			return err
+		}
+		*p = int(i)
+		return nil
+	}
+	return binary.Read(r, binary.LittleEndian, v)
+}
+
 func (p *TensorMat[T]) SaveFull(w io.Writer) error {
 	err := binary.Write(w, binary.LittleEndian, int64(len(p.Shape)))
 	if err != nil {
@@ -179,7 +201,7 @@ func (p *TensorMat[T]) SaveFull(w io.Writer) error {
 		}
 	}
 	for _, s := range p.Operands {
-		err := binary.Write(w, binary.LittleEndian, s.Value)
+		err := writeValue(w, s.Value)
 		if err != nil {
 			return err
 		}
@@ -209,7 +231,7 @@ func (p *TensorMat[T]) LoadFull(r io.Reader) error {
 
 	for i := range p.Operands {
 		p.Operands[i] = &number.Scalar[T]{}
-		err := binary.Read(r, binary.LittleEndian, &p.Operands[i].Value)
+		err := readValue(r, &p.Operands[i].Value)
 		if err != nil {
 			return err
 		}
@@ -220,7 +242,7 @@ func (p *TensorMat[T]) LoadFull(r io.Reader) error {
 
 func (p *TensorMat[T]) Save(w io.Writer) error {
 	for _, s := range p.Operands {
-		err := binary.Write(w, binary.LittleEndian, s.Value)
+		err := writeValue(w, s.Value)
 		if err != nil {
 			return err
 		}
@@ -230,7 +252,7 @@ func (p *TensorMat[T]) Save(w io.Writer) error {
 
 func (p *TensorMat[T]) Load(r io.Reader) error {
 	for i := range p.Operands {
-		err := binary.Read(r, binary.LittleEndian, &p.Operands[i].Value)
+		err := readValue(r, &p.Operands[i].Value)
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From dff07e174b1be7a17941bff40c7016c0e8651e42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:56:09 +0000
Subject: [PATCH 46/48] fix: LoadFull refuses a damaged header and leaves the
 tensor as it was when it fails

---
 tensor/tensor_mat.go | 31 ++++++++++++++++++++++---------
 1 file changed, 22 insertions(+), 9 deletions(-)

diff --git a/tensor/tensor_mat.go b/tensor/tensor_mat.go
index 0284ab3..3d1c808 100644
--- a/tensor/tensor_mat.go
+++ b/tensor/tensor_mat.go
@@ -4,6 +4,7 @@ import (
 	"encoding/binary"
 	"fmt"
 	"io"
+	"math"
 	"strings"
 
 	"github.com/julioguillermo/godeep/context"
@@ -216,27 +217,39 @@ func (p *TensorMat[T]) LoadFull(r io.Reader) error {
 		return err
 	}
 
-	p.Shape = make([]uint, dims)
-	for i := range p.Shape {
+	if dims < 0 {
+		return errors.FmtNeuralError("Invalid number of dimensions %d", dims)
+	}
+
+	// whatever the header says, no more memory than the stream has values for
+	shape := []uint{}
+	size := uint64(1)
+	for i := int64(0); i < dims; i++ {
 		var s uint64
 		err := binary.Read(r, binary.LittleEndian, &s)
 		if err != nil {
 			return err
 		}
-		p.Shape[i] = uint(s)
+		if s != 0 && size > math.MaxInt64/s {
+			return errors.FmtNeuralError("Invalid size %d of dimension %d", s, i)
+		}
+		size *= s
+		shape = append(shape, uint(s))
 	}
 
-	p.MulIndex = tools.GetIndexMul(p.Shape)
-	p.Operands = make([]*number.Scalar[T], tools.GetDataSize(p.Shape))
-
-	for i := range p.Operands {
-		p.Operands[i] = &number.Scalar[T]{}
-		err := readValue(r, &p.Operands[i].Value)
+	operands := []*number.Scalar[T]{}
+	for i := uint64(0); i < size; i++ {
+		o := &number.Scalar[T]{}
+		err := readValue(r, &o.Value)
 		if err != nil {
 			return err
 		}
+		operands = append(operands, o)
 	}
 
+	p.Shape = shape
+	p.MulIndex = tools.GetIndexMul(p.Shape)
+	p.Operands = operands
 	return nil
 }
 
-- 
2.43.0


From 1a85a7a7734d3d717f71fcbe9c0ea3481581d7ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:54:36 +0000
Subject: [PATCH 47/48] fix: a model without layers is refused instead of
 panicking

---
 model/model.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/model/model.go b/model/model.go
index 5380fa4..544dcc8 100644
--- a/model/model.go
+++ b/model/model.go
@@ -57,6 +57,12 @@ func FromModels[T types.Number](models ...*Model[T]) (*Model[T], error) {
 		return nil, errors.FmtNeuralError("Can not create a model from 0 models")
 	}
 
+	for i := range models {
+		if models[i].FirstLayer == nil || models[i].LastLayer == nil {
+			return nil, errors.FmtNeuralError("Model %d: it has no layers", i)
+		}
+	}
+
 	for i := 1; i < len(models); i++ {
 		if models[i].GraphFeedForward != nil &&
 			models[i].FirstLayer.GetPrelayer() != models[i-1].LastLayer {
@@ -187,6 +193,9 @@ func (p *Model[T]) Compile() error {
 	if p.GraphFeedForward != nil {
 		return nil
 	}
+	if p.FirstLayer == nil || p.LastLayer == nil {
+		return errors.FmtNeuralError("Can not compile a model without layers")
+	}
 	if p.compileErr == nil {
 		p.compileErr = p.compile()
 	}
-- 
2.43.0


From a46c2157bf997a4230d32e76519f34efed6bbdfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:18:22 +0000
Subject: [PATCH 48/48] fix: ScalarRand stays in a range that is wider than its
 type

---
 number/constructors.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/number/constructors.go b/number/constructors.go
index c0c3c01..ac5d661 100644
--- a/number/constructors.go
+++ b/number/constructors.go
@@ -23,8 +23,15 @@ func ScalarOne[T types.Number]() *Scalar[T] {
 }
 
 func ScalarRand[T types.Number](min, max T) *Scalar[T] {
+	width := float64(max - min)
+	if min < 0 && max > 0 {
+		// It may not fit T, nor may the distance from min
+		width = float64(max) - float64(min)
+	}
+	distance := rand.Float64() * width
+	half := T(distance / 2)
 	return &Scalar[T]{
-		Value: T(rand.Float64()*float64(max-min)) + min,
+		Value: min + half + T(distance-float64(half)),
 	}
 }
 
-- 
2.43.0

