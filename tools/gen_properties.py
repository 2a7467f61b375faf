#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (run by hand after editing; the output is committed)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=state or [],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=observe, hook_needed=None)))

prop("C01", "Every tensor element has exactly one row-major multi-index",
 "In a tensor of any shape, element k of the data returned by GetData is the one addressed by the row-major multi-index of k: Get, Set and GetOperand with that index reach exactly this element and no other, and the index/position conversion helpers are inverse to each other. An index with the wrong number of coordinates, or with any coordinate outside its extent, is answered with an error, and changes nothing.",
 ["inputs", "histories"], "All shapes (any rank including 0, any extents), all indices valid and invalid, all sequences of reads and writes, all element types.",
 "The existing tests convert three fixed indices of three fixed shapes; the claim ranges over every shape, index and write history.",
 ["tools/tools.go", "tensor/tensor_mat.go", "tensor/constructor.go"],
 [("strides and index conversion", "tools/tools.go: GetIndexMul, GetIndex, ReverseIndex, GetInvertedIndex"), ("bounds-checked access", "tensor/tensor_mat.go: GetOperand, Get, Set")],
 ["Get", "Set", "GetOperand", "GetData", "GetIndex", "ReverseIndex"])

prop("C02", "Element-wise tensor arithmetic is exact at every position",
 "For any two tensors of equal shape, addition, subtraction, multiplication and division give at every position exactly the element type's own result for the two elements there; negation, absolute value, applying a function, and arithmetic with a scalar do the same for one tensor. The result has the operand's shape, the operands are unchanged, and the deferred (graph) form and the immediate (method) form give the same values.",
 ["inputs"], "All shapes, sizes and element types, all element values including signed zeros, infinities, NaN and integer extremes (integer division by zero excluded), both API forms.",
 "Each test checks one small fixed tensor of one type in one form.",
 ["tensor/oper2.go", "tensor/oper_scalar.go", "tensor/neg.go", "tensor/abs.go", "tensor/activate.go", "operation/add.go", "operation/sub.go", "operation/mul.go", "operation/div.go", "operation/neg.go", "operation/abs.go", "operation/func.go"],
 [("one scalar operation per element", "tensor/oper2.go, oper_scalar.go, neg.go, abs.go, activate.go"), ("scalar kernels", "operation/*.go")],
 ["tensor.Add ... DivScalar, Neg, Abs, Activate and the TensorMat methods of the same names"])

prop("C03", "Reductions cover exactly the elements of each slice",
 "Sum, average, maximum and minimum of a tensor are taken over all of its elements exactly once; their per-dimension forms at dimension d give one result for every index of the first d+1 dimensions, taken over all elements sharing that index. SoftMax maps each element x to (x-min)/sum(x-min) over the whole tensor, so that for non-constant floating-point input the results are in [0,1], sum to 1 and keep the order of the elements. The graph and the method forms agree.",
 ["inputs"], "All shapes, dimensions and element types, all finite values, both API forms.",
 "The tests use a handful of fixed 2x2x2-like tensors; position-dependent mistakes on other ranks, sizes or value orders stay invisible.",
 ["tensor/tensor_math.go", "tensor/dim_math.go", "tensor/softmax.go", "tools/math.go", "operation/sum.go", "operation/avg.go", "operation/max_min.go"],
 [("slice boundaries from strides", "tensor/dim_math.go"), ("accumulating kernels", "operation/sum.go, avg.go, max_min.go; tools/math.go")],
 ["tensor.Sum/Avg/Max/Min/DSum/DAvg/DMax/DMin/SoftMax and TensorMat methods"])

prop("C04", "Rearranging operations move every element to its defined place",
 "Transpose puts element (i1..in) at (in..i1); Concat along dimension d puts the second operand's elements after the first's along d; SubTensor returns exactly the half-open range of indices asked for, and its extended form fills indices past the end with zeros (or the given fill); Reshape and Flatten keep the row-major order, truncating or zero-padding to the new size; CopyTo, Transfer and the Fill operations write every element of their target and of nothing else. Graph and method forms agree, and transposing twice, or cutting a concatenation at the seam, gives back the original.",
 ["inputs"], "All shapes, dimensions, ranges and element types, both API forms, operands being concrete tensors or unfinished expressions.",
 "Fixed two- and three-dimensional examples cannot show that the index arithmetic is right for every rank, dimension and range.",
 ["tensor/transpose.go", "tensor/concat.go", "tensor/sub_tensor.go", "tensor/reshape.go", "tensor/copy.go", "tensor/fill.go"],
 [("index remapping", "tensor/transpose.go, concat.go, sub_tensor.go, reshape.go"), ("element-wise set", "tensor/copy.go, fill.go, operation/set.go")],
 ["tensor.Transpose/Concat/SubTensor/SubExtendedTensor/Reshape/Flatten/CopyTo/Transfer/FillWith/Fill and methods incl. FOSubTensor, FillData"])

prop("C05", "Dot product contracts exactly the chosen pair of dimensions",
 "DotAt(A, B, p, q) is, at every index formed by A's remaining dimensions followed by B's remaining dimensions, the sum over the shared index of the products of the matching elements of A (shared index at dimension p) and B (at dimension q); for two vectors it is the one-element scalar product. Dot contracts A's last dimension with B's second to last (its only one for a vector), so on matrices it is matrix multiplication. Graph and method forms agree.",
 ["inputs"], "All ranks 1..n of both operands, all dimension pairs with equal extents, all element types and finite values.",
 "The tests multiply a few fixed small matrices; index interleaving for other ranks and dimension pairs is never sampled.",
 ["tensor/dot_product.go"],
 [("index split and re-insertion of the contracted coordinate", "tensor/dot_product.go: buildLastDim, dotLastDim, buildVector, DotVector")],
 ["tensor.Dot, tensor.DotAt, TensorMat.Dot, DotAt, DotVector"])

prop("C06", "A graph computes its whole expression, again on every execution",
 "For any expression built from tensor operations - sharing sub-expressions in any way - building a graph from the result tensor and executing it leaves in the result (and in every sub-expression) the value of the expression, in dependency order; a part that an earlier graph already contains is computed by that graph and only read by the later one. After any change to the values of the source tensors or scalars, executing the same graph again gives the value for the new sources, however often it is executed. Execution never alters a source tensor or scalar that the expression does not write to, and copying or concatenating graphs runs exactly the operations of the parts in order.",
 ["programs", "histories"], "All expression DAGs over the implemented operations, all histories of source updates and executions, graphs built directly, through a context, or by combining graphs.",
 "Tests execute one tiny fixed expression once; stale intermediate state, wrong order or shared-node bugs need generated DAGs and repeated execution.",
 ["graph/graph.go", "context/context.go", "tensor/oper2.go", "tensor/softmax.go", "tensor/tensor_mat.go"],
 [("post-order build with once-only marking", "BuildGraph of every tensor type"), ("operation list", "context/context.go, graph/graph.go")],
 ["graph.NewGraph, NewGraphFrom, NewFromGraph, AddFromGraph, PushOperations, Exec"],
 [dict(name="builded", meaning="this node has already emitted its operations", where="tensor/tensor_mat.go")])

prop("C07", "Ill-formed tensor expressions are refused with an error",
 "Combining tensors whose shapes do not fit (different ranks or extents for element-wise operations and loading from a tensor; different element counts for copying and loading data; different ranks or any unequal extent other than the joined one for Concat; unequal contracted extents for Dot), or naming a dimension or range that does not exist, yields an error from the method or from building the graph, wherever the faulty operation sits inside a larger expression. It never panics and never produces a result.",
 ["inputs", "programs"], "All shapes, dimensions and ranges violating an operation's requirement, at any depth of an expression.",
 "No existing test exercises a failing operation; the space of mismatches cannot be listed by hand.",
 ["tensor/oper2.go", "tensor/concat.go", "tensor/sub_tensor.go", "tensor/dim_math.go", "tensor/dot_product.go", "tensor/copy.go", "tensor/tensor_mat.go", "tools/tools.go"],
 [("shape checks", "tools.GetEqShapeErr, checkConcat, range checks in BuildGraph"), ("error propagation through nested BuildGraph", "tensor/*.go")],
 ["graph.NewGraph error", "method errors", "LoadData, LoadFromTensor errors"])

prop("C08", "Results and copies never share storage with their sources",
 "A tensor built from values or from a shape, a copy, the data or shape a tensor hands out, and the result of every immediate operation are independent of what they came from: no later change to the source slice or tensor shows in them, and no change to them shows in the source. Bind is the one operation that deliberately shares elements.",
 ["inputs", "histories"], "All constructors and immediate operations, all shapes, all later sequences of writes to either side.",
 "Tests look at values once and never mutate a source afterwards.",
 ["tensor/tensor_mat.go", "tensor/constructor.go", "tensor/concat.go", "tensor/reshape.go", "tensor/transpose.go", "tensor/sub_tensor.go"],
 [("fresh scalars per element", "tensor/*.go method forms"), ("defensive slice copies", "GetShape, GetMulIndex, GetData, Copy, initMat")],
 ["Get/GetData/GetShape of both sides after mutation"])

prop("C09", "Tensors survive being written to and read from a stream",
 "Saving a tensor and loading the bytes into a tensor of the same size (values only) or into any tensor (full form, which also restores shape) reproduces every element bit for bit, and several tensors written one after another are read back in the same order, each consuming exactly its own bytes. If the stream ends early or the writer fails at any point, the operation returns an error; a full load also does for bytes no tensor was saved as, and when it fails it leaves the tensor as it was.",
 ["inputs", "crash_points", "fault_sequences"], "All shapes and element types, all bit patterns, all sequences of tensors in a stream, all truncation and write-failure offsets, readers that deliver short reads.",
 "No existing test saves or loads anything.",
 ["tensor/tensor_mat.go"],
 [("little-endian element stream", "tensor/tensor_mat.go: Save, Load, SaveFull, LoadFull")],
 ["Save/Load/SaveFull/LoadFull results, bytes consumed, returned errors"])

prop("C10", "Each activation computes its function and Derive is its derivative",
 "Linear, Relu (leaky with slope Alpha), ELU, SELU, Sigmoid, Tanh, Sin, Swish and GELU return their defining function of the input for every finite floating-point input and parameter, and Derive returns the exact derivative of that same function (the right-hand one at a kink of Relu and ELU). They stay finite wherever their function is.",
 ["inputs"], "All finite inputs (including very large and very small magnitudes), all parameters, float32 and float64.",
 "The package has no tests at all; networks in other tests use three activations near the origin.",
 ["activation/elu.go", "activation/gelu.go", "activation/linear.go", "activation/relu.go", "activation/selu.go", "activation/sigmoid.go", "activation/sin.go", "activation/swish.go", "activation/tanh.go"],
 [("closed formulas", "activation/*.go")],
 ["Activate, Derive"])

prop("C11", "Each layer computes its definition for any configuration and input",
 "A compiled model predicts exactly the composition of its layers: Dense is activation(W x + b); Conv2D and Deconv2D are the strided correlation and its transposed counterpart with per-position bias; MaxPool takes the maximum over non-overlapping windows covering the whole input (partial at the border); UpSampling repeats each cell; Flatten, SubTensor and Concat rearrange as the tensor operations do; Norm rescales by the largest magnitude into [0,1] or [-1,1] form; SoftMax as the tensor operation; a model pushed as a layer acts as its own layers. The output has the shape these definitions imply, for any kernel, stride, pool and filter sizes, including non-square ones.",
 ["inputs", "configurations"], "All sequential and branching architectures over these layers, all configurations with valid shapes, all weights and inputs.",
 "Layer tests train tiny fixed networks and only look at whether the loss gets small; a wrong forward formula can still be trained.",
 ["layer/dense.go", "layer/conv2d.go", "layer/deconv2d.go", "layer/max_pool_2d.go", "layer/up_sampling_2d.go", "layer/flatten.go", "layer/sub_tensor.go", "layer/concat.go", "layer/norm.go", "layer/softmax.go", "layer/input.go", "model/model.go"],
 [("forward graph construction", "BuildFeedforward of each layer"), ("compilation", "model/model.go: Compile, Predict")],
 ["model.Predict"])

prop("C12", "One training step moves every parameter along the true gradient",
 "With learning rate a and no earlier steps, training on one sample adds to every weight and bias a times its back-propagated gradient for the output error target-prediction: the chain rule with each hidden activation's derivative, the output layer's own activation slope being taken as one, Norm's scale held constant and SoftMax passing the error through. This holds for any network of Dense, Conv2D, Deconv2D, MaxPool, UpSampling, Flatten, SubTensor, Norm, SoftMax, Concat layers and nested models, in any order and configuration, and for models composed of such models.",
 ["inputs", "configurations"], "All architectures (sequential and branching), all configurations incl. non-square kernels and strides, all parameters, inputs and targets.",
 "Training tests only check that a loss falls below a threshold, which wrong or partial gradients routinely achieve.",
 ["layer/base.go", "layer/dense.go", "layer/conv2d.go", "layer/deconv2d.go", "layer/max_pool_2d.go", "layer/up_sampling_2d.go", "layer/norm.go", "layer/softmax.go", "layer/sub_tensor.go", "layer/flatten.go", "layer/concat.go", "model/model.go"],
 [("back-propagation graph construction", "BuildBackpropagation, BuildDer of each layer"), ("parameter update", "layer/base.go: Fit; model/model.go: ExecFit")],
 ["parameters before and after TrainOne"],
 [dict(name="Dif", meaning="error signal of a layer, must be zeroed between steps", where="layer/base.go"), dict(name="Ref", meaning="number of users of a layer", where="layer/base.go")])

prop("C13", "A training history is the momentum gradient recursion, step by step",
 "Over any sequence of training steps with any samples, learning rates and momenta, each step's change of a parameter is the learning rate times that step's gradient plus the momentum times the previous step's change, and the loss reported for a step is the sum of absolute differences between target and prediction before the step. Predictions, resets and repeated compilation in between do not disturb the recursion, the steps of a composed model and of its parts can be mixed, and Train for e epochs of b batches performs exactly e*b such steps (one pass's worth when b is 0) each on a member drawn at random from the whole data set, whether or not its progress is shown on a terminal.",
 ["histories", "inputs"], "All interleavings of training steps, predictions, state resets and compilations, all rates and momenta, all architectures of the gradient property.",
 "Tests cannot observe momentum or leftover error state: training converges with or without them.",
 ["layer/dense.go", "layer/conv2d.go", "layer/deconv2d.go", "layer/base.go", "model/model.go"],
 [("momentum memory", "MWeights/MBias in layer/*.go"), ("error reset between steps", "layer/base.go: ResetFit"), ("training loop", "model/model.go: Train, TrainOne")],
 ["parameters and loss after every step"])

prop("C14", "Prediction is a pure function of parameters and input",
 "Predict returns the same values for the same input and parameters whatever was predicted, reset, compiled again or saved before, changes no parameter and neither the given tensor nor any result returned earlier, and its result is not changed by later calls. Whether the model was compiled explicitly, repeatedly, or on first use makes no difference.",
 ["histories", "inputs"], "All histories of Predict, ResetIS, Compile, CompileBackPropagation, Save and String calls, all architectures and inputs.",
 "Tests predict each input once, after training, and compare with a loose threshold.",
 ["model/model.go", "layer/conv2d.go", "layer/deconv2d.go", "layer/base.go"],
 [("accumulators re-initialised inside the graph", "layer/conv2d.go, deconv2d.go"), ("result copied out", "model/model.go: Predict"), ("idempotent compilation", "model/model.go: Compile")],
 ["Predict results, parameters"])

prop("C15", "A saved model restores to one with identical behaviour",
 "Saving a compiled model and loading the bytes into a separately built model of the same architecture makes the second hold the same parameters and predict the same values, for every architecture including branches, nested and composed models; each parameter is written once and loading consumes exactly what saving wrote. After resetting the save/load marks it can be repeated at any point of a training history, and a truncated stream or failing writer is reported as an error.",
 ["inputs", "histories", "crash_points", "configurations"], "All architectures, parameters and training histories, all truncation and write-failure offsets.",
 "No existing test saves or loads a model.",
 ["layer/base.go", "layer/concat.go", "model/model_layer.go", "tensor/tensor_mat.go"],
 [("pre-order traversal with once-only marks", "layer/base.go, layer/concat.go: Save, Load, ResetSave, ResetLoad")],
 ["bytes written, parameters and Predict of the restored model"],
 [dict(name="saved/loaded", meaning="layer already visited in this pass", where="layer/base.go")])

prop("C16", "A model composed of models predicts their composition",
 "A model composed from a sequence of models, of which only the first may have been compiled, trained or composed before, predicts, for every input, what the last part yields when each part's prediction is fed to the next, and does so under the parts' current parameters, after any later training or loading of the parts or of the whole; each part goes on predicting on its own. Composing zero models, or connecting a model that was compiled on its own behind another, is an error.",
 ["inputs", "configurations", "histories"], "All sequences of models with fitting shapes, all parameters and inputs, later parameter changes.",
 "No existing test composes models.",
 ["model/model.go", "layer/input.go", "model/model_layer.go", "graph/graph.go"],
 [("connection of first to last layers", "model/model.go: FromModels"), ("graph concatenation", "graph/graph.go: AddFromGraph")],
 ["Predict of the composed model"])

prop("C17", "Training writes trainable parameters only; frozen layers stay fixed",
 "Training changes no input, target or data-set tensor, no other model (nor another part, when a part of a composed model is trained), and no parameter of a layer that is not trainable; layers can be frozen and released one by one or, through the model, all at once - first layer, branches and nested models included - at any point of a training history, and the layers that remain trainable are updated exactly as if nothing were frozen.",
 ["histories", "configurations"], "All architectures, all assignments and changes of the trainable flags between steps, all samples.",
 "SetTrainable is not tested.",
 ["layer/base.go", "model/model_layer.go", "model/model.go", "layer/concat.go"],
 [("trainable flag consulted when new values are taken over", "layer/base.go: Fit, SetTrainable"), ("model-wide traversal", "model/model_layer.go: SetTrainable")],
 ["parameters, sample tensors before and after training"])

prop("C18", "Samples that do not fit are rejected and leave the model unchanged",
 "Predicting or training with an input or target whose shape differs from the model's (also as one of several samples), or training with different numbers of inputs and targets, or with no samples, returns an error, and afterwards the model has the same parameters and behaves - in prediction and in further training - exactly as if the call had not been made.",
 ["inputs", "histories"], "All architectures and shape mismatches, at any point of a history.",
 "No existing test passes a wrong sample.",
 ["model/model.go", "tensor/tensor_mat.go"],
 [("shape check on load", "tensor/tensor_mat.go: LoadFromTensor"), ("early return before the graphs run", "model/model.go: ExecFit, Train, Predict")],
 ["returned errors, parameters, later predictions and steps"])

prop("C19", "Images map to tensors and back pixel by pixel",
 "Loading an image yields a tensor (4, width, height) whose channels at x,y are that pixel's red, green, blue and alpha divided by 65535, for every colour model, bit depth, and placement of the image bounds; converting a tensor with values in [0,1] back gives each pixel's 8-bit channels, so an opaque 8-bit image survives load, PNG save and load unchanged. Simple scaling picks the source pixel at the proportional position, smooth scaling (of floating-point tensors) interpolates linearly between neighbouring pixels inside the image; scaling to the same size is the identity, a constant image stays constant, the number of channels is kept, and loading with scaling agrees with scaling after loading (smooth scaling to within one 16-bit step).",
 ["inputs"], "All image sizes (non-square), colour models, pixel values and target sizes; tensors with any number of channels for scaling; unreadable files give errors.",
 "The package has no tests.",
 ["img/image.go", "img/save.go", "img/simple_scale.go", "img/smooth_scale.go"],
 [("pixel loops", "img/image.go, img/save.go"), ("nearest and bilinear resampling", "img/simple_scale.go, img/smooth_scale.go")],
 ["LoadImage, LoadSimpleScaled, LoadSmoothScaled, ToImg, PngSave, JpgSave, SimpleScale, SmoothScale"])

prop("C20", "Half-precision conversion is exact widening and correct rounding",
 "Every one of the 65536 half-precision bit patterns widens to exactly the value it denotes and narrows back to itself (NaNs to NaNs); narrowing any 32-bit float gives the nearest half-precision value, ties to even, overflowing to infinity and underflowing through subnormals to signed zero, and classification (NaN, infinite, finite, normal, sign) matches the value. Arithmetic on halves is the correctly rounded result of the exact operation on their values.",
 ["inputs"], "All 2^16 half patterns exhaustively; all 2^32 floats by stratified generation around every rounding boundary; all operand pairs for arithmetic.",
 "The package has no tests.",
 ["scalar/f16.go"],
 [("bit-level conversion", "scalar/f16.go: f16bitsToF32bits, f32bitsToF16bits"), ("arithmetic through float32", "scalar/f16.go")],
 ["F16fromF32, F16fromF64, G32, G64, S32, S64, Add..Div, IsNaN, IsInf, IsFinite, IsNormal, Signbit"])

prop("C21", "Scalars of all precisions follow one arithmetic contract",
 "For half, single and double precision scalars in any combination, Add, Sub, Mul and Div return a new scalar of the receiver's precision holding the receiver-precision result and change neither operand; the Self forms store the same result in the receiver only; Cmp orders by value at the receiver's precision; Copy is independent of its original; setters and getters convert by rounding; String prints the stored value in full precision.",
 ["inputs", "histories"], "All values, all combinations of operand precisions, all sequences of operations, including an operand used as its own argument.",
 "The package has no tests.",
 ["scalar/f16.go", "scalar/f32.go", "scalar/f64.go", "scalar/scalar.go"],
 [("per-precision implementations of one interface", "scalar/f16.go, f32.go, f64.go")],
 ["Scalar interface methods"])

prop("C22", "Constructors produce the requested shape and contents",
 "NewZeros, NewOnes and NewFromValues give a tensor of exactly the requested shape and element count holding zeros, ones, or the given values in row-major order (missing ones zero, surplus ones ignored). NewRand and the random scalar stay within [min, max] (two values of the element type, at a finite distance) and spread over that range - for integer types too - and NewNormRand and the normal scalar are centred with unit spread; elements are drawn independently. LoadData and LoadFromTensor replace all elements, FillData sets all.",
 ["inputs"], "All shapes, element types, ranges and value lists.",
 "Constructors are only used with fixed arguments; range and independence of random contents are not checked.",
 ["tensor/constructor.go", "number/constructors.go", "tensor/tensor_mat.go", "tensor/fill.go"],
 [("constructors", "tensor/constructor.go, number/constructors.go")],
 ["GetData, GetShape, GetSize, Value"])

prop("C23", "Independent objects do not interfere, even when used concurrently",
 "Tensors, graphs and models that share no tensor behave as if each were alone: interleaving their operations in any order, or running them in parallel goroutines, gives each exactly the results of running it by itself.",
 ["schedules", "histories"], "All interleavings of construction, compilation, prediction, training, saving and graph execution over several independent objects; parallel execution in goroutines.",
 "Tests use one model or graph at a time; hidden shared state (package-level caches, shared layers or scalars) would go unnoticed.",
 ["graph/graph.go", "context/context.go", "tensor/tensor_mat.go", "layer/base.go", "model/model.go"],
 [("no package-level mutable state", "all packages")],
 ["results of each object compared with a solitary run"])

prop("C24", "Networks that cannot work are refused at compilation",
 "Compiling, predicting with, training or composing a model whose layers cannot be connected - a layer that needs an input without one, a two-dimensional layer on input that is not three-dimensional, a convolution kernel larger than its input or with a zero stride, a zero pool size, a Concat of unequal shapes or non-existent dimension, a SubTensor range or dimension out of bounds, a model without layers - returns an error naming the problem, wherever in the network the faulty layer is, and never panics.",
 ["configurations"], "All architectures with one faulty layer at any position, directly or inside a branch or nested model.",
 "No existing test builds a faulty network.",
 ["layer/base.go", "layer/conv2d.go", "layer/deconv2d.go", "layer/max_pool_2d.go", "layer/up_sampling_2d.go", "layer/concat.go", "layer/sub_tensor.go", "layer/flatten.go", "layer/norm.go", "layer/softmax.go", "layer/dense.go", "model/model.go"],
 [("checks in Build and BuildFeedforward", "layer/*.go"), ("error propagation", "layer/base.go: PreBuild, PreBuildFeedforward; model/model.go: Compile")],
 ["errors of Compile, Predict, TrainOne, Train"])

prop("C25", "Printed tensors and helper measures report the true contents",
 "Printing a tensor gives its rank, element count, shape and every element, in order, in Go's shortest exact form; the sum, average, maximum and minimum helpers cover every scalar of their list; the distance of two data sets is the Euclidean one (an error for unequal lengths); shape comparison reports the first differing dimension; a progress bar of size n>=4 is n characters wide with a filled part proportional to the progress in [0,1], rounded down.",
 ["inputs"], "All shapes, values and element types; all vectors; all progress values and widths.",
 "No test looks at printed output or at the distance of other than trained outputs.",
 ["tensor/tensor_mat.go", "tools/tools.go", "tools/bar.go"],
 [("formatting", "tensor/tensor_mat.go: String; tools/tools.go: ShapeStr"), ("measures", "tools/tools.go: Distant, Equals, GetEqShapeErr; tools/bar.go: Bar")],
 ["String, ShapeStr, Distant, Equals, GetEqShapeErr, Bar"])

prop("C26", "Printing a model lists every layer once, with its connections",
 "The printed form of a compiled model - with branches, nested and composed models - has one line for every layer, exactly once, after the layers that feed it and with the first branch of a Concat before the second. A line shows the layer's depth (one more than the deepest layer feeding it, zero without one), the depths of its feeding layers, its kind and the shape of its output; printing never panics, changes nothing and can be repeated at any point of a history.",
 ["configurations", "histories"], "All architectures of the existing layer kinds, including layers feeding several others, and compositions of models; printing at any time after compilation.",
 "No test prints a model.",
 ["layer/base.go", "layer/concat.go", "layer/input.go", "model/model.go", "model/model_layer.go"],
 [("depth-first printing with a visited mark", "layer/base.go, layer/concat.go: PushToString, ResetPrinted"), ("entry point", "model/model.go: String")],
 ["String of Model and Layer"])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
