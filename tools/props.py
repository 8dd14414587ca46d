#!/usr/bin/env python3
"""Single source of properties.jsonl, MANIFEST.json and known_findings.json:  python3 tools/props.py  (run in /verif)"""
import json, os, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
D = "smart_dnn/"
T, AO, TO = D + "Tensor/Tensor.impl.hpp", D + "Tensor/AdvancedTensorOperations.hpp", D + "Tensor/TensorOperations.hpp"
SH, SO = D + "Shape/Shape.hpp", D + "Shape/ShapeOperations.hpp"
BV, SV = D + "Tensor/BroadcastView.hpp", D + "Tensor/SliceView.hpp"
def mech(*a): return [{"name": n, "where": w} for n, w in a]
P = []
def prop(id, title, statement, over, quant, why, files, mechanism, state=None, observe=None, na=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=quant), why_tests_cant=why, anchors=dict(files=files, mechanism=mechanism))
    if state: d["anchors"]["state"] = state
    if observe: d["anchors"]["observe_at"] = observe
    d["anchors"]["hook_needed"] = None
    P.append((d, na))

prop("C01", "Shape construction, size, strides, reshape and broadcasting rules",
 "A shape is accepted exactly when it has at least one dimension, every dimension is positive and the element count is representable in size_t; its size is the product of the dimensions and its strides are the row-major ones. Reshaping is accepted exactly when the element count is preserved, leaves the shape unchanged when refused, and copies, comparisons and concatenation agree with the dimension lists. Broadcasting two shapes gives the right-aligned elementwise maximum exactly when each pair of dimensions is equal or one of them is 1, and throws otherwise.",
 ["inputs"], "every list of 32-bit dimensions up to rank 5", "tests use a dozen hand-picked shapes and never dimensions whose product overflows", [SH, SO],
 mech(("validation and overflow test", SH + " constructor"), ("stride computation", SH), ("broadcast rule", SO)))
prop("C02", "Element addressing is row-major, bounds-checked and alias-free",
 "Reading or writing element (i1,...,ik) of a tensor touches exactly the storage slot given by the row-major strides, distinct index tuples touch distinct slots, and flat indexing visits the same elements in the same order. An index outside its dimension or an index list of the wrong length is rejected with an exception and changes nothing. This still holds after the tensor was reshaped.",
 ["inputs"], "every 32-bit index tuple for shapes up to rank 4", "tests read a few in-range elements; out-of-range indices form an unbounded set", [T, SH],
 mech(("index computation", T + " at/computeIndex"), ("bounds test", SH)))
prop("C03", "Broadcast elementwise arithmetic of two tensors",
 "For +, -, * and / on two tensors the result has the broadcast shape and every element is the operation applied to the two elements selected by right-aligned broadcasting, in operand order. Shapes that do not broadcast are rejected. The operands are not modified, also when both operands are the same tensor or the result is used in a larger expression.",
 ["inputs"], "every pair of shapes of ranks 1..3 in the stated bounds and all element values", "tests use a handful of shape pairs with constant contents, which cannot tell index permutations apart", [TO, BV],
 mech(("broadcast operators", TO), ("right-aligned zero-stride view", BV)))
prop("C04", "In-place arithmetic equals out-of-place arithmetic or throws",
 "The compound assignments +=, -=, *= and /= with a tensor give the same contents as the corresponding binary operator and keep the shape of the left operand, also for a self-assignment such as a += a. A right operand that cannot be broadcast to the shape of the left operand is rejected and leaves the left operand unchanged. The right operand is never modified.",
 ["inputs"], "every pair of shapes in the stated bounds and all element values, including aliasing", "aliasing and incompatible-shape combinations are not sampled by the tests", [TO, T],
 mech(("in-place operators", TO), ("compound assignment", T)))
prop("C05", "Scalar arithmetic on tensors",
 "Adding, subtracting, multiplying and dividing a tensor and a scalar, with the scalar on either side where the library offers it, applies the operation to every element in operand order and keeps the shape. The in-place forms give the same contents as the out-of-place ones. The tensor operand of an out-of-place form is not modified.",
 ["inputs"], "every scalar and element value, shapes up to rank 4", "scalar - and * in place were wrong although the tests passed", [TO, T],
 mech(("scalar operators", TO), ("compound scalar assignment", T)))
prop("C06", "Tensors are values: construction, copy, move, equality, fill and iteration",
 "A tensor built from a shape and contents holds exactly these contents, and contents whose number differs from the element count of the shape are rejected. Copies are deep: writing one never changes the other, a moved-to tensor holds what the source held, and a moved-from tensor stays usable. Equality holds exactly when shapes and all elements are equal, and fill and iteration cover every element exactly once.",
 ["inputs", "histories"], "all contents (including NaN and infinities for equality) and sequences of copy, move, assignment and write", "aliasing bugs need write-after-copy sequences that tests do not perform", [T, D + "Tensor/TensorDataCPU.impl.hpp"],
 mech(("unique buffer ownership", D + "Tensor/TensorDataCPU.impl.hpp"), ("copy and move members", T)))
prop("C07", "Views: broadcast and slice views select exactly the right elements",
 "Iterating or indexing a broadcast view yields, for each index of the target shape in row-major order, the source element selected by right-aligned broadcasting, and the number of elements visited is the size of the target shape. A slice view yields exactly the elements selected by the start, end and step of each dimension in row-major order, and writes through it reach only those elements. Invalid target shapes and slice parameters are rejected.",
 ["inputs"], "every source/target shape pair and every start/end/step in the stated bounds", "tests check a few views; off-by-one errors need particular remainders of (end - start) by step", [BV, SV],
 mech(("zero strides for broadcast dimensions", BV), ("slice offsets and counts", SV)))
prop("C08", "Tensor::slice returns the requested sub-tensor",
 "Slicing a tensor along a dimension at an index returns a tensor without that dimension holding exactly the elements whose coordinate in that dimension is the index, in order. An index or dimension out of range is rejected. The source is not modified and the result is an independent copy.",
 ["inputs"], "every dimension and 32-bit index for shapes up to rank 4", "the tests do not exercise all dimension/index pairs nor out-of-range ones", [T],
 mech(("slice", T)))
prop("C09", "Sum, mean and variance reductions",
 "The sum over a dimension, over a list of axes or over everything, the mean over axes and the variance over axes equal the mathematical ones: each result element aggregates exactly the source elements that share its remaining coordinates, in the documented result shape. The variance is the population variance around the given or computed mean. Invalid axes are rejected and the source is unchanged.",
 ["inputs"], "every shape up to rank 4 in the stated bounds, every axis subset, all element values", "tests reduce one or two constant tensors along one axis", [AO, T],
 mech(("reduction index mapping", AO)))
prop("C10", "Transpose and reshape preserve every element",
 "Swapping two dimensions of a tensor gives the tensor whose element at the swapped coordinates is the original element, for every pair of dimensions and rank. Reshaping keeps the row-major element sequence and refuses other element counts. Both leave the source unchanged and a double transpose is the identity.",
 ["inputs"], "every shape up to rank 4 in the stated bounds, every pair of dimensions, all element values", "tests transpose two matrices", [AO, T],
 mech(("transpose", AO), ("reshape", T)))
prop("C11", "Matrix multiplication for every supported rank combination",
 "Multiplying two tensors gives the mathematical (batched) matrix product, for vector-vector, vector-matrix, matrix-vector, matrix-matrix and batched operands, with the documented result shape. Operands whose inner dimensions or batch sizes do not match are rejected. The operands are not modified.",
 ["inputs"], "every operand shape in the stated bounds and all element values", "tests multiply a few small constant matrices; wrong strides can cancel on symmetric data", [AO],
 mech(("1-D/2-D/batched kernels", AO)))
prop("C12", "Elementwise functions and factories",
 "Applying a function to a tensor, or to a pair of equally shaped tensors, evaluates it exactly once per element (pair) and puts the result at the same position; the reciprocal is elementwise with 1/epsilon for elements not above epsilon in magnitude, and the square root is elementwise. The zeros, ones, identity and constant factories give exactly the stated contents and shape. Sources are not modified.",
 ["inputs"], "all element values and shapes up to rank 4", "tests use constant contents that cannot distinguish positions", [AO, D + "Tensor/TensorFactory.hpp"],
 mech(("apply/applyPair", AO), ("factories", D + "Tensor/TensorFactory.hpp")))
prop("C13", "Random initialisation stays in range and is reproducible",
 "Random tensor factories fill every element with a separately drawn value that respects the requested range, whatever the underlying generator produces. The same seed gives the same sequence of values. Fully connected and convolution layers start with weights drawn separately from [0,1] and zero biases.",
 ["inputs"], "every sequence of values the underlying generator may produce", "a test observes one seed", [D + "RandomEngine.hpp", D + "Tensor/TensorFactory.hpp"],
 mech(("clamping of draws", D + "RandomEngine.hpp"), ("sequential fill", D + "Tensor/TensorFactory.hpp")))
prop("C14", "Fully connected layer: output, input gradient and parameter gradients",
 "The forward pass gives input times weights plus bias for a single sample and for batches. The backward pass returns the exact gradient of the output with respect to the input contracted with the incoming gradient, and the parameter gradients handed to the optimizer are the exact gradients summed over the batch. Inputs or gradients of the wrong size, and a backward pass without a forward pass, are rejected.",
 ["inputs", "histories"], "all inputs, parameters and output gradients; batch and feature sizes in the stated bounds", "tests compare a few numbers on constant tensors; gradients are unchecked for most index combinations", [D + "Layers/FullyConnectedLayer.hpp"],
 mech(("forward/backward", D + "Layers/FullyConnectedLayer.hpp")))
prop("C15", "Convolution forward pass equals the direct definition",
 "For every channel count, kernel size, stride, padding and dilation the output of a convolution layer is the cross-correlation of the zero-padded input with the kernels plus bias, with the standard output size. Inputs whose channel count does not match or whose padded image is smaller than the kernel, and unusable parameters, are rejected.",
 ["inputs", "configurations"], "all inputs, kernels and biases for every configuration in the stated bounds", "tests only use stride 1, no padding, one channel with constant data", [D + "Layers/Conv2DLayer.hpp"],
 mech(("im2col", D + "Layers/Conv2DLayer.hpp"), ("output size", D + "Layers/Conv2DLayer.hpp")))
prop("C16", "Convolution backward pass is the exact gradient",
 "The input gradient returned by the backward pass of a convolution layer, and the weight and bias gradients passed to the optimizer, are the exact gradients of the forward pass contracted with the incoming gradient, for every configuration. They belong to the most recent forward pass only. Gradients of the wrong shape and a backward pass without a forward pass are rejected.",
 ["inputs", "configurations", "histories"], "all inputs, kernels, gradients for every configuration in the stated bounds", "tests check output shapes only", [D + "Layers/Conv2DLayer.hpp"],
 mech(("col2im and gradient products", D + "Layers/Conv2DLayer.hpp")))
prop("C17", "Max pooling selects window maxima and routes gradients to them",
 "Every output element of max pooling is the maximum of its window (ignoring padding), with the standard output size, and backward adds each incoming gradient to exactly the input position that was selected, all other positions receiving zero. Unusable parameters, inputs and gradient shapes are rejected. Repeated use does not mix passes.",
 ["inputs", "configurations"], "every configuration and data ordering in the stated bounds", "tests pool one 4x4 image", [D + "Regularisation/MaxPooling2DLayer.hpp"],
 mech(("window scan and argmax store", D + "Regularisation/MaxPooling2DLayer.hpp")))
prop("C18", "Batch normalisation forward pass and running statistics",
 "In training mode the output is the input normalised per feature (per channel for images) with the batch mean and variance, then scaled and shifted, and the running statistics move towards the batch statistics by the momentum. In evaluation mode the output depends only on the running statistics and parameters, which are not changed. Inputs with another feature count are rejected.",
 ["inputs", "histories"], "all inputs, parameters, momentum and epsilon; up to three training passes then evaluation", "tests check shapes and means of one batch", [D + "Regularisation/BatchNormalizationLayer.hpp"],
 mech(("statistics and normalisation", D + "Regularisation/BatchNormalizationLayer.hpp")))
prop("C19", "Batch normalisation backward pass is the exact gradient",
 "The input gradient of batch normalisation in training mode is the exact derivative of the forward pass through the batch mean and variance contracted with the incoming gradient, and the gradients for scale and shift handed to the optimizer are the exact ones. This holds for 2-D and image inputs. Gradients of another shape and a backward pass without a forward pass are rejected.",
 ["inputs"], "all inputs, parameters and output gradients in the stated bounds", "tests check shapes only", [D + "Regularisation/BatchNormalizationLayer.hpp"],
 mech(("backward formula", D + "Regularisation/BatchNormalizationLayer.hpp")))
prop("C20", "Dropout: mask, scaling, evaluation identity and matching backward pass",
 "In training mode dropout zeroes an element exactly when its own uniform draw falls below the rate and scales the others by 1/(1-rate), and backward applies the same mask and scale to the gradient. In evaluation mode it is the identity. Rates outside [0,1), mismatched gradients and a backward pass before a training forward pass are rejected.",
 ["inputs", "histories"], "every sequence of random draws, every rate and all data in the stated bounds", "tests look at one seeded draw", [D + "Regularisation/DropoutLayer.hpp"],
 mech(("mask generation and scaling", D + "Regularisation/DropoutLayer.hpp")))
prop("C21", "Flatten and the backward-shape contract of every layer",
 "Flatten keeps the batch dimension and the element order, and its backward pass restores the shape of the most recent input with the gradient elements in order. For every layer the gradient returned by the backward pass has the shape of the input of the preceding forward pass. A gradient with the wrong element count and a backward pass before a forward pass are rejected.",
 ["inputs", "histories"], "all inputs, ranks 2..5, repeated use", "tests flatten one shape", [D + "Layers/FlattenLayer.hpp"],
 mech(("stored original shape", D + "Layers/FlattenLayer.hpp")))
prop("C22", "Activation functions compute their formula and its exact derivative",
 "ReLU, LeakyReLU, sigmoid, tanh, swish and mish compute their mathematical definition elementwise, and their backward functions return the incoming gradient times the exact derivative at the input. Results stay in the function's mathematical range. The activation layer applies its function to the most recent input in both directions and rejects a backward pass without a forward pass or of another shape.",
 ["inputs"], "all real inputs in the stated range and all output gradients", "tests compare five points per function", [D + "Activations", D + "Layers/ActivationLayer.hpp"],
 mech(("forward/backward lambdas", D + "Activations")))
prop("C23", "Activations never overflow to NaN on finite float inputs",
 "For every finite float input the activation functions and softmax return a number that is not NaN and lies in the closed range of the function, and their backward functions return a value that is not NaN. Saturated inputs give the limit value.",
 ["inputs"], "every finite 32-bit float, bit-precisely", "2^32 inputs; tests use values around zero", [D + "Activations"],
 mech(("numerically stable formulas", D + "Activations")))
prop("C24", "Softmax: normalised, shift invariant, exact Jacobian",
 "Softmax gives exp(x_i)/sum_j exp(x_j) over the elements of each batch entry (row), so every row is positive, sums to one and does not change when a constant is added to it. Its backward pass multiplies the incoming gradient by the exact Jacobian, row by row, and neither modifies its inputs. Inputs without a feature dimension and gradients of another shape are rejected.",
 ["inputs"], "all inputs and gradients, rows and features in the stated bounds", "tests check that one row sums to one", [D + "Activations/Softmax.hpp"],
 mech(("max subtraction", D + "Activations/Softmax.hpp"), ("Jacobian product", D + "Activations/Softmax.hpp")))
prop("C25", "Mean squared error: value and exact gradient",
 "The mean squared error of prediction and target is the average of the squared differences over all elements, is never negative and is zero exactly when they agree. Its gradient has the shape of the prediction and is the exact derivative of the returned loss with respect to each prediction element. A target of another shape than the prediction is rejected (except a vector of n targets for an n-row single-column prediction), and operands are not modified.",
 ["inputs"], "all predictions and targets in the stated bounds", "tests use one pair of vectors", [D + "Loss/MSELoss.hpp"],
 mech(("compute/gradient", D + "Loss/MSELoss.hpp")))
prop("C26", "Categorical cross entropy: value and exact gradient",
 "The loss is the batch mean of -sum target*log(prediction) with predictions clamped away from 0 and 1, finite for every prediction in [0,1] and never negative for targets in [0,1]. Its gradient has the shape of the prediction and is the exact derivative of the returned loss where the prediction is inside the clamp range. Unequal shapes are rejected and operands are not modified.",
 ["inputs"], "all predictions in [0,1] and targets in the stated bounds", "tests use one-hot examples with two roundings", [D + "Loss/CategoricalCrossEntropyLoss.hpp"],
 mech(("clamping", D + "Loss/CategoricalCrossEntropyLoss.hpp"), ("gradient", D + "Loss/CategoricalCrossEntropyLoss.hpp")))
OPTW = "tests run one step on constant tensors; the state carried across steps and tensors is unchecked"
prop("C27", "SGD follows its update recurrence over any history of steps",
 "Every SGD update moves each weight by exactly the documented recurrence with momentum, dampening, Nesterov and weight decay, starting from zero velocity, for every tensor separately and in any order of calls. A positive learning-rate override replaces the configured rate for that call only, any other override means the configured rate. Gradients are not modified, and lists that do not match are rejected without changing any weight.",
 ["inputs", "histories"], "all weights, gradients and hyper-parameters; up to 3 steps, 2 tensors, any interleaving", OPTW, [D + "Optimizers/SGDOptimizer.hpp"],
 mech(("velocity per tensor", D + "Optimizers/SGDOptimizer.hpp")))
prop("C28", "RMSProp follows its update recurrence over any history of steps",
 "Every RMSProp update moves each weight by exactly the documented recurrence with squared-gradient average, optional centering, momentum and weight decay, starting from zero state, for every tensor separately and in any order of calls. A positive learning-rate override replaces the configured rate for that call only, any other override means the configured rate, and finite gradients never produce NaN. Gradients are not modified, and lists that do not match are rejected without changing any weight.",
 ["inputs", "histories"], "all weights, gradients and hyper-parameters; up to 3 steps, 2 tensors, any interleaving", OPTW, [D + "Optimizers/RMSPropOptimizer.hpp"],
 mech(("moving averages per tensor", D + "Optimizers/RMSPropOptimizer.hpp")))
prop("C29", "Adam follows its bias-corrected recurrence over any history of steps",
 "Every Adam update moves each weight by exactly the bias-corrected recurrence with L1, L2, learning-rate decay and batch averaging, with moments and step count kept separately for every tensor and starting from zero, in any order of calls. A positive learning-rate override replaces the rate for that call only, any other override means the configured rate, and finite gradients never produce NaN. Gradients are not modified, and lists that do not match are rejected without changing any weight.",
 ["inputs", "histories"], "all weights, gradients and hyper-parameters; up to 3 steps, 2 tensors, any interleaving", OPTW, [D + "Optimizers/AdamOptimizer.hpp"],
 mech(("moments and step count per tensor", D + "Optimizers/AdamOptimizer.hpp")))
prop("C30", "Optimizer state is isolated per tensor across object lifetimes",
 "Using one optimizer for tensors that are created, destroyed and recreated with other shapes never reads or writes outside the live tensors and never lets state of another shape enter an update. Two optimizers never influence each other, also when one is a copy of the other, and copies of an optimizer's tensors never share state. Optimizers keep no access to a tensor after the call returns.",
 ["histories"], "all weights and gradients; histories of creation, update, destruction and reuse of the same address", "needs an allocator that reuses addresses with other shapes, which a test cannot force", [D + "Optimizers"],
 mech(("staleness test on shape", D + "Optimizers")))
prop("C31", "Model inference composes its layers and evaluation is pure",
 "The output of a model is the output of its layers applied in order to the input, whatever was run before. In evaluation mode inference changes nothing: repeated inference gives the same output, and parameters, running statistics and random-generator state stay as they were; training and evaluation mode reach every layer. Layer access outside the model is rejected.",
 ["inputs", "histories"], "all inputs and parameters; sequences of mode switches, inference and training", "tests run one forward pass of a small model", [D + "SmartDNN/SmartDNN.impl.hpp"],
 mech(("predict and mode switch loops", D + "SmartDNN/SmartDNN.impl.hpp")))
prop("C32", "One training step is exact gradient descent on the loss",
 "Training a model on a sample updates every trainable parameter by the optimizer applied to the exact gradient of the loss of the current model output, for each sample in order and for each epoch, using the parameters updated by the previous sample. Parameters of layers are updated exactly once per sample. Training before compilation, or with different numbers of inputs and targets, is rejected.",
 ["inputs", "histories"], "all inputs, targets and parameters of small models with each layer type, up to 2 samples and 2 epochs", "tests only check that some loss goes down", [D + "SmartDNN/SmartDNN.impl.hpp"],
 mech(("train loop: forward, loss gradient, backward, update", D + "SmartDNN/SmartDNN.impl.hpp")))
prop("C33", "MNIST loader decodes idx files exactly and rejects bad ones",
 "Loading a well-formed image and label file pair gives one image per record with every pixel byte divided by 255 at its position and a one-hot label, and batching groups consecutive samples without loss, duplication or reordering. Files that are missing, have a wrong magic number, are truncated or hold a label above nine are rejected with an exception, and a requested sample count limits what is read. No file contents make the loader read or write outside its buffers.",
 ["inputs"], "every content of small files, and every truncation point", "tests cannot ship all file contents; truncation points are not sampled", [D + "Datasets/MNistLoader.hpp"],
 mech(("header parsing and record loop", D + "Datasets/MNistLoader.hpp")))
prop("C34", "Synthetic sample generators",
 "The sample generators return the requested number of samples and batches with inputs in the documented range and targets that satisfy the documented relation for every value the random generator may produce. Requests with a non-positive batch size are rejected.",
 ["inputs"], "every sequence of random draws and every count in the stated bounds", "a test observes one random sequence", [D + "Datasets/SampleGenerator.hpp"],
 mech(("generators", D + "Datasets/SampleGenerator.hpp")))
prop("C35", "Results do not depend on the OpenMP schedule",
 "With OpenMP enabled, every tensor operation, layer and optimizer gives the same result as the sequential code for every number of threads and every distribution and interleaving of the loop iterations, and no two iterations access the same element with at least one write.",
 ["schedules"], "every assignment of iterations to threads for the stated sizes", "data races show up only under particular interleavings", [AO, D + "Layers/Conv2DLayer.hpp", D + "Optimizers/AdamOptimizer.hpp"],
 mech(("omp parallel for over disjoint output elements", AO)))
prop("C36", "Misuse is reported by exceptions, never by undefined behaviour",
 "Calling the public operations of tensors, layers, losses, optimizers and models with incompatible shapes or in the wrong order either works as documented or throws a standard exception; it never reads or writes outside a live buffer, divides by zero in integer arithmetic or overflows an index. A refused call leaves its operands unchanged.",
 ["inputs", "histories"], "all combinations of operand shapes and call orders in the stated bounds", "the space of misuses is a product of shapes and call orders", [T, AO, D + "Layers", D + "SmartDNN/SmartDNN.impl.hpp"],
 mech(("argument validation", D)))
prop("C37", "Layer results depend only on parameters, mode and the current input",
 "For every layer except those documented as stateful in training, the output of a forward pass and the gradients of the following backward pass are functions of the layer's parameters, its mode and that input alone: earlier passes, also of other batch sizes, passes that were rejected, and other layers of the same type have no influence. Layers do not modify their inputs and gradients, and results stay valid after the input is changed.",
 ["histories", "inputs"], "all inputs; histories of up to three passes with different shapes, modes and refused calls", "tests use a fresh layer per assertion", [D + "Layers", D + "Regularisation", D + "Activations"],
 mech(("optional caches replaced on every forward pass", D + "Layers")))
prop("C41", "Tensors of double are computed in double precision",
 "Every part of the library is a template over the element type. With double elements, every operation, activation, layer, loss and optimizer computes its results from the double operands and double options without passing through single precision: the results agree with the exact ones to about 1e-10 relative, and copies, views, reshapes and element access keep the double values unchanged. (Random initial weights and dropout masks are drawn in single precision.)",
 ["inputs"], "all element values and options in the stated intervals, every operation on doubles", "the tests use float almost everywhere, and compare doubles with tolerances that single precision meets", [T, AO, TO, D + "Activations", D + "Layers", D + "Optimizers", D + "Loss", D + "Regularisation"],
 mech(("T is used for all intermediate values", AO)))
prop("C38", "Training converges to a low loss on learnable data",
 "Training with a suitable optimizer and enough epochs reduces the loss of a suitably sized model on learnable data below any given positive bound.",
 ["inputs", "histories"], "all data sets and initialisations", "a statement about unbounded histories", [D + "SmartDNN/SmartDNN.impl.hpp"], mech(("train loop", D + "SmartDNN/SmartDNN.impl.hpp")),
 na="unbounded optimisation dynamics on non-convex losses: no finite unrolling of the real training loop decides it (single exact steps are decided in C32)")
prop("C39", "Saving a model and loading it back gives the same model",
 "A model written to a file and read back has the same layers and parameters and gives the same outputs.",
 ["inputs"], "all models", "no test exists", [D + "SmartDNN.hpp"], mech(("saveModel/loadModel declarations", D + "SmartDNN.hpp")),
 na="saveModel and loadModel are declared but have no definition in the repository: there is no code to encode")
prop("C40", "Text forms, loss reports and logs show the actual values",
 "The text form of a shape lists its dimensions in order; the data text of a tensor lists every element in row-major order and nothing else; the full text shows the shape and the first ten elements, followed by an ellipsis exactly when there are more; the texts of broadcast and slice views name their shapes; an MNIST picture shows every pixel at its row and column with the character of its intensity level. Texts follow the current contents after writes, reshapes, assignments and moves, and rendering changes nothing. Training prints, for every epoch in order, its number and the mean of the losses its samples had when they were processed. The logger prints each message once with its level when logging is enabled and nothing otherwise.",
 ["inputs", "histories"], "all element values; the listed shapes, histories of writes and training runs in the stated bounds", "tests print a few small tensors; no test reads the loss report, the picture or the log", [T, SH, D + "Tensor/TensorDataCPU.impl.hpp", D + "SmartDNN/SmartDNN.impl.hpp", D + "Datasets/MNistLoader.hpp", D + "Debugging/Logger.hpp"],
 mech(("toString, toDataString, toDetailedString", T), ("per-epoch loss report", D + "SmartDNN/SmartDNN.impl.hpp")))

NOTE = "every path of the real code within the stated bounds is decided by solver verdicts; trusts the symbolic executor (validated on each run by replaying solver models on the natively compiled code), z3/cvc5, clang's IR and the assumptions listed in the evidence"
TECH = "symbolic execution of the real LLVM bitcode with SMT (z3/cvc5) and exact polynomial/interval theory solvers; counterexamples replayed natively under ASan/UBSan"
def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for d, na in P:
            assert len(d["title"]) <= 80, d["id"]
            f.write(json.dumps(d) + "\n")
    checks, nas = [], []
    for d, na in P:
        i = d["id"]
        if na is None and glob.glob(os.path.join(V, "harness", i + "_*.cpp")):
            checks.append(dict(property=i, quick_cmd="python3 check.py %s --tier quick" % i, thorough_cmd="python3 check.py %s --tier thorough" % i, technique=TECH, level="model_checking", level_note=NOTE))
        else: nas.append(dict(property=i, reason=na or "no check built yet"))
    m = dict(version=1, setup_cmd="make -s -C engine -j8 && ./engine/symx --selftest", checks=checks, not_applicable=nas, notes="properties.jsonl, MANIFEST.json and known_findings.json are generated by tools/props.py; no hooks are needed in /repo")
    json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
    FX = [("C01","e91f7dc","a shape whose element count overflows int was accepted"),("C04","8529cf3","tensor -= scalar and *= scalar did not compile (they named operations that do not exist)"),
      ("C08","7e75e15","Tensor::slice returned the wrong elements"),("C06","af6667d","a value list of another length than the shape was accepted"),("C07","763e3d2","SliceView mishandled end and steps"),("C09","b1be029","the sum over all axes had no valid shape"),("C09","a1f0218","mean over axes was wrong"),("C09","e09e752","variance over axes was wrong"),
      ("C35","d19f8f1","transpose shared its index buffer between threads"),("C35","cb656a7","random tensors were filled in parallel from one generator"),("C06","253b8b5","a moved-from tensor had an invalid shape"),("C15","f59481a","convolution forward ignored channels, stride, padding and dilation"),("C15","c5fdc14","convolution accepted unusable inputs and parameters"),("C16","e7d3fa2","convolution backward was not the gradient"),
      ("C20","3080b0b","the dropout mask was not drawn uniformly"),("C20","3982693","dropout backward lacked the scale and used a missing mask"),("C20","d76d64d","dropout accepted rates outside [0,1)"),("C18","5ec7013","batch normalisation of images used the wrong feature count"),("C19","9607590","batch normalisation backward was not the gradient"),("C18","9975630","batch normalisation accepted another feature count"),("C19","9975630","batch normalisation accepted a gradient of another shape"),("C18","f5fdf14","running statistics changed shape after an image batch"),
      ("C14","66e67e0","backward of a fully connected layer failed for a single sample"),("C21","283537a","flatten forgot rank-2 shapes and allowed backward before forward"),("C22","35feb7b","activation layer backward before forward dereferenced nothing"),("C23","5709cf9","tanh overflowed to NaN"),("C22","0442c10","sigmoid computed in float for double tensors"),("C24","6f17fd7","softmax backward read beyond a smaller gradient"),("C17","373ff76","max pooling mishandled padding"),("C17","47da07c","max pooling accepted unusable parameters"),("C17","50288df","max pooling backward read beyond a smaller gradient"),
      ("C26","958e67b","the cross entropy gradient was not the derivative of the loss"),("C26","9e81958","cross entropy failed for batches"),("C27","b102de6","a gradient with another element count was read out of bounds"),("C28","b102de6","a gradient with another element count was read out of bounds"),("C29","b102de6","a gradient with another element count was read out of bounds"),("C36","b102de6","a gradient with another element count was read out of bounds"),("C30","85c45bb","optimizer state of another shape at a reused address was used"),("C29","fbba612","bias correction was applied twice"),("C29","ba5fcb2","the step count was shared between tensors"),("C28","6c54371","centered RMSProp produced NaN for a slightly negative variance"),
      ("C31","d61546a","layer access outside the model was undefined behaviour"),("C32","d61546a","training an uncompiled model or mismatched lists was undefined behaviour"),("C36","d61546a","training an uncompiled model or mismatched lists was undefined behaviour"),("C33","d0c3977","truncated MNIST files were accepted"),("C33","0243539","a zero batch size looped forever"),("C34","0243539","a zero batch size divided by zero"),("C34","3edfc71","sample generators could not be used in two translation units"),("C34","f501756","the batch count overflowed for very large batch sizes"),("C36","f48c334","the logger header did not compile where the file system is case sensitive"), ("C30","ee310bc","a copied SGD or RMSProp optimizer shared its state buffers with the original")]
    json.dump([dict(property=a, status="fixed", commit=b, what="fixed: property=%s %s %s" % (a, b, c)) for a, b, c in FX], open(os.path.join(V, "known_findings.json"), "w"), indent=1)
main()
