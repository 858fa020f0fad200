#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (run by hand; both files are committed)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, built=True, note="", na=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  built=built, note=note, na=na, observe=observe))


D = "src/decomon/"
LY = D + "layers/"
BL = D + "backward_layers/"
MO = D + "models/"

prop("C01", "Extremal values of affine functions over a perturbation domain are exact",
     "For a box, or an L-infinity, L1 or L2 ball, the upper (lower) value decomon returns for an affine function is never below (above) the value of that function at any point of the domain. It is also attained: it equals the maximum (minimum) over the domain.",
     ["inputs"], "all affine functions, all boxes/balls (radius included), all points of the domain",
     "Tests compare on a few hand-written boxes and centres; signs of weights, zero radius and ties are sampled, not covered.",
     [D + "core.py"], [("extremal values", D + "core.py: get_upper_box, get_lower_box, get_upper_ball, get_lower_ball, get_lq_norm")])
prop("C02", "Forward dense layers enclose the layer output",
     "If the bounds given to the forward version of a dense layer are valid at a point, the bounds it returns enclose the value the Keras layer computes there, for constant, affine and hybrid propagation. This holds for every kernel and bias, with or without bias, for flat and for batched-matrix inputs, and whether or not the incoming affine bounds are the network input itself.",
     ["inputs", "configurations"], "all kernels and biases, all valid incoming bounds, all domains and points, three propagation modes",
     "Tests fix a handful of kernels and boxes (odd/even examples) and compare at sampled points.",
     [LY + "decomon_layers.py", D + "core.py", LY + "convert.py"], [("bound propagation", LY + "decomon_layers.py: DecomonDense.call")])
prop("C03", "Forward convolutions enclose the layer output",
     "If the bounds given to the forward version of a 2D convolution are valid at a point, the bounds it returns enclose what the Keras convolution computes there, in every propagation mode. This holds for every kernel and bias and for every stride, dilation and padding choice.",
     ["inputs", "configurations"], "all kernels and biases, all valid incoming bounds, all points; stride, padding, dilation, channel configurations up to the stated sizes",
     "Tests use few kernels and paddings, one stride, sampled points.",
     [LY + "decomon_layers.py", LY + "utils.py", D + "core.py"], [("bound propagation", LY + "decomon_layers.py: DecomonConv2D.call")])
prop("C04", "Forward ReLU relaxations enclose the ReLU for every slope strategy",
     "If incoming bounds are valid at a point, the bounds after a ReLU (as a layer, an activation or a layer's activation argument) enclose the ReLU of the value there, whichever relaxation slope is selected, in every propagation mode. Stable neurons, intervals touching zero and degenerate intervals are included, and nothing undefined (division by a zero width) is ever produced.",
     ["inputs", "configurations"], "all valid incoming bounds, points and domains, five slope strategies, three modes",
     "Tests sample boxes and points; the sign cases of both bounds, ties and empty widths are only partly reached.",
     [LY + "activations.py", D + "utils.py", LY + "decomon_layers.py"], [("relaxation", D + "utils.py: relu_, get_linear_hull_relu, get_linear_hull_s_shape helpers")])
prop("C05", "Forward smooth activations enclose the function",
     "If incoming bounds are valid at a point, the bounds after sigmoid, tanh, softsign, softplus, exponential, ELU/SELU-like or softmax activations that decomon accepts enclose the function's value there, in every propagation mode. An activation that is not supported is refused when the network is converted, never silently mishandled.",
     ["inputs", "configurations"], "all valid incoming bounds and points; functions known through monotonicity, convexity and derivative identities",
     "The tangent selection depends on where the interval sits relative to the inflexion point; tests sample a few intervals.",
     [LY + "activations.py", D + "utils.py"], [("relaxations", D + "utils.py: get_linear_hull_s_shape, get_linear_softplus_hull, exp, softplus_")])
prop("C06", "Forward shape-changing and per-element affine layers preserve enclosure",
     "If incoming bounds are valid at a point, the bounds after flattening, reshaping, permuting, dropout at inference, batch normalisation and linear activations enclose the layer's value there, element for element, whatever the data format, axis or weights.",
     ["inputs", "configurations"], "all valid incoming bounds and points, shapes, permutations, data formats, normalisation statistics",
     "A wrong element order only shows with data formats or axes the tests never use.",
     [LY + "decomon_layers.py", LY + "decomon_reshape.py"], [("layers", LY + "decomon_layers.py: DecomonFlatten, DecomonBatchNormalization"), ("reshape", LY + "decomon_reshape.py: DecomonReshape, DecomonPermute")])
prop("C07", "Forward merge layers enclose the merged output",
     "If the bounds of every branch are valid at a common point, the bounds after Add, Subtract, Average, Minimum, Maximum, Multiply, Concatenate and Dot enclose what the Keras layer computes there, for any number of branches the layer accepts, in every propagation mode.",
     ["inputs", "configurations"], "all valid incoming bounds per branch, all common points, two to four branches",
     "Tests use two branches fed with the same input, at sampled points.",
     [LY + "decomon_merge_layers.py", D + "utils.py", LY + "utils.py"], [("merges", LY + "decomon_merge_layers.py: DecomonAdd ... DecomonDot")])
prop("C08", "Forward max pooling encloses the pooled output",
     "If incoming bounds are valid at a point, the bounds after a 2D max pooling enclose the Keras pooling of the values, for every pool size, stride and padding, with the fast and with the exact relaxation.",
     ["inputs", "configurations"], "all valid incoming bounds and points; pool shapes up to 3x2 and 2x3, strides, paddings",
     "Tests only use square pools and one padding.",
     [LY + "maxpooling.py", LY + "utils.py"], [("pooling", LY + "maxpooling.py: DecomonMaxPooling2D")])

prop("C09", "Elementwise bound utilities enclose the operation they name",
     "The public functions on lists of bounds (sum, max, min, abs, square, opposite, relu, multiply, maximum, minimum, add, subtract, sort, expand_dims, permute_dimensions, broadcast, split, inverse of a positive quantity, exp, log, softplus) return bounds that enclose the operation they name, applied to any values enclosed by their inputs, in every propagation mode.",
     ["inputs", "configurations"], "all valid incoming bounds and all points, all axes of inputs up to rank 3",
     "Tests compare on the sampled boxes only, and several of these functions have no test in some modes.",
     [LY + "utils.py", D + "utils.py"], [("functions on bounds", LY + "utils.py: sum, max_, abs, frac_pos, multiply, exp, log, sort, permute_dimensions"), ("binary functions", D + "utils.py: add, subtract, maximum, minimum, minus, relu_")])

prop("C10", "Backward linear layers equal the layer",
     "The affine bounds a backward layer (dense, convolution, flatten, reshape, permute, dropout at inference, batch normalisation, input) returns on its flattened input equal the Keras layer it stands for, for every input value. This holds for any weights, strides, dilations, paddings, axes and data formats the layer accepts; a layer the backward pass cannot express is refused.",
     ["inputs", "configurations"], "all weights, all input values; layer configurations up to the stated sizes",
     "Tests use few kernels and shapes; a transposed or reordered matrix agrees on symmetric or one-dimensional examples.",
     [BL + "backward_layers.py", BL + "utils_conv.py", BL + "convert.py"], [("backward layers", BL + "backward_layers.py: BackwardDense ... BackwardBatchNormalization"), ("Toeplitz matrix", BL + "utils_conv.py: get_toeplitz")])
prop("C11", "Backward activations enclose the activation",
     "If incoming bounds are valid at a point, the affine functions of the activation's own flattened input that a backward activation layer returns enclose the activation's value there, for every slope strategy and propagation mode. An activation that is not supported is refused.",
     ["inputs", "configurations"], "all valid incoming bounds and values, slopes, modes, perturbation domains, input shapes",
     "Tests sample intervals; slope strategies and multi-dimensional inputs are barely covered.",
     [BL + "activations.py", BL + "backward_layers.py", D + "utils.py"], [("backward activations", BL + "activations.py: backward_relu, backward_sigmoid, backward_tanh, backward_softplus, backward_softsign")])
prop("C12", "Backward merges enclose the merged value",
     "If the bounds of every branch are valid at a common point, each affine function a backward merge (add, subtract, maximum, minimum, average, multiply, concatenate, and the functions behind them) returns for one of its branches encloses the merged value at that point, as a function of that branch alone; for a concatenation, the affine functions of the branches reproduce the concatenated value together.",
     ["inputs", "configurations"], "all valid incoming bounds per branch and all common points, incoming backward bounds included",
     "Tests cover three functions with scalar inputs, unit weights and null biases.",
     [BL + "backward_merge.py", BL + "utils.py"], [("backward merges", BL + "backward_merge.py: BackwardAdd ... BackwardMultiply"), ("functions", BL + "utils.py: backward_add, backward_maximum, backward_minimum, backward_subtract, backward_multiply")])
prop("C13", "Composition of affine bounds is sound",
     "Composing affine bounds valid for a layer with affine bounds valid for what follows (merging with the previous layer, fusing with the bounds of the network input, and back-propagating user-given backward bounds through clone) yields bounds that enclose the composed function, for every sign pattern of the weights; when the lower and upper functions coincide, the composition is exact.",
     ["inputs"], "all affine bounds, inner values between them, and points",
     "The result depends on the sign of every weight; tests sample a few.",
     [MO + "crown.py", MO + "backward_cloning.py", MO + "convert.py"], [("composition", MO + "crown.py: merge_with_previous, MergeWithPrevious, Fuse"), ("back_bounds", MO + "backward_cloning.py: crown_model, convert_backward")])
prop("C14", "Changing the representation of bounds keeps them valid",
     "Converting bounds from one propagation mode to another, from backward bounds to any mode, or completing them with bounds deduced from the others, keeps them valid: whatever the converted bounds enclose was enclosed before, the perturbation domain of the network input is kept, and no bound becomes looser than the one it is deduced from when asked to be tight; constant bounds converted from affine or hybrid ones are no looser than the extremal values of the affine ones.",
     ["inputs", "configurations"], "all valid bounds, points, domains, pairs of modes",
     "Tests look at shapes of outputs or at sampled boxes.",
     [D + "core.py", MO + "utils.py", MO + "crown.py"], [("mode conversion", MO + "utils.py: Convert2Mode"), ("completion", D + "core.py: InputsOutputsSpec.get_fullinputs_from_inputsformode"), ("backward", MO + "crown.py: Convert2BackwardMode")])
prop("C15", "The bounds of a converted network enclose it over a box",
     "For any network decomon accepts to convert and any box, the bounds the converted network returns enclose each output of the Keras network at every point of the box. This holds for the seven conversion methods, for every slope strategy, for networks with merges, shared or nested layers and several outputs, and the bounds of all the outputs are returned, in the order of the outputs.",
     ["inputs", "configurations"], "all boxes and points (small networks), all points of fixed boxes (larger ones), conversion methods, architectures",
     "Tests evaluate a few boxes and compare with sampled points of a handful of architectures.",
     [MO + "convert.py", MO + "forward_cloning.py", MO + "backward_cloning.py", MO + "crown.py", MO + "utils.py"], [("conversion", MO + "convert.py: clone, convert"), ("forward", MO + "forward_cloning.py: convert_forward_functional_model"), ("backward", MO + "backward_cloning.py: crown_, crown_model, get_input_nodes")])
prop("C16", "The bounds of a converted network enclose it over a ball",
     "For a network converted for an L-infinity, L1 or L2 ball, the bounds enclose each output of the Keras network at every point of the ball, for every conversion method and any centre, including a null radius.",
     ["inputs", "configurations"], "all points of the balls, all centres (small networks), three norms, seven methods",
     "Conversion for balls is tested only for a few methods and boxes.",
     [MO + "crown.py", MO + "utils.py", MO + "convert.py", D + "core.py"], [("inputs", MO + "utils.py: get_input_tensors"), ("backward", MO + "crown.py: Convert2BackwardMode")])
prop("C17", "Preprocessing a network keeps the function it computes",
     "Splitting activations out of layers, and preprocessing a network before conversion, yields a network computing the same outputs in the same order for every input, sharing the weights of the original. Replacing a final softmax by a linear activation changes nothing else, and converting a network leaves the original network unchanged.",
     ["inputs", "configurations"], "all inputs, weights as variables, architectures",
     "Tests compare predictions of a few architectures on random inputs.",
     [MO + "convert.py", MO + "utils.py", LY + "utils.py", D + "keras_utils.py"], [("preprocessing", MO + "convert.py: preprocess_keras_model, split_activations_in_keras_model"), ("split", MO + "utils.py: split_activation"), ("softmax", LY + "utils.py: softmax_to_linear")])
prop("C18", "Certified ranges enclose the network on the given set",
     "The upper and lower values returned by get_upper_box, get_lower_box, get_range_box, get_upper_noise, get_lower_noise and get_range_noise enclose the network's outputs at every point of the boxes or balls asked for, per sample and per output. This holds when a Keras network is given instead of a converted one, and when boxes are split into sub-boxes.",
     ["inputs", "configurations"], "all boxes and points; batches, sub-boxes, outputs, norms, propagation modes",
     "Tests check a few boxes, one norm and sampled points.",
     [D + "wrapper.py"], [("ranges", D + "wrapper.py: get_upper_box, get_lower_box, get_range_box, get_upper_noise, get_lower_noise, get_range_noise")])
prop("C19", "Robustness certificates are sound",
     "The score returned by get_adv_box (get_adv_noise) for a sample is an upper bound of the largest margin of a target class over a source class at any point of the box (ball), so that a negative score certifies that no target class reaches the source class; the score of check_adv_box is reached by the margin of a target class over a source class somewhere in the box, so that a positive score proves that an adversarial example exists. This holds for labels given as an index, as indexes or as 0/1 indicators per sample, with or without target labels, in batches, for sub-boxes, and for networks converted with back_bounds.",
     ["inputs", "configurations"], "all boxes and points, source and target labels, batches",
     "Tests check the source label only, on few networks.",
     [D + "wrapper.py"], [("certificates", D + "wrapper.py: get_adv_box, check_adv_box, get_adv_noise")])
prop("C20", "Box refinement keeps the guarantees",
     "Refining a box into sub-boxes covers the whole box with sub-boxes lying inside it, and the bounds and certificates obtained by refining are sound on the whole initial box.",
     ["inputs", "histories"], "all boxes, split points, numbers of sub-boxes, splitting orders",
     "Coverage of the box by the sub-boxes has no test; only shapes are looked at.",
     [D + "wrapper.py"], [("refinement", D + "wrapper.py: refine_boxes, refine_box")])
prop("C21", "Losses and metrics compute the certified quantity",
     "The layers and losses built on certified bounds return bounds of what they name: the adversarial score is an upper bound of the largest margin of any other class over the true one at every point of the domain, the upper score bounds the value of each class below its label, and the cross-entropy-like and margin losses are upper bounds of the same loss at every point.",
     ["inputs", "configurations"], "all valid bounds, points, labels, domains, modes",
     "Tests look at shapes and serialisation.",
     ["src/decomon/metrics/loss.py", "src/decomon/metrics/metric.py"], [("metrics", "src/decomon/metrics/metric.py: AdversarialCheck, AdversarialScore, UpperScore"), ("losses", "src/decomon/metrics/loss.py: get_model, get_upper_loss, get_adv_loss, DecomonLossFusion")])
prop("C22", "The convex/concave decomposition sums to the value and keeps its shape",
     "With dc_decomp, the two components propagated through a layer always add up to the layer's value at the point, and stay convex (respectively concave) as functions of the network input.",
     ["inputs", "configurations"], "all values, layers and functions that accept dc_decomp",
     "Tests compare sums on sampled points and never test convexity.",
     [LY + "decomon_layers.py", LY + "utils.py", D + "utils.py"], [("decomposition", LY + "decomon_layers.py"), ("functions", D + "utils.py: relu_, maximum, minus")])
prop("C23", "Bounds stay sound for every value of the optimisable slopes",
     "With finetune, the bounds of activations enclose their value whatever the values the slope parameters take within the interval their constraint projects to, so that optimising them never loses soundness; the constraints project any value into that interval, and their initial value, which reset_finetuning restores, gives the bounds of the conversion without them.",
     ["inputs", "histories"], "all parameter values in [0,1], all valid incoming bounds and points, modes, slopes",
     "Tests evaluate the initial values only.",
     [LY + "activations.py", LY + "utils.py", D + "utils.py", BL + "backward_layers.py"], [("parameters", LY + "utils.py: ClipAlpha, NonNeg, NonPos, ClipAlphaAndSumtoOne"), ("use", D + "utils.py: get_linear_hull_relu, relu_; " + BL + "backward_layers.py: BackwardActivation")])
prop("C24", "Samples of a batch do not influence each other",
     "The bounds returned for one sample of a batch depend on that sample alone: they are those returned when it is given by itself.",
     ["inputs", "configurations"], "all pairs of samples in a batch; layers, backward layers and networks",
     "A leak between samples only shows for batches whose samples differ in the right way.",
     [LY + "decomon_layers.py", D + "keras_utils.py", D + "core.py", BL + "backward_layers.py"], [("per-sample identity and diagonal", D + "keras_utils.py: BatchedIdentityLike, BatchedDiagLike"), ("layers", LY + "decomon_layers.py")])
prop("C25", "Bounds follow the weights of the original network",
     "With shared weights, the bounds of a converted network are those of the original network with its current weights, whatever values these take after the conversion; otherwise the converted network holds the weights copied at the conversion. Converting never changes a weight of the original network.",
     ["inputs", "histories"], "all weight values assigned after conversion, methods",
     "Tests convert once and evaluate with the weights of the conversion.",
     [LY + "core.py", LY + "decomon_layers.py", D + "keras_utils.py", LY + "convert.py"], [("sharing", LY + "core.py: DecomonLayer.share_weights, reset_layer; " + D + "keras_utils.py: share_weights_and_build")])
prop("C26", "Bounds are exact where nothing is relaxed",
     "Where no relaxation is needed, none is lost: a box reduced to a point gives bounds equal to the output there; networks made of affine layers (and of relu units whose sign does not change over the domain) get their exact range from the affine, hybrid and crown methods; one layer with interval bounds gives the exact range of each of its outputs; the hybrid constant bounds are never looser than those of either part.",
     ["inputs", "configurations"], "all points and boxes, methods, slopes",
     "Tests sample points and compare with loose inequalities: bounds that are sound but loose pass all of them.",
     [LY + "decomon_layers.py", D + "utils.py", MO + "crown.py", D + "core.py"], [("relaxations", D + "utils.py: get_linear_hull_relu"), ("hybrid", LY + "decomon_layers.py: DecomonDense.call")])
prop("C27", "Elementary tensor helpers compute what they name",
     "The helpers the propagation is built from are exactly the operation they name, for every input value: the per-sample identity and diagonal, the identity bounds, the matrix form of a convolution, the derivatives of the activations, and the linear functions above and below a maximum.",
     ["inputs", "configurations"], "all input values, shapes up to the stated sizes",
     "Tests check examples with symmetric values.",
     [D + "keras_utils.py", BL + "utils_conv.py", LY + "utils_pooling.py", D + "utils.py"], [("helpers", D + "keras_utils.py: BatchedIdentityLike, BatchedDiagLike"), ("convolution", BL + "utils_conv.py: get_toeplitz"), ("pooling", LY + "utils_pooling.py: get_upper_linear_hull_max, get_lower_linear_hull_max"), ("derivatives", D + "utils.py: softsign_prime and its peers")])
prop("C28", "A layer rebuilt from its configuration gives the same bounds",
     "get_config followed by from_config gives, for every decomon layer, backward layer, conversion layer and metric layer, a layer that returns the same bounds on every input (given the same weights): no option that changes the bounds is missing from the configuration.",
     ["inputs", "configurations"], "all bounds given to the layer, options of the layer",
     "Tests never rebuild layers from their configuration with options other than the default ones.",
     [LY + "core.py", LY + "decomon_layers.py", BL + "core.py", BL + "backward_layers.py", MO + "crown.py", MO + "utils.py", D + "metrics/metric.py", D + "metrics/loss.py"],
     [("configurations", LY + "core.py: DecomonLayer.get_config; " + BL + "backward_layers.py: BackwardActivation.get_config; " + MO + "utils.py: Convert2Mode.get_config")])

LEVEL_NOTE = ("Bounded SMT verification of the current source: unsat over every real value within the bounds listed in the evidence "
              "(sizes, value ranges); outside: larger shapes, float rounding. Trusts the graph interpreter (validated against the real "
              "code on concrete points in every case), z3, and TensorFlow's tracing.")


def main():
    for p in P:
        p["built"] = os.path.exists(os.path.join(HERE, "props", p["id"] + ".py"))
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            anchors = dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]])
            if p["observe"]:
                anchors["observe_at"] = p["observe"]
            f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"],
                                    quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"],
                                    anchors=anchors)) + "\n")
    man = dict(
        version=1,
        setup_cmd="python3 check.py --setup",
        checks=[
            dict(property=p["id"], quick_cmd=f"python3 check.py {p['id']} --tier quick",
                 thorough_cmd=f"python3 check.py {p['id']} --tier thorough",
                 technique="bounded symbolic execution of the real code's dataflow graph + SMT (z3), counterexamples replayed",
                 level="other", level_note=LEVEL_NOTE + (" " + p["note"] if p["note"] else ""))
            for p in P if p["built"]
        ],
        not_applicable=[dict(property=p["id"], reason=p["na"] or "check not built yet") for p in P if not p["built"]],
    )
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)


main()
