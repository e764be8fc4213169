"""Source of properties.jsonl (run: python3 tools/props.py)."""
import json, pathlib
S = "src/acetone_nnet/"
L = S + "generator/layers/"
T = S + "templates/layers/"
NN = S + "generator/neural_network.py"
P = []

def p(id, title, statement, over, text, why, files, mech, observe, hook=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech],
                          "observe_at": [observe], "hook_needed": hook}})

INF = "C function inference() of the generated inference.c, called with any Context and any nn_input"
p("C01", "Generated convolution code computes the model's convolution",
  "For every 2-D convolution the tool accepts (any kernel, stride, padding on each side, dilation, bias or none, fused activation, square or not), the generated C writes at each output position exactly the convolution of the input with the model's filters, for every input and every weight value. This holds for each general-purpose algorithm (6loops and the gemm family) that can be selected.",
  ["inputs", "configurations"], "all input tensors and all weights, over a matrix of convolution geometries and algorithms",
  "Tests compare a few fixed geometries (mostly square, stride 1, symmetric padding) on one random input with a float tolerance.",
  [L + "convolution/Conv2D.py", L + "convolution/Conv2D6loops.py", L + "convolution/Conv2DStdGemm.py", L + "convolution/Conv2DGemm.py", T + "Conv/"],
  [("index arithmetic of the 6-loops template", T + "Conv/template_Conv_6loops.c.tpl"), ("im2col and gemm", T + "Conv/template_Conv_std_gemm.c.tpl")], INF)
p("C02", "Selecting another implementation version never changes the result",
  "For a given network, choosing any other available implementation of a layer (convolution by 6 loops, any gemm variant, indirect gemm, direct block or winograd, gemm variant of a Gemm layer) generates C code that compiles and computes the same function for every input and every weight value.",
  ["inputs", "configurations"], "all inputs and weights; every registered version of the convolution and Gemm layers over a geometry matrix",
  "Tests never compare versions with each other and several versions are exercised on one geometry or not at all.",
  [S + "versioning/versioning.py", S + "versioning/layer_factories.py", L + "convolution/"],
  [("version selection", S + "versioning/versioning.py"), ("version factories", S + "versioning/layer_factories.py")], INF)
p("C03", "Generated pooling code computes the model's pooling",
  "Max, average, global max and global average pooling in the generated C produce, at each output position, the maximum (or mean over the in-bounds window elements) of exactly the input elements under the window, for every kernel, stride and per-side padding accepted and every input, including inputs that are all negative.",
  ["inputs", "configurations"], "all inputs, over a matrix of pooling geometries",
  "Tests use one or two square windows with random positive-and-negative data; window-border mistakes and padding on one side stay unobserved.",
  [L + "pooling/", T + "template_Pooling2D.c.tpl"],
  [("window loops and border test", T + "template_Pooling2D.c.tpl")], INF)
p("C04", "Generated Dense, MatMul and Gemm code computes the matrix product",
  "For fully connected layers, MatMul (constant or two computed operands, on either side) and Gemm (transA, transB, alpha, beta, any accepted C operand), the generated C computes the model's matrix expression for every input and every parameter value.",
  ["inputs", "configurations"], "all inputs and parameters, over a matrix of shapes, sides and transposition flags",
  "Tests use one shape per variant with one random input.",
  [L + "dense/", L + "matmul/", L + "gemm/", T + "template_Dense.c.tpl", T + "template_MatMul.c.tpl", T + "Gemm/"],
  [("gemm index expressions", L + "gemm/GemmDefault.py"), ("dense loop", T + "template_Dense.c.tpl")], INF)
p("C05", "Generated elementwise operators apply broadcasting as the model specifies",
  "Add, Sub, Mul, Div, Max, Min and Mean layers with two or more computed operands, or with a constant operand in either position, produce in the generated C the elementwise result with the operands broadcast as ONNX specifies and in the model's operand order, for every value of the operands.",
  ["inputs", "configurations"], "all operand values, over a matrix of operators, operand counts, operand shapes and constant positions",
  "Tests check a handful of shapes with random data, and no constant in first position or constant containing particular values.",
  [L + "broadcast/", T + "template_Broadcast.c.tpl", S + "importers/ONNX_importer/create_layer.py"],
  [("broadcast index expressions", T + "template_Broadcast.c.tpl"), ("constant operand import", S + "importers/ONNX_importer/create_layer.py")], INF)
p("C06", "Generated reductions reduce exactly the requested axes",
  "ReduceSum, ReduceMean, ReduceMax, ReduceMin and ReduceProd, for every accepted set of axes (negative ones included), keepdims or not, and a fused activation or none, produce in the generated C the reduction of exactly the elements along these axes, for every input.",
  ["inputs", "configurations"], "all inputs, over every axes set, keepdims flag and several non-cubic shapes",
  "Tests draw one random input per axes set, with one shape.",
  [L + "reduce/", T + "template_Reduce.c.tpl"],
  [("reduction loops and strides", L + "reduce/Reduce.py"), ("reduction template", T + "template_Reduce.c.tpl")], INF)
p("C07", "Data movement operators move every element to the right place",
  "Concat, Transpose, Tile, Gather, GatherElements, Flatten, Reshape and the identity operators produce in the generated C exactly the permutation, selection or repetition of input elements that the model specifies, for every input, axis and constant index or repeat value accepted.",
  ["inputs", "configurations"], "all inputs, over a matrix of shapes, axes, permutations, indices and repeats",
  "Tests use one shape with random data per operator; symmetric sizes hide swapped axes.",
  [L + "concatenate/", L + "transpose/", L + "tile/", L + "gather/", L + "gather_elements/", L + "flatten/"],
  [("index maps of the templates", T)], INF)
p("C08", "Generated padding code pads exactly as the model specifies",
  "For each padding mode (constant, edge, reflect, wrap) and every per-side amount accepted on every axis, the generated C places each input element and each padding value at the position the model specifies, for every input and padding constant.",
  ["inputs", "configurations"], "all inputs, over modes and asymmetric pads on all axes",
  "Only constant mode is tested, with a few pads and random data.",
  [L + "padding/", T + "Pad/"],
  [("pad templates", T + "Pad/")], INF)
p("C09", "Generated resizing code interpolates as the model specifies",
  "For nearest, linear and cubic resizing, each accepted coordinate transformation and rounding mode, up- or down-sampling by scales or sizes, one or two spatial axes, the generated C computes the interpolation defined by the model for every input.",
  ["inputs", "configurations"], "all inputs in a box, over modes, coordinate transformations and scale pairs",
  "Tests check a few scale factors in few coordinate modes with a tolerance and random data.",
  [L + "resize/", T + "Resize/"],
  [("coordinate transformation strings", L + "resize/Resize.py"), ("interpolation templates", T + "Resize/")], INF)
p("C10", "Activations, softmax and batch normalisation are exact in the generated C",
  "Every activation function (stand-alone or fused in the preceding layer), Softmax on every accepted axis, and batch normalisation compute in the generated C the function the model specifies, for every input and every parameter value.",
  ["inputs", "configurations"], "all inputs and parameters, over all activations and their parameters, softmax axes and tensor ranks",
  "Tests use random inputs of one shape and default parameter values; branch boundaries are not reached.",
  [S + "generator/activation_functions.py", L + "activation_layers/", L + "softmax/", L + "batch_normalization/"],
  [("C expressions of the activations", S + "generator/activation_functions.py"), ("softmax template", T + "template_Softmax.c.tpl")], INF)
p("C11", "The Python reference inference computes the same function as the C code",
  "The in-process reference inference returns, for every input, the same outputs as the generated C and the model; running it changes neither the caller's input nor the network, so that a second run on the same data returns the same result.",
  ["inputs", "programs"], "all inputs, over one or more models per layer type and per branching pattern",
  "Tests compare one random input per layer with a tolerance and run the reference once.",
  [NN, L], [("compute_inference", NN), ("forward_path_layer of each layer", L)],
  "return value of CodeGenerator.compute_inference() and the arrays passed in")
p("C12", "Buffer sharing between layers never clobbers a live tensor",
  "Whatever the branching and merging structure of an accepted network, every layer of the generated C reads the values its producers computed: no shared output path, temporary or saved-constant buffer is overwritten before its last reader has run, and every layer runs after its producers.",
  ["inputs", "programs"], "all inputs, over all small layer graphs up to a bound, plus larger sampled graph shapes",
  "Tests contain a handful of graph shapes, nearly all linear chains.",
  [S + "graph/graph_interpretor.py", NN, S + "templates/memory_layout/"],
  [("topological sort, liveness and buffer assignment", S + "graph/graph_interpretor.py")], INF)
p("C13", "Graph optimisation preserves the function computed by the network",
  "Generating with optimisation enabled yields C code that computes, for every input, the same function as the model: each fusion (activation into its producer, convolution with batch normalisation, MatMul with Add, Sigmoid with Mul) is applied only where it is sound, in particular not across a tensor that has another consumer.",
  ["inputs", "programs"], "all inputs, over positive and near-miss instances of each pattern",
  "Tests check only the positive patterns on one random input; no near-miss graph is generated.",
  [S + "pattern_matching/"], [("pattern matcher and patterns", S + "pattern_matching/patterns/")], INF)
p("C14", "PyTorch, NNET and JSON front ends preserve the model's function",
  "A network imported from a PyTorch exported program, an NNET file or an ACETONE JSON file generates C code computing, for every input, the function of the source model: every layer attribute and parameter of the source reaches the generated code unchanged.",
  ["inputs", "programs"], "all inputs, over models exercising each supported construct of each format",
  "Tests have one linear layer and one large network per format, on one random input.",
  [S + "importers/PYTORCH_importer/", S + "importers/NNET_importer/", S + "importers/JSON_importer/"],
  [("PyTorch graph translation", S + "importers/PYTORCH_importer/parse_pytorch.py"), ("NNET reader", S + "importers/NNET_importer/parser_NNET.py")], INF)
p("C15", "Generated C never accesses memory out of bounds or uninitialised",
  "For every accepted network and every input, each read and write executed by the generated inference stays within the declared array it addresses, no value depends on uninitialised memory, and every element of the prediction array is written.",
  ["inputs", "configurations"], "all inputs, over the model matrices of all layer types, in every access of the real code",
  "A stray read or write inside the context structure changes no tested output; no test runs under a sanitizer.",
  [S + "templates/", S + "templates/memory_layout/", NN],
  [("buffer sizes", NN), ("templates' index expressions", T)], INF)
p("C16", "Generated inference is stateless, re-entrant and keeps its input intact",
  "The prediction is a function of the nn_input array and the parameters only: it does not depend on what earlier calls left in the context, the code writes nothing but its own context and the prediction array, and it leaves nn_input unchanged, so repeated and concurrent calls on distinct contexts agree.",
  ["inputs", "histories", "schedules"], "all inputs and all previous contents of the context, over the model matrices",
  "Tests run each binary once on few inputs; stale-state and sharing bugs need a second call or a concurrent one.",
  [S + "templates/", NN], [("context structure", S + "templates/template_header_file.c.tpl"), ("pre/post-processing", S + "templates/normalization/")], INF)
p("C17", "The generated main program evaluates each test sample exactly once, in order",
  "For any number of test samples, the generated main program and batch loop run the inference exactly once per sample, on that sample's data and a context no concurrent call uses, and write the predictions to the output file in sample order, one line per sample.",
  ["inputs", "configurations"], "all dataset contents and predictions, for every number of samples up to a bound covering below, at and above the batch size",
  "Tests run one sample almost everywhere.",
  [S + "templates/template_main_file.c.tpl", S + "templates/template_train_hook_file.c.tpl"],
  [("batch loop", S + "templates/template_train_hook_file.c.tpl"), ("output printing", S + "templates/template_main_file.c.tpl")],
  "calls to inference() and lines written by main() of the generated program")
p("C18", "Parameters and test data reach the C program bit-exactly",
  "Every weight, bias, constant, normalisation coefficient and test sample appears in the generated C (decimal or hexadecimal literals, or binary parameter and dataset files) with exactly its value in the chosen data type and at the position where the code reads it.",
  ["inputs", "configurations"], "all finite values of the data type for the literal encoders; every emitted array for the model matrix",
  "Tests compare outputs with tolerance, so lost digits or a special value (large, tiny, negative, integral) stay hidden.",
  [NN, S + "ir/layer.py", S + "templates/template_parameter_file.c.tpl", S + "templates/template_test_dataset_source.c.tpl"],
  [("literal formatting", S + "ir/layer.py"), ("dataset and parameter files", NN)],
  "the generated parameters.c, test_dataset.c, .dat files and global_vars.c as compiled")
p("C19", "Quantised inference follows its declared fixed-point formats",
  "With integer quantisation, the generated C and the Python reference compute the same integer result for every input in range, equal to the fixed-point semantics the Q formats declare (shift by the difference of fraction bits, bias aligned to the accumulator), and Q-format strings are parsed and rejected consistently.",
  ["inputs", "configurations"], "all input integers within range, over a matrix of Q formats, shapes and activations",
  "Tests use one or two formats on random inputs.",
  [S + "quantize/", L + "matmul/", L + "broadcast/add/", T + "template_QMatMul.vnni16.tpl"],
  [("Q-format parsing and shifts", S + "quantize/qform.py")], INF)
p("C20", "NNET input and output normalisation is applied exactly once",
  "With normalisation enabled on an NNET network, each input is clipped to its declared range and standardised with its own mean and range, and each output is de-standardised with the output mean and range, in the generated C and in the Python reference, for every input.",
  ["inputs", "configurations"], "all inputs, over NNET headers with distinct per-input ranges",
  "Tests use one ACAS network with one input set.",
  [S + "importers/NNET_importer/nnet_normalize.py", S + "templates/normalization/"],
  [("pre and post processing", S + "importers/NNET_importer/nnet_normalize.py")], INF)
p("C21", "Changing the generated data layout does not change the network",
  "Generating a network with channels-last instead of channels-first layout yields C code whose outputs are the same values, up to the documented ordering of the input and output tensors, for every input.",
  ["inputs", "configurations"], "all inputs, over networks of the layer types that have a channels-last implementation",
  "Tests exercise the channels-last layout on a few single layers.",
  [NN, L + "convolution/", T + "template_Pooling2D_HWC.c.tpl"],
  [("layout selection", NN)], INF)
p("C22", "Exporting an imported network to ONNX preserves its function",
  "Exporting a network ACETONE has imported back to ONNX yields a valid model that computes, for every input, the same function as the original model.",
  ["inputs", "programs"], "all inputs, over models of each exportable layer type",
  "No test runs the exporter.",
  [S + "exporters/"], [("layer exporters", S + "exporters/ONNX_exporter/acetone_to_onnx_layer.py")],
  "the ONNX model returned/saved by the exporter")
p("C23", "Debug mode and output options do not change the network's results",
  "Generating with debug mode, hexadecimal output, binary dataset or a target page size set yields C code that compiles and whose inference computes the same predictions for every input; in debug mode the values dumped for a layer are that layer's outputs.",
  ["inputs", "configurations"], "all inputs, over combinations of the generation options",
  "Tests never compile with debug mode and few use non-default options.",
  [NN, S + "templates/template_source_file.c.tpl", S + "debug/"],
  [("debug dumps in the source template", S + "templates/template_source_file.c.tpl")], INF)
p("C24", "Automatic padding amounts are those of the padding rule",
  "For each named padding rule (same-upper, same-lower, valid, explicit) the padding the importer computes gives, for every input size, kernel, stride and dilation, exactly the amounts the rule specifies per side, and the output size used by the code follows from them.",
  ["inputs", "configurations"], "all input sizes, kernels, strides and dilations (symbolic integers within stated bounds)",
  "Tests use a few sizes where the total padding is even or zero.",
  [L + "convolution/Conv2D.py", L + "pooling/Pooling2D.py"],
  [("compute_padding", L + "convolution/Conv2D.py")], "padding attributes of the imported layer and the generated C")
p("C25", "The output comparison tool accepts exactly matching outputs",
  "The comparison functions report agreement of two output files exactly when every pair of corresponding values of the compared samples agrees within the tolerance, for any values (special values included); a missing sample or a value count mismatch is never reported as agreement, and the maximal absolute and relative errors reported are the true maxima over all pairs.",
  ["inputs"], "all pairs of finite doubles and tolerances (symbolic floating point), and files of differing shape up to a bound",
  "No test covers the comparison command.",
  [S + "cli/compare.py"], [("compare_files and compare_lines", S + "cli/compare.py")],
  "exit value and report of the acetone_compare command's functions")
p("C26", "A model feature the tool does not support is refused, never miscompiled",
  "When an ONNX model uses an attribute, operand arrangement or operator variant beyond what the tool implements, the tool refuses the model with an error at import or generation; it never silently generates C code that computes something else.",
  ["inputs", "programs"], "all inputs, over models carrying each attribute value the standard allows for the imported operators",
  "Tests only use supported attribute values.",
  [S + "importers/ONNX_importer/create_layer.py", S + "importers/ONNX_importer/parser_ONNX.py"],
  [("attribute translation", S + "importers/ONNX_importer/create_layer.py")], INF)
if __name__ == "__main__":
    out = pathlib.Path(__file__).resolve().parent.parent / "properties.jsonl"
    out.write_text("".join(json.dumps(x) + "\n" for x in P))
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
    print(len(P))
