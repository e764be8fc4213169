SING = "bounded: single operators on small tensors, concrete shapes and attributes enumerated, every input and every stored parameter symbolic; reals"
NOTE["C01"] = "bounded: single convolutions of small size, every stored weight and input symbolic; reals"
for _i in ("C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10"):
    NOTE[_i] = SING
NOTE["C02"] = "bounded: every registered Conv2D and pooling version on single convolutions and two-convolution networks of small size; weights and inputs symbolic (concrete weights for winograd, whose filters are transformed); reals"
NOTE["C11"] = "bounded: the single-operator and small multi-operator programs of C01-C10; the package's own compute_inference and forward functions executed on symbolic samples; two samples, two runs; reals"
NOTE["C12"] = "bounded: every one-sink DAG of at most 4 operators and random ones of 5 to 7 (thorough: 9) over a dozen operator kinds; the structures are enumerated, the values symbolic; reals"
NOTE["C13"] = "bounded: the same DAG shapes over operators the fusion patterns match, generated with optimisation on; the structures are enumerated, the values symbolic (concrete parameters where a pattern rewrites them); reals"
NOTE["C14"] = "bounded: models of each front end (PyTorch, NNET, JSON), single operators and random branching networks; structures enumerated, values symbolic; reals"
NOTE["C15"] = "bounded: the programs of C01-C13 and randomly assembled mixed networks; the structures are enumerated, the values symbolic; every array the network declares is a checked object of its declared size, uninitialised contents are distinct symbols"
NOTE["C16"] = "bounded: the programs of C15; the context starts with arbitrary contents left by an earlier call; the structures are enumerated, the values symbolic"
NOTE["C17"] = "bounded: networks of 1 to 12 inputs and outputs, 1 to 97 samples (thorough: 130), every batch size up to 70; inference uninterpreted; every order of the iterations of a parallel region"
NOTE["C24"] = "bounded: sizes, kernels, dilations and pads symbolic integers over stated ranges, strides 1 to 12 in turn; every path of compute_padding and of the layer constructors"
TECH["C17"] = "symbolic execution of the generated main program and batch loop (clang LLVM IR) with uninterpreted inference and a symbolic batch size; SMT decides order, uniqueness and disjointness of the parallel iterations"
TECH["C24"] = "symbolic execution of the package's Python functions on symbolic integers, every path explored, SMT equivalence with the padding rules"
LEVELS["C24"] = "model_checking"
NOTE["C20"] = "bounded: NNET networks of 1 to 3 layers and at most 5 inputs and outputs (thorough: 7), symbolic inputs, coefficients and weights; the generated C and the Python reference; reals"
TECH["C20"] = "symbolic execution of the generated C (clang LLVM IR) and of the Python reference; SMT equivalence with clip, standardise, network, de-standardise"
NOTE["C18"] = "bounded: the literal encoder over every bit pattern of a float32/float64 and its decimal text over special values; every array flattening over small symbolic arrays in every memory order; small programs of every target, parameter form and data type with values that need every bit"
TECH["C18"] = "symbolic execution of the package's encoders over symbolic bit patterns, text and arrays; the emitted sources, binaries and .dat files compiled and read by the symbolic executor of the LLVM IR; SMT equality with the model's values"
NOTE["C25"] = "bounded: every value of two doubles and tolerances as IEEE-754 (special values included) per line; files of at most 3 (thorough: 4) lines of at most 3 values; single, double and untyped precision"
TECH["C25"] = "symbolic execution of the package's comparison functions on symbolic IEEE-754 doubles, every path explored, SMT (floating point theory) equality of verdict and maxima with the stated rule"
LEVELS["C25"] = "model_checking"
NOTE["C21"] = "bounded: every convolution and pooling geometry of the matrix and random networks of up to 7 (thorough: 9) layers, ONNX and JSON; structures enumerated, inputs and parameters symbolic; layers without channels-last code refused or equal; reals"
TECH["C21"] = "symbolic execution of the channels-last and of the channels-first C generated for one model (clang LLVM IR); SMT equivalence of the two programs' predictions, counterexamples replayed on the compiled programs"
NOTE["C26"] = "bounded: every operator of the importer (and others) under the attribute values, operand arrangements, ranks 1-5, opset versions and graph arrangements of checks/c26.py; structures enumerated, inputs and parameters symbolic; reals"
TECH["C26"] = "symbolic execution of whatever C is generated (clang LLVM IR); SMT equivalence with the ONNX standard for every accepted model, refusals allowed, counterexamples replayed on the compiled program"
NOTE["C22"] = "bounded: the single-operator programs of C01-C10, the models of the PyTorch, NNET and JSON front ends and random branching networks, with and without optimisation; structures enumerated, inputs and parameters symbolic; reals"
TECH["C22"] = "symbolic evaluation of the exported model and of the original one under the semantics of the ONNX standard; SMT equivalence of every output, structural validity by the ONNX checker, counterexamples replayed with onnxruntime"
NOTE["C23"] = "bounded: small networks of each front end under every generation option and pairs of options; structures and options enumerated, values symbolic; one inference per dump; reals"
TECH["C23"] = "symbolic execution of the generated C (clang LLVM IR), its debug printing included; SMT equivalence of predictions and of the dumped values, read back by the package's tool, with an independent model and the Python reference"
NOTE["C19"] = "bounded: the declared Q formats, operand orders and shapes of checks/c19.py; 16-bit inputs and weights symbolic under the premise that exact accumulators fit 32 bits and exact results 16 bits; every real constant; every format string up to the stated length"
TECH["C19"] = "symbolic execution of the generated integer C (clang LLVM IR) and of the Python reference as polynomials modulo 2^32; SMT equality with an exact fixed-point specification (linear abstraction, then bit-vectors); quantize_layers and the format parser's regular expression decided over reals and Z3 strings; counterexamples replayed natively"
