"""Source of properties.jsonl and MANIFEST.json:  /opt/venv/bin/python tools/props.py"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
DEFAULT_TECH = "symbolic execution of the real code, SMT (z3)"
P = []


def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None, level_note=None, na=None, tech=DEFAULT_TECH):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, state=state or [], observe=observe or [],
                  level_note=level_note, na=na, tech=tech))


TRUST = (" Trusted: torch's documented kernel semantics as encoded in symx/tensor.py (every counterexample is replayed on the real code), z3.")

prop("C01", "Secret sharing round trip",
     "Encrypting a tensor from any source party and revealing it gives the source's value to every party that is allowed to see it (all parties for reveal/get_plain_text, only dst when a destination is given, whose other parties get None or an empty placeholder), for every value, shape, source, scale, sharing type (arithmetic or binary) and number of parties. "
     "Tensors built from shares, broadcast, or re-shared keep the sum (or XOR) of the shares modulo 2^64.",
     ["inputs", "configurations"], "all 64-bit values and zero-share draws; sources 0..N-1; 1..4 parties; arithmetic and binary; listed shapes",
     "Tests draw a few random tensors with one source; a share that is wrong only for some source, party count or wrap-around is invisible to them.",
     ["crypten/mpc/primitives/arithmetic.py", "crypten/mpc/primitives/binary.py", "crypten/mpc/mpc.py", "crypten/__init__.py"],
     [("pseudo-random zero sharing", "ArithmeticSharedTensor.PRZS / BinarySharedTensor.PRZS"), ("share injection by src", "ArithmeticSharedTensor.__init__")],
     observe=["reveal", "get_plain_text"],
     level_note="For every value and draw within the stated party counts and shapes, decided by SMT on the symbolically executed real code." + TRUST)

prop("C02", "Fixed-point codec keeps values",
     "Encoding a real number at precision p and decoding it gives back a value within one unit of 2^-p (plus the rounding of the float type itself), integers round-trip exactly while they fit, and decoding is exact for every encoded word the float type can represent, positive or negative. "
     "Every way to give plaintext (python numbers, lists, numpy arrays, int and float tensors, encrypted or not) is encoded alike.",
     ["inputs"], "all finite binary32 inputs in range; all encoded words below 2^62; precisions 0..30",
     "Rounding errors appear at sparse magnitudes and signs; tests use small random values with loose tolerances.",
     ["crypten/encoder.py"], [("encode/decode", "FixedPointEncoder.encode, FixedPointEncoder.decode"), ("nearest integer division", "nearest_integer_division")],
     observe=["FixedPointEncoder.encode", "FixedPointEncoder.decode", "cryptensor().get_plain_text()"],
     level_note="Bit-precise IEEE-754 reasoning for float32 inputs in the stated ranges." + TRUST)

prop("C03", "Linear operations are homomorphic",
     "Addition, subtraction, negation, summation, mean, cumulative sum, trace, multiplication/matmul/convolution with public operands and in-place forms of encrypted tensors decrypt to what the same operation gives on the plaintexts, for every sharing, in every party, with broadcasting and mixed fixed-point scales. "
     "Out-of-place operations leave the values of their operands unchanged.",
     ["inputs", "configurations"], "all 64-bit shares and public operands; 1..4 parties; listed shapes and scales",
     "Tests use few shapes at one scale with tolerance 0.1 or so; an error in one party's share, one broadcast shape or one scale mixture escapes.",
     ["crypten/mpc/primitives/arithmetic.py", "crypten/mpc/mpc.py", "crypten/cryptensor.py"], [("arithmetic function dispatch", "ArithmeticSharedTensor._arithmetic_function"), ("linear pass-throughs", "REGULAR_FUNCTIONS")],
     observe=["reveal", "get_plain_text"],
     level_note="Exact modulo 2^64 for every sharing within stated shapes." + TRUST)

prop("C04", "Products of encrypted tensors are correct",
     "Multiplying two encrypted tensors (mul, matmul, conv1d/2d, transposed convolutions, square, prod, integer powers, dot/ger-like helpers) decrypts to the plaintext product, for every sharing of both operands, every triple and mask the provider may draw, every broadcast shape, stride, padding, dilation and group setting, and both tuple providers.",
     ["inputs", "configurations"], "all 64-bit shares and all protocol randomness; 1..3 parties (5 thorough); first- and third-party providers",
     "Correctness must hold for every random triple; tests see one draw per run, and test_mpc is not even among the reliable tests here.",
     ["crypten/mpc/primitives/beaver.py", "crypten/mpc/provider/tfp_provider.py", "crypten/mpc/provider/ttp_provider.py", "crypten/mpc/primitives/arithmetic.py"],
     [("Beaver protocol", "beaver.__beaver_protocol, beaver.square"), ("tuple generation", "TrustedFirstParty.generate_additive_triple, TrustedThirdParty")],
     observe=["reveal", "get_plain_text"],
     level_note="Polynomial identity modulo 2^64 for every share and draw; fixed-point rounding is abstracted (bounded in C06)." + TRUST)

prop("C05", "Replicated protocol is correct",
     "With the replicated three-party protocol selected, products, squares, matrix products and convolutions decrypt to the plaintext result for every sharing, truncation keeps its error bound, and party counts the protocol does not support are rejected instead of giving wrong values.",
     ["inputs", "configurations"], "all 64-bit shares; 3 parties (2, 4 and 5 must be rejected)",
     "The replicated tests are not among the reliable tests; tests never try other party counts.",
     ["crypten/mpc/primitives/replicated.py"], [("share exchange", "replicated.replicate_shares"), ("products", "replicated.__replicated_secret_sharing_protocol")],
     observe=["reveal"], level_note="Polynomial identity modulo 2^64." + TRUST)

prop("C06", "Rescaling and public division error bounds",
     "Truncating an encrypted value by a public integer (rescaling after products, division by public numbers, mean) gives the exact quotient up to a fixed small error (about one unit per party) for every sharing and all protocol randomness outside the documented wrap-around event, and the wrap counter used for it is exact for every list of shares.",
     ["inputs"], "all 64-bit shares; divisors 2..2^20; 1..4 parties",
     "The bound must hold for every share split, including shares close to wrap-around; tests see random shares.",
     ["crypten/mpc/primitives/arithmetic.py", "crypten/mpc/primitives/beaver.py", "crypten/common/util.py", "crypten/mpc/mpc.py"],
     [("local and wrap-count truncation", "ArithmeticSharedTensor.div_, beaver.truncate, beaver.wraps"), ("wrap counting", "util.count_wraps")],
     observe=["reveal"], level_note="For every share within the stated no-wrap condition." + TRUST)

prop("C07", "Binary-shared gates and circuits are exact",
     "On binary (XOR) shared words, xor, and, or, not, shifts, selection, addition, sums and all comparisons reconstruct bit for bit to the same operation on the plaintext 64-bit words, for every sharing, every triple and every public or private operand.",
     ["inputs", "configurations"], "all 64-bit words and sharings; 1..3 parties for gates; 1..2 (3 thorough) for circuits",
     "A carry or mask constant wrong at one bit position shows only for particular words; test_binary samples a few small integers.",
     ["crypten/mpc/primitives/binary.py", "crypten/mpc/primitives/circuit.py", "crypten/mpc/primitives/beaver.py"],
     [("AND gate", "beaver.AND"), ("prefix circuit", "circuit.__SPK_circuit, circuit.add, circuit.msb")], observe=["reveal"],
     level_note="Bit-precise for all 64-bit words." + TRUST)

prop("C08", "Conversions between sharings keep the value",
     "Converting an arithmetic sharing to a binary one or back (any number of bits, any fixed-point scale, any provider) yields the same value in every party, also when done through cryptensor ptypes and when converted twice; joint random numbers lie in [0, 1).",
     ["inputs", "configurations"], "all 64-bit words, sharings and draws; 1..5 parties; bits 1, 2, 8, 16, 64",
     "Conversion errors depend on carries between shares, which random tests on small values do not exercise.",
     ["crypten/mpc/primitives/converters.py", "crypten/mpc/primitives/beaver.py", "crypten/mpc/mpc.py"], [("A2B/B2A", "converters._A2B, converters._B2A"), ("single-bit B2A", "beaver.B2A_single_bit")],
     observe=["reveal"], level_note="Bit-precise for all words; with 3 or more parties the adder is replaced by its specification from C07." + TRUST)

prop("C09", "Comparisons and logic return exact 0/1",
     "Comparisons (lt, le, gt, ge, eq, ne), sign, abs, relu, where and other selections of encrypted tensors give exactly the plaintext answer (0 or 1, or the selected value) for every pair of values whose difference fits in the word, for every sharing, encrypted or public right-hand side, broadcasting and any fixed-point scale.",
     ["inputs", "configurations"], "all raw 64-bit values with |x-y| < 2^63; scales 1..2^20; 1..4 parties",
     "Comparison bugs sit at equality, sign boundaries and non-default scales; the tests of comparisons (test_mpc) are not in the reliable set and sample random values.",
     ["crypten/mpc/mpc.py", "crypten/common/functions/logic.py", "crypten/common/functions/maximum.py"],
     [("sign bit", "logic._ltz"), ("equality", "logic._eqz_2PC, logic.eq, logic.ne")], observe=["get_plain_text", "reveal"],
     level_note="Bit-precise; for 3 or more parties with the adder replaced by its specification." + TRUST)

prop("C10", "Max, min, argmax, argmin and pooling are correct",
     "max, min, argmax, argmin (one-hot or index, any dim, keepdim) and max/avg pooling of encrypted tensors equal the plaintext results for every input in range; with ties exactly one maximal position is selected and the reported maximum is the true one; every configurable max method agrees.",
     ["inputs", "configurations"], "real inputs |x| < 100, ties included; all four max methods; listed shapes (up to 9 elements), dims, kernels, strides, paddings",
     "Ordering-dependent bugs (ties, last element, odd sizes) need specific orderings; tests sample random tensors.",
     ["crypten/common/functions/maximum.py", "crypten/common/functions/pooling.py"], [("tournaments", "maximum._compute_pairwise_comparisons_for_steps, maximum._argmax_helper"), ("max pooling", "pooling.max_pool2d")],
     observe=["get_plain_text"], level_note="Every ordering and tie pattern within the listed shapes, exact reals." + TRUST)

prop("C11", "Data movement keeps values and layout",
     "Indexing, slicing, reshaping, permuting, concatenating, stacking, padding, gathering, scattering, repeating, splitting, cloning and in-place item assignment of encrypted tensors decrypt to the same operation on the plaintext, in every party and at any mix of fixed-point scales; copies do not alias their source.",
     ["inputs", "configurations"], "all 64-bit shares; 1..3 parties; listed shapes and arguments",
     "Tests check a handful of argument combinations at a single scale.",
     ["crypten/mpc/primitives/arithmetic.py", "crypten/mpc/primitives/binary.py", "crypten/mpc/mpc.py", "crypten/cryptensor.py", "crypten/common/functions/regular.py"],
     [("pass-through functions", "regular functions of ArithmeticSharedTensor"), ("scatter/gather/index_add", "ArithmeticSharedTensor.scatter etc.")], observe=["reveal", "get_plain_text"],
     level_note="Exact modulo 2^64 within stated shapes." + TRUST)

prop("C12", "Gradients of encrypted computations are correct",
     "For every differentiable operation, backward on encrypted tensors yields for each input the gradient that automatic differentiation of the plaintext operation yields, for every input in range and every upstream gradient, with broadcasting, and gradients accumulate over shared sub-expressions and repeated backward calls like in plain autograd.",
     ["inputs", "programs"], "symbolic real inputs and upstream gradients; listed operations, shapes, argument combinations and small compositions",
     "test_gradients is not in the reliable set; a wrong factor, axis or accumulation shows only for particular shapes or values.",
     ["crypten/gradients.py", "crypten/cryptensor.py"], [("autograd functions", "subclasses of AutogradFunction"), ("backward pass", "CrypTensor.backward")], observe=["grad.get_plain_text()"],
     level_note="Exact reals; transcendental functions uninterpreted and shared with the reference; derivative obtained by formal differentiation of the executed plaintext DAG." + TRUST)

prop("C13", "SGD and training step follow the update rule",
     "One or several SGD steps on encrypted parameters (learning rate, momentum, dampening, weight decay, Nesterov, parameter groups) produce exactly the parameters that the documented update rule produces on the plaintext, and zero_grad clears all gradients.",
     ["inputs", "histories"], "symbolic parameters and gradients; up to 4 steps; all option combinations",
     "Momentum state errors only show over several steps with particular options.",
     ["crypten/optim/sgd.py", "crypten/optim/optimizer.py"], [("step", "SGD.step")], observe=["parameters after step"],
     level_note="Exact reals." + TRUST)

prop("C14", "Network modules and losses compute what PyTorch computes",
     "Encrypted network modules (linear, convolution, normalisation, pooling, activations, reshaping, element-wise, containers, graphs) and losses give the output of the PyTorch counterpart on the plaintext parameters and inputs, encrypting and decrypting a model keeps its parameters, and backward through them gives the PyTorch gradients.",
     ["inputs", "programs", "configurations"], "symbolic real parameters and inputs, listed modules and small shapes",
     "Tests use random inputs with loose tolerance; combinations of options are not covered.",
     ["crypten/nn/module.py", "crypten/nn/loss.py", "crypten/nn/init.py"], [("module forward", "crypten.nn.module"), ("losses", "crypten.nn.loss")], observe=["forward output"],
     level_note="Exact reals; transcendental functions uninterpreted." + TRUST)

prop("C15", "Messages reveal nothing but the result",
     "In every protocol step (sharing, products, truncation, comparisons, conversions) each message a party receives before the final reveal is independent of the other parties' secrets: every word is masked by randomness the receiver does not know.",
     ["inputs", "schedules"], "all secrets and all randomness; 2..3 parties; listed protocol steps",
     "Secrecy is a property of the distribution of transcripts; no test looks at message contents.",
     ["crypten/mpc/primitives/beaver.py", "crypten/mpc/primitives/arithmetic.py", "crypten/mpc/primitives/binary.py", "crypten/mpc/primitives/converters.py", "crypten/mpc/provider/tfp_provider.py"],
     [("one-time masks", "beaver protocol"), ("zero sharing", "PRZS")], observe=["messages between parties"],
     level_note="Perfect-secrecy argument per transcript." + TRUST)

prop("C16", "Collective operations deliver the right data",
     "The communicator's collectives (send/recv, broadcast, scatter, gather, all_gather, reduce, all_reduce, object variants, batched variants, barrier) deliver to each party exactly what their contract says for every payload, root and number of parties.",
     ["inputs", "schedules", "configurations"], "symbolic payloads; 1..4 parties; every root; in-process communicator schedules",
     "Tests use fixed ranks and payloads; thread schedules of the in-process communicator are not explored.",
     ["crypten/communicator/distributed_communicator.py", "crypten/communicator/in_process_communicator.py"], [("collectives", "DistributedCommunicator, InProcessCommunicator")], observe=["return values"],
     level_note="Every payload." + TRUST)

prop("C17", "Restricted unpickler only builds allowed objects",
     "Loading an object received from another party never resolves a global outside the documented safe list, whatever the byte stream asks for, and objects of the safe types load unchanged.",
     ["inputs"], "all module/name strings the stream can contain",
     "Tests try three malicious payloads.",
     ["crypten/common/serial.py"], [("find_class", "RestrictedUnpickler.find_class")], observe=["restricted_loads"],
     level_note="All strings, by string theory in z3." + TRUST)

prop("C18", "Tuple provider cache and tracing give valid, fresh tuples",
     "With tracing/caching of provider requests, every request, in any order and repetition, yields a valid tuple of the requested shape and kind, each cached tuple is used at most once, and saving and loading the cache preserves it.",
     ["histories", "inputs"], "request sequences up to length 4 over kinds and shapes; all draws",
     "Tests replay one fixed sequence.",
     ["crypten/mpc/provider/provider.py"], [("cache", "TupleProvider.trace, fill_cache, load_cache, save_cache")], observe=["returned tuples"],
     level_note="Every draw, bounded histories." + TRUST)

prop("C19", "Common randomness is consistent between parties",
     "Pseudo-random zero shares sum (or XOR) to zero, pairwise and global generators agree between the parties that share them after any sequence of draws, private draws are never shared, and setting a device or seed keeps this.",
     ["histories", "configurations"], "all seeds (symbolic streams); 1..4 parties; sequences of draws of mixed shapes and kinds",
     "Desynchronised generators show only in later operations of particular sequences.",
     ["crypten/__init__.py", "crypten/common/rng.py", "crypten/mpc/primitives/arithmetic.py", "crypten/mpc/primitives/binary.py"], [("seed exchange", "_setup_prng, _sync_seeds"), ("PRZS", "PRZS")], observe=["reveal of zero shares", "generator streams"],
     level_note="Every stream." + TRUST)

prop("C20", "Approximations follow their documented formulas",
     "exp, log, reciprocal, division by encrypted values, sqrt, inv_sqrt, sigmoid, tanh, erf, cos, sin, softmax, log_softmax and norms of encrypted tensors compute, in exact arithmetic, the iteration their documentation states (starting value, recursion, number of iterations and sign handling from the configuration), for every input in the documented domain, and honour every configuration option.",
     ["inputs", "configurations"], "symbolic real inputs, listed iteration counts and methods",
     "Tests compare a few points with wide tolerances, so a lost iteration or a slightly wrong constant passes.",
     ["crypten/common/functions/approximations.py"], [("iterations", "approximations.exp, log, reciprocal, inv_sqrt, ...")], observe=["get_plain_text"],
     level_note="Exact reals; says nothing about the numeric error of the formula itself." + TRUST)

prop("C21", "Numeric accuracy of the approximations",
     "Approximated functions stay within their documented relative error of the true transcendental function over their documented input range at the default fixed-point precision.",
     ["inputs"], "all inputs in the documented ranges",
     "Tests sample a grid.",
     ["crypten/common/functions/approximations.py"], [("iterations", "approximations")],
     na="needs reasoning about true transcendental functions against up to 2^8 nested fixed-point products with per-step rounding; z3 has no theory of exp/log/erf and the rounded product chain is far out of reach, so only the exact-arithmetic formula is decided (C20)")

prop("C22", "Oblivious transfer hides the choice",
     "The base oblivious transfer gives the receiver exactly the chosen message and hides the other message and the choice.",
     ["inputs"], "all messages and choices",
     "One test run with random messages.",
     ["crypten/mpc/ptype.py", "crypten/mpc/provider/ot"], [("base OT", "baseOT")],
     na="number-theoretic protocol over a 1024-bit group with hashing and real sockets; modular exponentiation of symbolic 1024-bit integers and cryptographic hashes cannot be encoded for a solver within reach")

prop("C23", "Model conversion preserves the function",
     "A PyTorch model converted by from_pytorch, and an ONNX graph converted by from_onnx, keeps its parameter values and training mode, and once encrypted computes for every input and every parameter value the function the source model computes, with the same gradients; what cannot be converted is refused.",
     ["inputs", "programs", "configurations"], "symbolic real inputs and parameters; listed layers, functions, attribute combinations and graphs of up to 12 nodes",
     "Tests convert one instance of each layer with default-like attributes and compare one random input with a wide tolerance.",
     ["crypten/nn/onnx_converter.py", "crypten/nn/module.py"], [("conversion", "_to_crypten, Module.from_onnx"), ("graph execution", "Graph.forward")], observe=["output of the converted model"],
     level_note="Exact reals; the PyTorch exporter is trusted." + TRUST)

CLAIMED = json.load(open(os.path.join(HERE, "tools", "claimed.json")))


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            d = {"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
                 "anchors": {"files": p["files"], "state": p["state"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]], "observe_at": p["observe"], "hook_needed": None}}
            assert len(p["title"]) <= 80
            f.write(json.dumps(d) + "\n")
    checks, na = [], []
    for p in P:
        if p["na"]:
            na.append({"property": p["id"], "reason": p["na"]})
        elif p["id"] in CLAIMED:
            checks.append({"property": p["id"], "quick_cmd": f"{PY} check.py {p['id']} --tier quick", "thorough_cmd": f"{PY} check.py {p['id']} --tier thorough",
                           "evidence_file": f"evidence/{p['id']}.json", "technique": p["tech"], "level": "other", "level_note": p["level_note"]})
        else:
            na.append({"property": p["id"], "reason": "no check yet"})
    json.dump({"version": 1, "setup_cmd": f"{PY} tools/setup.py", "checks": checks, "not_applicable": na,
               "notes": "Each check forks one process per scenario, executes /repo's current code symbolically in every party and discharges the obligations with z3; see DESIGN.md."},
              open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
    print(len(P), "properties,", len(checks), "claimed")


main()
