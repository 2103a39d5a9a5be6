#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table (run after editing it)."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "checks"))
import registry

S = "prima_undine/src/"
NV = S + "devices/naive/"
P = []


def prop(id, title, statement, over, qtext, why, files, mech, technique=None, note=None, na=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why,
                  files=files, mech=mech, technique=technique, note=note, na=na))


ABS = ("Abstract interpretation of rustc MIR (path-sensitive symbolic summaries with loop summarisation, no solver); ")
TRUST = (" Trusted: rustc's MIR, the models of std functions in engine/models.py, and real-number (not floating-point) algebra where formulas are compared. "
         "Constructs the analysis cannot put in normal form are listed as undecided in the evidence and never reported.")

prop("C01", "Every requested device operation resolves to its own registered kernel",
     "Every operation a device can be asked to perform has a kernel registered under the name it asks for, in the table it asks, on the reference device. No two kernels share a name in a table, and the kernel registered under a name is the one implementing that operation. A request for an operation with no kernel panics rather than being skipped.",
     ["programs", "configurations"], "all call sites that request a kernel by name, on every path, and all registrations performed by the reference device constructor",
     "Names are strings resolved at run time; the existing tests exercise only some of the requests, and none of the operators or composite functions.",
     [S + "devices/naive.rs", S + "device.rs", S + "functions/arithmetic/device.rs", S + "functions/basic/device.rs", S + "random.rs"],
     [{"name": "registration of kernels", "where": S + "devices/naive.rs"}, {"name": "lookup by name, panic when missing", "where": S + "device.rs"}],
     "string-constant dataflow over MIR; registry/request cross-check",
     ABS + "every registration (name, kernel type, table) is matched with every request (name, table), and kernel types with the operation they serve.")
prop("C02", "Device operations reject invalid operands before computing",
     "A device-level operation panics, before any kernel runs or any output is allocated, unless its operands are on the device and satisfy the operation's documented shape, batch and argument requirements, in optimised builds as well. Filling, copying and reading a tensor likewise refuses values or sources of another size. An operation whose operands meet the requirements is accepted. In-place updates accept exactly the operands whose dimensions equal the target's and whose batch is compatible with it.",
     ["inputs", "programs"], "all operand shapes, batch sizes, dimensions, index lists and validity states for every device operation",
     "Tests call each operation with a few valid operands; the set of rejected operands is infinite and no test expects a panic on most of them.",
     [S + "functions/arithmetic/device.rs", S + "functions/basic/device.rs", S + "functions/random/device.rs", S + "device.rs", S + "shape_ops.rs"],
     [{"name": "validity and shape assertions", "where": S + "functions/arithmetic/device.rs"}, {"name": "shape rules", "where": S + "shape_ops.rs"}],
     "path-condition extraction from MIR compared with a precondition table",
     ABS + "the conjunction of conditions under which each device operation reaches its kernel call is compared, both directions, with the documented requirements.")
prop("C03", "Each device operation delegates to the right kernel with the right operands",
     "Every device-level operation invokes exactly one kernel, the one named after the operation, passing its operands, integer and scalar arguments in the documented order; filling, copying and reading tensors do so for the whole tensor. The result it returns is a newly allocated tensor on the same device with the documented output shape, and a backward operation passes the forward inputs, outputs and output gradients and writes only the gradient it was given.",
     ["inputs", "programs"], "all device-level operations, all arguments",
     "The tests reach kernels through a few of these wrappers with symmetric or tiny arguments, so swapped operands or a wrong output shape on other shapes go unseen.",
     [S + "functions/arithmetic/device.rs", S + "functions/basic/device.rs", S + "functions/random/device.rs", S + "device.rs"],
     [{"name": "device functions", "where": S + "functions/basic/device.rs"}],
     "call-protocol extraction from MIR compared with an operation table",
     ABS + "kernel call arguments, returned shape and effect order of each device operation are compared with the operation's specification.")
prop("C04", "Forward kernels compute the documented element-wise map",
     "For every valid input, each element of a forward result equals the documented mathematical function of the documented input elements, including broadcasting a single-batch operand over the other operand's batch, and every element of the output is computed. Reductions cover exactly the elements along the reduced dimension, and layout operations place each input element at its documented position.",
     ["inputs"], "all shapes, batch sizes, dimensions, index lists and element values accepted by the operation",
     "Tests evaluate a handful of small shapes; index arithmetic mistakes that only show for other strides, batch combinations or depths pass.",
     [NV], [{"name": "forward kernels", "where": NV}],
     "loop-nest and index-map extraction from MIR; symbolic normal-form comparison",
     ABS + "each kernel's loop nest is reduced to (iteration domain, output index polynomial, value expression) and compared with the operation's formula over the reals.")
prop("C05", "Backward kernels accumulate the exact transposed derivative",
     "For every valid input, a backward computation adds to the existing gradient (never overwrites it) the output gradient multiplied by the derivative of the forward function with respect to that operand. The derivative is exact also at special points such as zero wherever the derivative's formula is defined there. Contributions are summed over every output element that the operand element influences, including over the batch when the operand was broadcast. Maximum and minimum send the gradient of each result to exactly one element that attains it.",
     ["inputs"], "all shapes, batch sizes and element values accepted by the operation, and all prior gradient contents",
     "Tests check a few points with a constant output gradient; a dropped factor, a wrong operand or an overwrite that coincides on those points passes.",
     [NV], [{"name": "backward kernels", "where": NV}],
     "symbolic differentiation of the extracted forward kernel compared with the extracted backward kernel",
     ABS + "the backward kernel's accumulation is compared with gy times the symbolic derivative of the forward kernel extracted from the same tree, over the transposed index map.")
prop("C06", "Kernels never touch memory outside their operands",
     "For every operand that the device-level operation accepts, the corresponding kernel reads and writes only elements inside the tensors it was given. Index arithmetic never escapes the buffers whatever the shapes, batch sizes, dimensions and indices, and an operand that has no buffer yet is refused before its handle is followed.",
     ["inputs"], "all operand shapes and arguments that pass the device-level requirements, for every kernel of the reference device",
     "Out-of-bounds accesses through raw pointers are silent in release builds, and tests only sample a few shapes.",
     [NV, NV + "common.rs"], [{"name": "slice and pointer views", "where": NV + "common.rs"}, {"name": "kernel loops", "where": NV}],
     "range analysis of index polynomials over loop domains", 
     ABS + "the maximum of every index polynomial over its loop domain is compared with the buffer length under the device-level preconditions.")
prop("C07", "Each graph operator's backward is the derivative of its forward",
     "For every operator usable in a graph, running backward adds to each argument's gradient the vector-Jacobian product of that operator's own forward function, and nothing else, at every point where that derivative is defined (zero included) and also when one node is given for several arguments. Forward stores in each output the documented function of the arguments, with the operator's own stored parameters.",
     ["inputs", "programs"], "all operators, all argument shapes and batch combinations, all stored operator parameters (cross-entropy targets being distributions along the class dimension)",
     "No test of the repository constructs an operator.",
     [S + "operators/"], [{"name": "operators", "where": S + "operators.rs"}],
     "effect summaries of forward/backward compared with a VJP table and tensor algebra",
     ABS + "per operator, the device calls (and tensor expressions) performed by forward and backward are compared with the operator's definition and its vector-Jacobian product.")
prop("C08", "Operators declare exactly the output shapes they produce",
     "For every argument shapes, the shape an operator declares when a node is built equals the shape of the tensor its forward produces, so lazily built graphs never fail or misdescribe at evaluation time. The number of declared outputs equals the number produced.",
     ["inputs", "programs"], "all operators, all argument shapes and stored parameters",
     "No test constructs an operator; a mismatch shows only when a graph using that operator is evaluated.",
     [S + "operators/", S + "shape_ops.rs"], [{"name": "forward_shape", "where": S + "operators/"}],
     "symbolic shape terms of forward_shape compared with the shape of forward's result",
     ABS + "the symbolic shape returned by the operator is compared with the documented result shape of the operation its forward performs.")
prop("C09", "Graph evaluation runs every needed operator once, in dependency order",
     "Forward evaluation runs each operator the requested node depends on, at most once per graph lifetime, after all operators producing its arguments. Backward evaluation first runs forward, then runs each operator that the requested node depends on exactly once, after all operators consuming its outputs. Each operator receives the values and gradients of exactly its own arguments and results, in argument order.",
     ["programs", "histories"], "all graph shapes (shared sub-expressions, diamonds, multi-output operators, deep chains) and all sequences of forward and backward requests",
     "The graph module has no tests; ordering faults need particular diamond-shaped graphs.",
     [S + "graph.rs"], [{"name": "reachability walk and depth-ordered heap", "where": S + "graph.rs"}],
     "typestate/protocol rules over the MIR summaries of the traversal",
     ABS + "depth strictly exceeds the arguments' depth at construction; the work list is de-duplicated by identity; the heap is popped in the right direction; operators are called with the borrowed values/gradients of their own args and rets.")
prop("C10", "Backward starts from zeroed gradients and a unit seed",
     "When a node is differentiated, the gradient of every intermediate result it depends on starts from zero, and only the requested output is seeded, with ones. Parameter gradients are added to, never cleared, by differentiating a node.",
     ["programs", "histories"], "all graphs, including repeated differentiation, multi-output operators and nodes sharing sub-expressions",
     "The graph module has no tests; stale gradients need repeated or overlapping backward calls.",
     [S + "graph.rs", S + "operators/parameter.rs", S + "operators/input.rs"], [{"name": "gradient initialisation", "where": S + "graph.rs"}],
     "must-precede/effect analysis over MIR", ABS + "every reached result's gradient is allocated when needed and zeroed before the single seed and before any operator's backward runs.")
prop("C11", "Eager and lazy functions agree",
     "Every function offered on graph nodes builds an operator that computes the same function, with the same arguments in the same order, as the function of the same name offered on tensors. Neither ignores, swaps or alters its arguments.",
     ["inputs", "programs"], "all functions offered on both tensors and nodes, all arguments",
     "No test uses the node functions; parity over all functions and arguments is never checked.",
     [S + "functions/basic/tensor.rs", S + "functions/basic/node.rs", S + "functions/arithmetic/node.rs", S + "functions/arithmetic/tensor.rs", S + "functions.rs"],
     [{"name": "tensor functions", "where": S + "functions/basic/tensor.rs"}, {"name": "node functions", "where": S + "functions/basic/node.rs"}],
     "sibling-implementation cross-check over MIR call summaries",
     ABS + "tensor function -> device operation and node function -> operator -> forward -> device operation are reduced to the same canonical term and compared.")
prop("C12", "Arithmetic operators dispatch to the operation their operand kinds demand",
     "For every combination of tensor, node and plain number, owned or borrowed, the arithmetic operators and power compute the named arithmetic on the operands in the written order. A scalar tensor on either side is broadcast over the other operand, two tensors combine element by element, and compound assignment updates only the left operand.",
     ["inputs", "programs"], "all arithmetic operators, all operand kinds and orders, scalar and non-scalar shapes",
     "The operator overloads are untested; each is a separate macro-generated function with its own operand order.",
     [S + "functions/arithmetic/tensor.rs", S + "functions/arithmetic/node.rs"], [{"name": "operator overloads", "where": S + "functions/arithmetic/"}],
     "case analysis of overload summaries over MIR", ABS + "each overload's result is split on which operands are scalar, and the operation and operand order selected in each case are compared with the arithmetic demanded.")
prop("C13", "Tensor buffers have exactly one owner",
     "A tensor's device buffer is released exactly once, by the one tensor that owns it, and never by a tensor that merely refers to another's buffer. Transferring a buffer leaves the source without it, and acquiring one requires the destination to have none, so no buffer leaks or is used by two owners. The buffer always has room for exactly the elements the tensor's shape declares, on the tensor's own device.",
     ["histories", "programs"], "all sequences of allocating, referring, replacing, moving and dropping tensors",
     "Ownership errors corrupt pooled memory only later, when a recycled buffer is reused; no test exercises it.",
     [S + "tensor.rs", S + "operators/input.rs", S + "operators/parameter.rs"], [{"name": "handle ownership", "where": S + "tensor.rs"}],
     "typestate/ownership rules over MIR effect summaries", ABS + "who writes the handle, under which guard, and with which paired clear; who releases it, under which condition.")
prop("C14", "The memory pool never shares or undersizes a live buffer",
     "A buffer handed out by the pool is at least as large as requested, is never handed out again before it is returned, and returns to the size class it was allocated from. Returning a buffer that is not live panics, and every buffer the pool holds is freed exactly once when the pool is dropped. Every request of up to 2^31 elements is served, and using the pool from several threads never deadlocks.",
     ["histories", "inputs", "schedules"], "all sequences of requests and returns, all sizes, from any number of threads",
     "Reuse faults depend on the history of sizes requested and returned; no test drives the pool.",
     [S + "memory_pool.rs", NV + "../naive.rs"], [{"name": "size classes and live map", "where": S + "memory_pool.rs"}],
     "effect/typestate analysis of the pool over MIR", ABS + "the size class term, pop/insert and remove/push pairing, allocation size and drop traversal are compared with the pool protocol.")
prop("C15", "Optimizers implement their published update rules",
     "Each optimizer moves a parameter by exactly its published update rule, as a function of the parameter value, its gradient, its hyper-parameters, the step number and the state it keeps, scaled by the current learning-rate scale. State tensors are created once per parameter, and updated by the published recurrence.",
     ["inputs", "histories"], "all parameter values, gradients, hyper-parameters and step counts",
     "The optimizers have no tests; a wrong exponent or sign still trains on simple problems.",
     [S + "optimizers/"], [{"name": "update rules", "where": S + "optimizers/"}],
     "tensor-expression extraction from MIR compared with the published formula", ABS + "value and state updates are read as tensor expressions and compared, over the reals, with the published formulas.")
prop("C16", "An optimisation step applies decay, clipping and update in order",
     "One optimisation step adds the weight decay term to every gradient, then rescales all gradients when their joint norm exceeds the clipping threshold, then updates every parameter once with its resulting gradient, clears every gradient and advances the step count by one. Each setting reads back the value last set, and negative settings are rejected.",
     ["inputs", "histories"], "all parameter lists, settings and step histories",
     "The optimizers have no tests.",
     [S + "optimizer.rs", S + "optimizers.rs"], [{"name": "update_parameters", "where": S + "optimizer.rs"}],
     "ordered-effect analysis over MIR", ABS + "order, guards and operands of the effects of one step, and the accessor pairs of every optimizer, are compared with the protocol.")
prop("C17", "A model enumerates each of its parameters exactly once",
     "The parameter list of a model contains every parameter of every field or element exactly once, in the same order for shared and mutable access. Moving a model to a device moves the value, gradient and statistics of every one of them.",
     ["programs"], "all user-defined model types and nestings",
     "Derived code is generated per user type; no test derives it.",
     ["prima_undine_derive/src/lib.rs", S + "model.rs", S + "parameter.rs"], [{"name": "derived enumeration", "where": "prima_undine_derive/src/lib.rs"}],
     "analysis of macro-expanded witness models and MIR summaries", ABS + "witness structs are expanded with the real derive macro and their enumeration summaries compared with the field list.")
prop("C18", "Saved parameters restore to what was saved",
     "Saving a parameter writes its value, gradient and all statistics with their shapes and element values, and loading reads them back into the same places. A loaded tensor becomes usable on a device with exactly the shape and element values that were saved.",
     ["inputs", "histories"], "all parameters and shapes", "Nothing tests persistence.",
     [S + "tensor.rs", S + "parameter.rs", S + "shape.rs"], [{"name": "serialisation", "where": S + "tensor.rs"}],
     "writer/reader field-table agreement over MIR", ABS + "the field names, order and sources written are compared with the fields read and the constructor they reach.")
prop("C19", "Shapes keep their invariants and never wrap around",
     "A shape never has more than the maximum number of dimensions, a zero extent or a zero batch; its volume and element count are the exact products of its extents, or it panics. Extents beyond the depth read as one, trailing extents of one make no difference, and every shape derived by changing an extent or the batch is the same as one constructed directly. Queries and comparisons of shapes report exactly what their extents say. Combining shapes never wraps a sum of extents around: it is exact or it panics.",
     ["inputs"], "all dimension lists, batch sizes and shape-modifying calls",
     "Tests never use extreme extents and only a few of the patterns of unit extents.", [S + "shape.rs", S + "shape_ops.rs"], [{"name": "shape constructors and queries", "where": S + "shape.rs"}],
     "abstract interpretation over a finite extent domain and an overflow audit, over MIR", "Abstract interpretation of MIR over the extent domain {0, 1, symbolic >= 2}, loops followed over the at most eight axes; every constructor, mutator, query and comparison is compared with the documented algebra, and every product or sum must be overflow-checked. Quick covers all patterns of unit extents up to five (constructor) and four axes plus the extremes; thorough all patterns of eight axes.")
prop("C20", "Output shapes follow the documented shape rules",
     "For every operand shapes and arguments, each shape rule either panics or returns the documented result shape: element-wise and scalar broadcasting, matrix product, transpose, slicing, picking, concatenation, permutation, flattening and batch operations. It panics exactly when the documented compatibility condition fails.",
     ["inputs"], "all operand shapes, dimensions, ranges and index lists",
     "Tests cover a few shapes per rule.", [S + "shape_ops.rs", S + "shape.rs"], [{"name": "shape rules", "where": S + "shape_ops.rs"}],
     "path conditions and symbolic result shapes from MIR compared with a rule table",
     ABS + "result shape term and panic condition of each rule are compared, both directions, with the documented rule.")
prop("C21", "Initializers fill every element as documented",
     "An initializer leaves the tensor allocated with every element set by the documented rule: the given constant, or random values with the documented range or spread. Scaled uniform initialisation derives its bound from the tensor's own input and output extents and requires a matrix. A new parameter starts with the initialised value and an all-zero gradient of the same shape on the same device, and resetting its gradient zeroes exactly that gradient.",
     ["inputs"], "all shapes and parameters", "Initializers have no tests.",
     [S + "initializers/"], [{"name": "initializers", "where": S + "initializers/"}],
     "effect summaries over MIR compared with the documented rule", ABS + "the device call made and its arguments are compared with the documented rule.")
prop("C22", "Random tensors are filled completely with the requested distribution",
     "Every random tensor has all of its elements, and nothing else, filled from the requested distribution with the requested parameters in the documented roles. Every element is its own sample, and all random operations of one device draw from that device's generator.",
     ["inputs", "configurations"], "all shapes, batch sizes and parameters", "Nothing tests the random kernels; a partly filled or mis-parameterised result still looks random.",
     [NV + "random.rs", S + "random.rs", S + "functions/random/"], [{"name": "random kernels", "where": NV + "random.rs"}],
     "argument-flow analysis over MIR", ABS + "each random operation's fill range and parameter roles are traced to the generator.")
prop("C23", "Composite functions equal their definitions",
     "Every composite function offered on tensors or nodes equals its mathematical definition in terms of the primitive operations, for all arguments: softmax and its cross-entropies, ramps, splits, means, normalisation over the batch or the layer, dropout and list sums. Their switches select between the documented alternatives.",
     ["inputs"], "all argument shapes and values", "Composite functions have no tests.",
     ["prima_undine_contrib/src/functions/", S + "functions/"], [{"name": "composite functions", "where": "prima_undine_contrib/src/functions/contrib/"}],
     "tensor-expression extraction from MIR compared with definitions", ABS + "each composite function's expression is compared with its definition.")
prop("C24", "No computation modifies its inputs",
     "Computing a function leaves all its input tensors, and in backward also the forward results and output gradients, unchanged. Only the designated output or accumulated gradient is written; a tensor that merely borrows another's buffer (Tensor::from(&t)) gets its own copy before it is written, so the lender never changes.",
     ["inputs", "programs"], "all kernels, device operations and operators", "Tests compare outputs and never re-read inputs.",
     [NV, NV + "common.rs", S + "device.rs", S + "tensor.rs"], [{"name": "mutable views", "where": NV + "common.rs"}, {"name": "dispatch routines", "where": S + "device.rs"}],
     "effect (write-set) analysis over MIR", ABS + "the buffer written by every store of every kernel is traced to an output argument.")
prop("C25", "Results never depend on what a recycled buffer contained",
     "A forward result depends only on the operands: every output element is written before it is read, whatever the recycled buffer held before. Allocation of a result is always followed by a computation that fills it.",
     ["histories", "inputs"], "all forward kernels, shapes and prior buffer contents", "Fresh test processes mostly see zeroed memory.",
     [NV, S + "functions/"], [{"name": "forward kernels", "where": NV}],
     "definite-assignment analysis of output buffers over MIR", ABS + "the set of output elements stored is shown to cover the output, and no output element is read before being stored.")
prop("C26", "Conversions keep the value, gradient and device of their source",
     "A tensor or parameter turned into a node becomes one leaf without arguments whose value, shape and device are those of its source. Differentiating a graph adds a parameter leaf's gradient to that very parameter's gradient, and changes nothing of a tensor leaf. A tensor made from a tensor or parameter has the source's shape, device and elements. Nodes, operators, tensors and parameters report their own value, gradient, shape and device, and a new parameter holds the value and gradient it was given, each without a batch, and no statistics.",
     ["programs", "inputs"], "all conversions between tensors, parameters and nodes, all operators, all shapes",
     "No test builds a graph from a parameter or tensor and reads the gradient back.",
     [S + "graph.rs", S + "tensor.rs", S + "parameter.rs", S + "operators/input.rs", S + "operators/parameter.rs", S + "operators/"],
     [{"name": "conversions into nodes", "where": S + "graph.rs"}, {"name": "leaf operators", "where": S + "operators/parameter.rs"}, {"name": "conversions into tensors", "where": S + "tensor.rs"}],
     "composition of MIR summaries of conversions and leaf operators; accessor evaluation",
     ABS + "the operator each conversion constructs is composed with its own forward, backward, shape and device routines; accessors are reduced to the field they return.")
prop("C27", "Programs that would use a freed or shared buffer do not compile",
     "Safe code cannot use a tensor, parameter, model or node after its device is gone, free or change a tensor while another tensor or a node borrows its buffer, or read, change, update or free a parameter while a graph uses it. Kernels, operators and backends cannot outlive the data they borrow, and must be thread-safe; devices and tensors can be shared between threads, parameters sent to them, and graphs never leave their thread. Programs that respect these rules compile.",
     ["programs", "schedules"], "all safe programs, represented by one witness and one control program per rule; the type and borrow checker judges the signatures they share with every other program",
     "A test can only contain programs that compile; nothing in the test suite would notice a signature that became too permissive.",
     [S + "tensor.rs", S + "graph.rs", S + "parameter.rs", S + "device.rs", S + "device_impl.rs", S + "random.rs", S + "operators/parameter.rs"],
     [{"name": "lifetimes of tensors and conversions", "where": S + "tensor.rs"}, {"name": "lifetimes of nodes", "where": S + "graph.rs"}, {"name": "thread-safety bounds", "where": S + "device_impl.rs"}],
     "compile-fail witnesses with compile-pass controls, decided by rustc's type and borrow checker",
     "Witness programs in borrow/ are type- and borrow-checked (never run) against the current source: each must be refused for a lifetime, borrow, move, mutability or thread-safety reason, and its control accepted.")
prop("C28", "Operations keep no hidden state",
     "Apart from the random operations, what an operation does depends only on its operands, its arguments and the objects it is given (device, tensors, graph). Nothing is remembered between calls in global or per-thread variables, or inside kernels, operators, initializers or optimizers beyond the optimizer's documented settings; no result depends on time, environment, thread or the order of a hash table. Random numbers are drawn only by the random operations, and only from the device's generator.",
     ["histories", "schedules"], "all operations, all sequences of calls from all threads",
     "Tests run each operation once or twice in a fresh state; a value kept from an earlier call with other operands goes unnoticed.",
     [NV, S + "operators/", S + "initializers/", S + "optimizers/", S + "device.rs", S + "random.rs", S + "graph.rs"],
     [{"name": "kernels", "where": NV}, {"name": "operators", "where": S + "operators/"}, {"name": "random source", "where": S + "random.rs"}, {"name": "optimizers", "where": S + "optimizers/"}],
     "effect scan (statics, thread-locals, ambient sources, interior mutability, hash-table order) over MIR and types",
     "Every function of the library is scanned for sources of state other than its arguments, and every type that plays the role of a kernel, operator, initializer or optimizer for fields that change behind a shared reference.")
prop("N01", "Floating-point results stay accurate and finite",
     "Results are finite and close to the exact value whenever the exact value is representable, including for large magnitudes in exponentials and normalisations.",
     ["inputs"], "all element values", "Tests sample moderate values.", [NV], [{"name": "kernels", "where": NV}],
     na="Rounding and overflow of floating-point values quantify over runtime values and library functions; no sound static argument in reach bounds them. The formulas themselves are decided by C04 and C05.")
prop("N02", "Random sequences have the requested statistics",
     "Generated values follow the requested distribution and are reproducible for a given seed.",
     ["inputs", "configurations"], "all seeds", "Statistical.", [S + "devices/naive.rs"], [{"name": "generator", "where": "prima_undine/src/devices/naive/random.rs"}],
     na="Statistical quality of the external generator is a runtime quantity; only parameter roles and fill ranges are structural (C22).")
prop("N03", "Training converges and stays within a reasonable cost",
     "Training the example models reduces the loss, and each operation costs time and memory proportional to its tensors.",
     ["inputs", "histories"], "all models", "Tests do not train.", ["examples/"], [{"name": "examples", "where": "examples"}],
     na="Convergence and running time are runtime quantities with no static rule.")


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                                "quantifier": {"over": p["over"], "text": p["qtext"]},
                                "why_tests_cant": p["why"],
                                "anchors": {"files": p["files"], "mechanism": p["mech"]}}) + "\n")
    checks, na = [], []
    for p in P:
        if p["id"] in registry.CHECKS:
            checks.append({"property": p["id"], "quick_cmd": "python3 check.py %s --tier quick" % p["id"],
                           "thorough_cmd": "python3 check.py %s --tier thorough" % p["id"],
                           "evidence_file": "evidence/%s.json" % p["id"],
                           "technique": "static analysis: " + p["technique"], "level": "other", "level_note": p["note"] + TRUST})
        else:
            na.append({"property": p["id"], "reason": p["na"] or "No check built yet; the design is in DESIGN.md."})
    m = {"version": 1, "setup_cmd": "python3 setup.py", "checks": checks, "not_applicable": na,
         "notes": "No hooks are needed: the checks read /repo through a rustc driver (driver/main.rs). Known and fixed findings: known-findings.json."}
    json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
    print(len(P), "properties", len(checks), "claimed")


main()
