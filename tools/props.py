#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json, pathlib

V = pathlib.Path(__file__).resolve().parent.parent
TECH = "deterministic simulation with fault injection: seeded search over thread interleavings, fault sequences and call histories"


def P(id, title, statement, over, text, why, files, mech, observe=None, state=None, hook=None, note=None):
    a = dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])
    if state:
        a["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe:
        a["observe_at"] = observe
    a["hook_needed"] = hook
    return dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why, anchors=a), note


PROPS = []
NOT_APPLICABLE = []


def add(*a, **k):
    PROPS.append(P(*a, **k))


add("C01", "Wick's theorem preserves the value of operator expressions",
    "Applying Wick's theorem to a product or sum of products of tensors and normal-ordered operators gives an expression with the same value "
    "as the input: its vacuum expectation value when full contractions are asked for (no operator is left then), the same operator when "
    "partial contractions are kept. This holds for fermions and bosons, physical and Fermi vacuum, spin-orbital and spin-free bases, with "
    "indices deduced or given as external, with and without use of topology, and with operator pairs required to be connected or forbidden "
    "to be. The answer does not depend on the number of threads or the schedule of the per-summand work, and the value of the caller's expression is not changed.",
    ["inputs", "schedules"],
    "random sums of 1-5 products of 1-3 normal operators of rank up to 2 (also not particle-conserving) with tensors of random symmetry, "
    "external indices, random options, 1-4 threads under every interleaving",
    "The tests compare a fixed list of expressions with stored answers on one schedule; they cannot show that each term's sign and weight is "
    "right for other expressions or that summands processed at the same time do not disturb each other.",
    ["SeQuant/core/wick.hpp", "SeQuant/core/wick.impl.hpp", "SeQuant/core/op.hpp", "SeQuant/core/expressions/sum.hpp"],
    [("parallel work on summands", "SeQuant/core/wick.impl.hpp"), ("contraction signs and topological weights", "SeQuant/core/wick.hpp")],
    ["WickTheorem::compute()"])
add("C02", "Rewriting an expression preserves its value, has one answer, and finds equal terms",
    "Canonicalizing, expanding, simplifying, flattening or collecting the terms of an expression gives an expression with the same value, for "
    "all values of the tensors that have the declared symmetries. The answer is the same for every number of threads, schedule and earlier "
    "use of the process. Simplifying a difference of products of tensors that are the same up to names of dummy indices, order of factors "
    "and the symmetries of the tensors gives zero, and simplifying what is simplified already changes nothing.",
    ["inputs", "schedules", "histories"],
    "random sums and nested sums of products of up to 4 tensors of every declared symmetry with up to 6 dummies, external, auxiliary and dependent "
    "indices, variables and powers, under sequences of 1-3 rewritings, 1-4 threads under every interleaving, different histories before",
    "The tests compare selected expressions with stored answers; they sample neither the space of symmetric networks, where a wrong sign or "
    "an address-dependent order shows only for particular automorphisms or hash ties, nor schedules of the per-summand work.",
    ["SeQuant/core/expressions/expr.cpp", "SeQuant/core/expressions/sum.hpp", "SeQuant/core/tensor_network/v3.cpp",
     "SeQuant/core/tensor_canonicalizer.cpp", "SeQuant/core/expressions/expr_algorithms.hpp"],
    [("parallel canonicalization of summands and collection of equal terms", "SeQuant/core/expressions/expr.cpp"),
     ("graph canonization and symmetry signs", "SeQuant/core/tensor_network/v3.cpp")],
    ["canonicalize()", "simplify()", "expand()", "transform_sum_expr()"])
add("C03", "Parallel primitives: each item once, exact combine, errors reach the caller",
    "A parallel loop, transform-reduce or region runs the user's work exactly once per element (per thread id for a region), returns only "
    "when all of it is finished, and a transform-reduce yields the same result as the sequential fold for any associative and commutative "
    "operation, whatever the number of threads, the schedule and whichever threads cannot be created. An exception thrown by the work "
    "reaches the caller, once, after all started work has ended, and leaves the facility usable. The number of threads always follows the "
    "last setting (or the environment or hardware before that).",
    ["schedules", "inputs", "fault_sequences"],
    "every interleaving of caller and workers, thread counts 1-8, ranges of 0-60 elements of several iterator kinds, nested calls, work that "
    "throws at any element, thread creation failing at any point, allocation failure, any history of thread count settings",
    "The tests run with the hardware's thread count under the schedules the machine happens to produce and never let work throw or thread "
    "creation fail; most of them pass with the work done on one thread.",
    ["SeQuant/core/runtime.hpp", "SeQuant/core/runtime.cpp"],
    [("work counter and join of all threads", "SeQuant/core/runtime.hpp"), ("thread count setting", "SeQuant/core/runtime.cpp")],
    ["calls of the user's function", "the returned value or exception", "live threads after return"])
add("C04", "Memoization: one value per key, computed once, under any schedule and failure",
    "A memoized computation returns, to every caller and for every key, the value the computation yields for that key; concurrent first "
    "requests for a key run the computation once, and the returned reference keeps referring to that value while other keys are added. If "
    "the computation fails, the failure reaches a caller, nothing half-made is kept, no other caller hangs, and a later request computes anew.",
    ["schedules", "inputs", "fault_sequences"],
    "every interleaving of 1-6 callers with overlapping key sequences, computations that throw at any attempt, that request other keys, "
    "spurious wake-ups, references held across insertions",
    "The tests call the memoized functions from one thread; the waiting path, the failure path and growth of the table while references are "
    "held need a particular interleaving.",
    ["SeQuant/core/utility/memoize.hpp", "SeQuant/core/biorthogonalization.cpp", "SeQuant/core/biorthogonalization.hpp"],
    [("per-key state, mutex and condition variable", "SeQuant/core/utility/memoize.hpp")],
    ["returned references and their contents", "number of computations per key", "exceptions"])
add("C05", "Process-wide lazily made objects: one complete instance, right tables",
    "However many threads use a process-wide object for the first time at once, exactly one instance is constructed, every caller gets that "
    "instance and sees it complete; a construction that throws publishes nothing and is retried by the next use. Explicit initialisation "
    "succeeds at most once and is refused exactly when an instance exists. Lazily grown tables give every caller the right value however the "
    "growth interleaves.",
    ["schedules", "fault_sequences", "histories"],
    "every interleaving of 2-5 threads calling accessors and initialisers in any order, constructors that throw at any attempt, first use "
    "of the logger, growth of the factorial table",
    "Tests touch these objects from one thread after start-up, so the window in which the object exists but is not complete is never open.",
    ["SeQuant/core/utility/singleton.hpp", "SeQuant/core/logger.hpp", "SeQuant/core/math.hpp"],
    [("publication of the instance", "SeQuant/core/utility/singleton.hpp"), ("growth of the factorial table", "SeQuant/core/math.hpp")],
    ["returned references", "constructor calls"])
add("C06", "Default contexts follow the history of set, scope and reset calls",
    "The default context seen for each particle statistics (and the default many-body context) is always the one implied by the calls made so "
    "far: what was set last, the innermost scoped change still open, or the initial value after a reset; leaving a scope, by return or by "
    "exception, brings back exactly what was in force when it was entered, whatever was set, scoped or reset inside and even if the scoped "
    "context compared equal to it. Calls that fail change nothing, copies are independent of the defaults, clones share nothing, contexts of "
    "every kind can be compared, and calls from several threads behave as if made in some order.",
    ["histories", "schedules", "fault_sequences"],
    "any sequence of up to 40 set/scope/reset/read calls over three statistics with nesting, exceptions and allocation failures, contexts "
    "with, without and with shared index-space registries; 2-5 threads making up to 3 calls each",
    "The tests set a context once or twice per test case from one thread and leave scopes normally.",
    ["SeQuant/core/context.cpp", "SeQuant/core/context.hpp", "SeQuant/core/utility/context.hpp", "SeQuant/domain/mbpt/context.cpp"],
    [("implicit context and its resetter", "SeQuant/core/utility/context.hpp"), ("lazy creation and locking", "SeQuant/core/context.cpp")],
    ["get_default_context() and the accessors of Context", "get_default_mbpt_context()"])
add("C07", "Registries answer from the history of successful changes only",
    "An index-space or operator registry answers every query (membership, retrieval by label, type or quantum numbers, base spaces, unions and "
    "intersections, roles such as vacuum-occupied, operator class and hermiticity) from exactly the changes that succeeded so far, made "
    "through it or through copies that share its contents; assignments, clones and changes of the attribute mask take effect at once. A "
    "change that is refused or runs out of memory leaves every registry as it was, and threads that only read a registry never disturb each other.",
    ["histories", "schedules", "fault_sequences"],
    "any sequence of up to 45 additions, unions, intersections, removals, replacements, role and mask settings, copies, clones, moves and "
    "clears over 1-3 registries, valid or not, allocation failure at any point, then 2-4 concurrent readers",
    "The tests build a registry once and query it; cached answers only go stale when queries and changes alternate across copies, and races "
    "on the caches need concurrent first queries.",
    ["SeQuant/core/index_space_registry.hpp", "SeQuant/core/index_space_registry.cpp", "SeQuant/core/space.hpp", "SeQuant/domain/mbpt/op_registry.cpp",
     "SeQuant/domain/mbpt/op_registry.hpp"],
    [("validation before insertion", "SeQuant/core/index_space_registry.hpp"), ("memoized base spaces", "SeQuant/core/index_space_registry.hpp"),
     ("shared maps of operators", "SeQuant/domain/mbpt/op_registry.cpp")],
    ["query results", "iteration over the registry", "operator=="])

add("C08", "A call that fails leaves settings and inputs intact and can be repeated",
    "A rewriting, collecting or Wick computation that fails because memory or threads cannot be had or because the caller's function throws "
    "reports that failure to the caller by an exception after all its threads have ended. Whether it fails or succeeds, the registered "
    "canonicalizers, cardinal labels, default contexts and the number of threads are as before, the expression it read is unchanged, and the "
    "same call repeated without failures gives the answer it always gives.",
    ["fault_sequences", "inputs", "schedules"],
    "random expressions and computations; allocation failing at any point of any thread, thread creation failing, the caller's function "
    "throwing at any element, up to 3 attempts; labels with and without canonicalizers of the user; 1-4 threads under every interleaving",
    "No test makes an allocation, a thread creation or a callback fail, and tests do not look at process-wide settings after a computation.",
    ["SeQuant/core/wick.impl.hpp", "SeQuant/core/tensor_canonicalizer.cpp", "SeQuant/core/runtime.hpp", "SeQuant/core/expressions/expr.cpp",
     "SeQuant/core/expressions/sum.hpp"],
    [("registration of null canonicalizers during a computation", "SeQuant/core/wick.impl.hpp"), ("joining of workers after a failure", "SeQuant/core/runtime.hpp")],
    ["exceptions", "TensorCanonicalizer registrations", "get_default_context()", "the caller's expression"],
    note="Seeded search. Memory exhaustion inside functions declared noexcept ends the program by design and is not a violation. "
    "Trusts the simulator, the compiler and the reference fork of the process.")

add("C09", "Many-body derivations are exact for every method, option and schedule",
    "What the many-body layer derives has the value exact operator algebra gives: vacuum and reference expectation values of sums of products "
    "of many-body operators (single- and multireference, spin-orbital and spin-free, with and without screening, topology and connectivity "
    "constraints), the tensor form of every operator, similarity transformations, screened expressions, and the energy, amplitude, "
    "multiplier, density, response and equation-of-motion equations of coupled-cluster methods for any ansatz, truncation and options. "
    "The caller's expression is not changed, and number of threads and schedule do not matter.",
    ["inputs", "schedules"],
    "random sums of products of up to 4 operators of rank up to 2 in four conventions of index spaces; coupled-cluster methods of rank 1 and 2 "
    "under random options; 1-4 threads under every interleaving of the per-term work",
    "The tests compare the number of terms of selected derivations with stored counts, for one set of options and on one schedule; a wrong "
    "factor, sign or lost term of the same count, or a disturbance between terms processed at the same time, is not seen.",
    ["SeQuant/domain/mbpt/op.cpp", "SeQuant/domain/mbpt/op.ipp", "SeQuant/domain/mbpt/vac_av.cpp", "SeQuant/domain/mbpt/utils.cpp",
     "SeQuant/domain/mbpt/models/cc.cpp"],
    [("parallel expectation values of summands", "SeQuant/domain/mbpt/vac_av.cpp"), ("screening by quantum numbers", "SeQuant/domain/mbpt/op.cpp"),
     ("truncated nested commutators and connectivity", "SeQuant/domain/mbpt/models/cc.cpp")],
    ["vac_av()", "ref_av()", "lst()", "screen_vac_av()", "CC::t(), λ(), rdm(), tʼ(), λʼ(), eom_r(), eom_l(), energy()"])

add("C10", "Evaluation gives the expression's value whatever is cached, batched or failed before",
    "Evaluating an expression tree gives exactly the value of the expression for the tensors supplied: for every result layout, alone or summed "
    "with others, without a cache or with one built for any set of expressions, in every round of an iterative computation whose volatile "
    "tensors change between rounds, in batches over any index with any storage tiling, and after any earlier evaluation failed at any backend "
    "operation. Results already handed out and the caller's tensors are never changed, scope guards do not outlive an evaluation, and the tree "
    "stands for the expression it was made from.",
    ["fault_sequences", "histories", "inputs"],
    "random sums of products of up to 4 factors with nested sums and products, adjoints, auxiliary and shared external indices; 1-4 expressions "
    "that are renamed or exchanged variants of each other; 1-4 rounds of 1-4 evaluations; leaf evaluator, tensor operations, tilings and hooks "
    "failing at any point; hash collisions forced",
    "Tests evaluate fixed expressions once with real tensors; reuse of an intermediate that is nearly equal, storage shared with the cache, "
    "batched replays and caches after failures need histories no test has.",
    ["SeQuant/core/eval/eval.hpp", "SeQuant/core/eval/eval_expr.cpp", "SeQuant/core/eval/cache_manager.hpp", "SeQuant/core/eval/eval_node_compare.hpp"],
    [("in-place accumulation", "SeQuant/core/eval/eval.hpp"), ("identity of intermediates", "SeQuant/core/eval/eval_node_compare.hpp"),
     ("lifetimes of cached results", "SeQuant/core/eval/cache_manager.hpp"), ("batched evaluation and replay", "SeQuant/core/eval/eval.hpp")],
    ["evaluate()", "binarize()", "cache_manager()", "make_batched_custom_evaluator()", "make_evaluator()", "to_expr()"])

add("C11", "Expressions follow the history of their edits",
    "After any history of operations on expressions - arithmetic, appending and prepending with any flattening (of an expression to itself "
    "or of its own parts, too), scaling, adjoint, replacing subexpressions, changing labels and indices of tensors and operators, adding to "
    "and removing from operators, cloning and copying, rewriting - an expression has the value that the history implies, and its hash, "
    "equality, ordering, shape and text are those of the same expression made afresh. Copies, operands and other expressions never change "
    "with it, and an edit that fails leaves usable expressions.",
    ["histories", "fault_sequences", "schedules"],
    "histories of up to 30 edits over pools of expressions (sums, products, tensors, normal-ordered operators, variables, powers, constants), "
    "1-3 threads each with its own pool, any allocation failing",
    "Tests edit once and compare; stale memoized hashes, shared substructure and half-done edits appear only after particular sequences.",
    ["SeQuant/core/expressions/product.hpp", "SeQuant/core/expressions/sum.hpp", "SeQuant/core/expressions/tensor.hpp", "SeQuant/core/op.hpp",
     "SeQuant/core/expressions/expr.cpp", "SeQuant/core/expressions/expr_operators.hpp", "SeQuant/core/expressions/power.hpp"],
    [("memoized hashes", "SeQuant/core/expressions/expr.hpp"), ("appending and prepending factors and summands", "SeQuant/core/expressions/product.hpp"),
     ("sharing of substructure between copies", "SeQuant/core/expressions/expr_operators.hpp")],
    ["Expr::operator*=, +=, -=, ^=", "Product::append(), prepend(), scale()", "Sum::append(), prepend()", "Tensor::set_bra() etc.",
     "Expr::clone()", "adjoint()", "transform_indices()"])

NA = [
]


def main():
    with open(V / "properties.jsonl", "w") as f:
        for p, _ in PROPS:
            f.write(json.dumps(p, ensure_ascii=False) + "\n")
        for p, _ in NA:
            f.write(json.dumps(p, ensure_ascii=False) + "\n")
    checks = []
    for p, note in PROPS:
        i = p["id"]
        checks.append(dict(property=i, quick_cmd=f"python3 tools/check.py {i}", thorough_cmd=f"python3 tools/check.py {i} --tier thorough",
                           evidence_file=f"evidence/{i}.json", technique=TECH, level="exploration",
                           level_note=note or "Seeded search, not exhaustive: every explored run is decided against the reference model; "
                           "interleavings are explored at synchronisation and shared-memory accesses under sequential consistency with "
                           "data races reported. Trusts the simulator (sim/rt), the compiler and the reference models."))
    m = dict(version=1, setup_cmd="python3 tools/build.py", checks=checks,
             not_applicable=[dict(property=p["id"], reason=r) for p, r in NA],
             notes="No hooks in /repo: the simulator interposes below the C++ runtime (threads, synchronisation, clocks, heap) and instruments "
                   "memory accesses at compile time; see DESIGN.md. Replay: python3 tools/check.py --replay <file>.")
    (V / "MANIFEST.json").write_text(json.dumps(m, indent=1, ensure_ascii=False) + "\n")


if __name__ == "__main__":
    main()
