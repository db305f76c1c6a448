"""What each check runs: property -> scenarios (program, runs on the quick tier)."""
ASSUMPTIONS = [
    "memory accesses are sequentially consistent between scheduling points; unordered conflicting accesses are reported as "
    "data races by vector clocks instead of being executed with weak-memory outcomes",
    "the simulated programs are compiled with SEQUANT_ASSERT throwing and without SIMD/mimalloc back ends",
]
RT = "threads, mutexes, condition variables, once/static guards, atomics, clocks, heap: simulator (sim/rt), deterministic"


def S(name, target, runs, **kw):
    return dict(name=name, target=target, runs=runs, **kw)


CORE = ["SeQuant/core (all library code the scenario reaches)", "SeQuant/external/bliss"]
CHECKS = {
    "C01": dict(scenarios=[
        S("wick_fermi", "core", 2400, need=["full", "partial", "nonzero", "constrained"]),
        S("wick_fermi_phys", "core", 800, need=["full", "partial", "nonzero", "constrained"]),
        S("wick_bose", "core", 800, need=["full", "partial", "nonzero"]),
        S("wick_spinfree", "core", 1000, need=["full", "partial", "nonzero"]),
    ], real=CORE, stub=[RT]),
    "C02": dict(scenarios=[
        S("rewrite", "core", 8000, need=["sum"]),
        S("equivalent", "core", 6000, need=["cancelled"]),
        S("idempotent", "core", 4000, need=["done"]),
        S("collect", "core", 6000, need=["sum", "single"]),
    ], real=CORE, stub=[RT]),
    "C03": dict(scenarios=[
        S("par_plain", "util", 40000, need=["each_shared_work", "reduce_shared_work", "do_barrier"]),
        S("par_faults", "util", 60000, need=["each_threw", "reduce_threw", "do_threw"]),
        S("par_nested", "util", 20000, need=["nested_done"]),
        S("par_env", "util", 8000),
    ], real=["SeQuant/core/runtime.hpp", "SeQuant/core/runtime.cpp"], stub=[RT]),
    "C04": dict(scenarios=[
        S("memo_plain", "util", 40000),
        S("memo_faults", "util", 60000, need=["memo_nested", "memo_failed"]),
    ], real=["SeQuant/core/utility/memoize.hpp"], stub=[RT]),
    "C05": dict(scenarios=[
        S("singleton", "util", 60000, need=["construction_retried", "set_ok", "set_refused"]),
        S("logger", "util", 6000),
        S("factorials", "util", 40000),
    ], real=["SeQuant/core/utility/singleton.hpp", "SeQuant/core/logger.hpp", "SeQuant/core/math.hpp"], stub=[RT]),
    "C06": dict(scenarios=[
        S("context_history", "core", 60000, need=["scope_left", "scope_unwound", "context_alloc_failed"]),
        S("context_first_use", "core", 6000),
        S("context_threads", "core", 20000, need=["orders_checked"]),
        S("mbpt_context_history", "mbpt", 20000, need=["scope_left", "scope_unwound"]),
        S("mbpt_context_threads", "mbpt", 10000),
    ], real=["SeQuant/core/context.cpp", "SeQuant/core/utility/context.hpp", "SeQuant/domain/mbpt/context.cpp"], stub=[RT]),
    "C07": dict(scenarios=[
        S("registry_history", "core", 60000, need=["registry_refused", "registry_alloc_failed", "registry_long_history"]),
        S("registry_readers", "core", 10000),
        S("op_registry_history", "mbpt", 40000, need=["op_refused", "op_alloc_failed"]),
    ], real=["SeQuant/core/index_space_registry.hpp", "SeQuant/core/space.hpp", "SeQuant/domain/mbpt/op_registry.cpp"], stub=[RT]),
    "C08": dict(scenarios=[
        S("failed_wick", "core", 1500, need=["failed"]),
        S("failed_rewrite", "core", 2000, need=["failed"]),
    ], real=CORE, stub=[RT]),
    "C09": dict(scenarios=[
        S("expectation_sr", "mbpt", 500, need=["nonzero", "constrained"], timeout=120),
        S("expectation_sf", "mbpt", 250, need=["nonzero"], timeout=120),
        S("expectation_mr", "mbpt", 300, need=["nonzero"], timeout=120),
        S("operators", "mbpt", 1500),
        S("transformation", "mbpt", 200, need=["transformed"], timeout=120),
        S("screening", "mbpt", 1000, need=["nonzero", "screened"], timeout=120),
        S("coupled_cluster", "mbpt", 160, need=["nonzero", "t", "λ", "rdm", "eom_r", "eom_l"], timeout=200),
        S("coupled_cluster_sf", "mbpt", 50, need=["nonzero"], timeout=200),
    ], real=CORE + ["SeQuant/domain/mbpt/{op,vac_av,utils,convention,op_registry}", "SeQuant/domain/mbpt/models/cc.cpp"], stub=[RT]),
    "C10": dict(scenarios=[
        S("evaluation", "eval", 24000, need=["failed", "persistent", "batched", "cached", "rounds"]),
    ], real=CORE + ["SeQuant/core/eval (trees, cache, batching, evaluation)"],
        stub=[RT, "numerical backend: exact dense tensors over a finite field (sim/plain/dense.cpp, sim/harness/eval/backend.hpp)"]),
    "C11": dict(scenarios=[
        S("edits", "core", 16000, need=["value-compared", "failed", "replace", "leaf", "append", "prepend", "rewrite"]),
    ], real=CORE, stub=[RT]),
}
