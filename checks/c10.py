import os
import fx


def run(ctx):
    ctx.rule = ("one evaluation = one history of registry calls: one process whose every call is compared with a model of all tables and lookups, "
                "or several processes over one shared registry whose recorded lookups are checked against what was advertised at that time, "
                "or processes that load one configuration into shared memory at the same moment")
    ctx.assumptions = ["callers change the tables under data_lock, as server.cpp and client.cpp do; the calls that do so are checked by C11 and C16"]
    b = fx.Build("asan")
    exe = b.build({"reg": {"src": [os.path.join(fx.VERIF, "harness/reg.cpp")]}})["reg"]
    exe = fx.own_ipc(ctx, exe)
    n = ctx.n(3000, 40000)
    fx.run_cases(ctx, exe, "one", n, wall=ctx.n(150, 300))
    m = ctx.n(80, 1000)
    fx.run_cases(ctx, exe, "conc", m, wall=ctx.n(200, 350), workers=3, case_cpu=60)
    k = ctx.n(100, 1000)
    fx.run_cases(ctx, exe, "attach", k, wall=ctx.n(120, 200), workers=3, case_cpu=60)
    c = ctx.cov
    ctx.cov["distinct_nontrivial"] = len(ctx.sets.get("interleaving", ())) + len(ctx.sets.get("outcome", ())) + len(ctx.sets.get("sharing", ())) + len(ctx.sets.get("attach", ()))
    ctx.need("tables compared", c.get("table_comparisons", 0), n * 5)
    ctx.need("lookups by one process", c.get("lookups", 0), n)
    ctx.need("calls refused", c.get("refused", 0), n)
    ctx.need("lookups between processes", c.get("conc_found", 0) + c.get("conc_none", 0), m * 100)
    ctx.need("changes between lookups", c.get("conc_changes", 0), m * 20)
    ctx.need("configurations loaded together", c.get("attach_loaded", 0), k // 3)
