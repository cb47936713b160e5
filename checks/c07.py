import os
import fx


def run(ctx):
    ctx.rule = ("random sets of field tables in several directories; every name and id is looked up in both directions between loads and unloads, by one "
                "thread and by many; headers made by mkfldhdr32 are read by the C preprocessor and compared; malformed tables have to be refused")
    ctx.assumptions = ["names and ids are unique over the tables of a case", "a name returned by Fname32 is read only until Fidnm_unload32"]
    src = os.path.join(fx.VERIF, "harness/fldtbl.cpp")
    b = fx.Build("asan")
    ex = b.build({"fldtbl": {"src": [src]}, "mkfldhdr32": {"src": b.prog_sources("mkfldhdr32")}})
    t = fx.Build("tsan").build({"fldtbl": {"src": [src]}})
    env = {"MKFLDHDR32": ex["mkfldhdr32"]}
    n = ctx.n(3000, 40000)
    fx.run_cases(ctx, ex["fldtbl"], "tables", n, env=env, wall=ctx.n(200, 500), case_cpu=20)
    m = ctx.n(600, 8000)
    fx.run_cases(ctx, ex["fldtbl"], "threads", m, wall=ctx.n(120, 200), workers=4, case_cpu=60)
    k = ctx.n(200, 2500)
    fx.run_cases(ctx, t["fldtbl"], "threads", k, wall=ctx.n(120, 180), workers=4, case_cpu=60)
    ctx.cov["distinct_nontrivial"] = len(ctx.sets.get("world", ())) + len(ctx.sets.get("threads", ())) + len(ctx.sets.get("damage", ()))
    ctx.need("lookups", ctx.cov.get("lookups", 0), n * 8)
    ctx.need("headers", ctx.cov.get("headers", 0), n // 40)
    ctx.need("malformed tables", ctx.cov.get("malformed", 0), n // 8)
    ctx.need("lookups by threads", ctx.cov.get("thread_lookups", 0), (m + k) * 150)
    ctx.need("kinds of damage", len(ctx.sets.get("damage", ())), 8)
