import os
import fx


def run(ctx):
    ctx.rule = ("one evaluation = one history of log calls: either one writer under changing settings, clock and faults whose every call is "
                "compared with the one line it may append, or several processes and threads whose files are checked line by line afterwards")
    ctx.assumptions = ["the wall clock is replaced by real time plus an offset so that dates, day changes and time zones can be chosen"]
    b = fx.Build("asan")
    src = os.path.join(fx.VERIF, "harness/ulog.cpp")
    exe = b.build({"ulog": {"src": [src]}})["ulog"]
    n = ctx.n(3000, 40000)
    fx.run_cases(ctx, exe, "seq", n, wall=ctx.n(200, 500))
    m = ctx.n(160, 2000)
    fx.run_cases(ctx, exe, "conc", m, wall=ctx.n(200, 350), workers=4, case_cpu=60)
    ctx.cov["distinct_nontrivial"] = len(ctx.sets.get("interleaving", ())) + len(ctx.sets.get("shape", ())) * len(ctx.sets.get("length_class", ()))
    ctx.need("lines of one writer", ctx.cov.get("lines_checked", 0), n * 2)
    ctx.need("faults", sum(ctx.cov.get("fault_%d" % i, 0) for i in (1, 2, 3)), n // 4)
    ctx.need("concurrent lines", ctx.cov.get("conc_lines", 0), m * 120)
    ctx.need("runs over a change of day", ctx.cov.get("conc_runs_over_midnight", 0), m // 12)
