import fmlcommon


def run(ctx):
    n = fmlcommon.run(ctx, "setops", 30000, 100000)
    ctx.need("cases", ctx.cov.get("evaluations", 0), n * 9 // 10)
