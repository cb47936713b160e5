import fmlcommon


def run(ctx):
    n = fmlcommon.run(ctx, "map", 20000, 120000)
    ctx.need("cases", ctx.cov.get("evaluations", 0), n * 9 // 10)
