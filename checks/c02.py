import fmlcommon


def run(ctx):
    n = fmlcommon.run(ctx, "space", 40000, 200000)
    ctx.need("cases", ctx.cov.get("evaluations", 0), n * 9 // 10)
