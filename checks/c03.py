import fmlcommon


def run(ctx):
    n = fmlcommon.run(ctx, "conv", 60000, 600000)
    ctx.need("cases", ctx.cov.get("evaluations", 0), n * 9 // 10)
