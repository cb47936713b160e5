import fmlcommon


def run(ctx):
    ctx.rule = ("random histories of tpalloc/tprealloc/tpfree/tpexport/tpimport over three buffers; after every call type, "
                "size and content of the buffers are compared with a model, string exports with an independent base64")
    ctx.assumptions = ["an accepted damaged FML32 image whose header is consistent is only freed, its fields are not read"]
    n = fmlcommon.run(ctx, "mem", 8000, 120000, harness="mem")
    ctx.cov["distinct_nontrivial"] = len(ctx.sets.get("import", ())) + len(ctx.sets.get("realloc", ()))
    ctx.need("imports", ctx.cov.get("imports", 0), n * 2)
    ctx.need("refused imports", ctx.cov.get("imports_refused", 0), n // 4)
    ctx.need("reallocations", ctx.cov.get("reallocs", 0), n * 2)
    ctx.need("kinds of imports", len(ctx.sets.get("import", ())), 20)
