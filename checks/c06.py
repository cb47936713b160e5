import os
import fx
import fmlcommon


def run(ctx):
    ctx.rule = ("each text is read by an independent recognizer and evaluator; the verdict, value, printed form "
                "and untouched buffer of the library are compared with it")
    ctx.assumptions = ["results that C leaves undefined (signed overflow, float to integer out of range) are not compared",
                       "backslash before a character that is no hex digit and fractional subscripts are not compared"]
    n = fmlcommon.run(ctx, "expr", 2400, 40000, harness="expr")
    ctx.cov["distinct_nontrivial"] = len(ctx.sets.get("operator_operands", ()))
    ctx.need("valid expressions evaluated", ctx.cov.get("evals", 0), n * 8)
    ctx.need("rejected texts", ctx.cov.get("rejected", 0), n * 3)
    ctx.need("operator/operand combinations", len(ctx.sets.get("operator_operands", ())), 300)
