import os
import fx

FIELDS = """*base 4000
VS1\t1\tshort\t-\tshort one
VS2\t2\tshort
VL1\t11\tlong
VL2\t12\tlong
VC1\t21\tchar
VC2\t22\tchar
VF1\t31\tfloat
VF2\t32\tfloat
VD1\t41\tdouble
VD2\t42\tdouble
VT1\t51\tstring
VT2\t52\tstring
VA1\t61\tcarray
VA2\t62\tcarray
VN1\t71\tfml32
VN2\t72\tfml32
"""


def run(ctx, mode, quick, thorough, extra_env=None, harness="fml"):
    b = fx.Build("asan")
    exe = b.build({harness: {"src": [os.path.join(fx.VERIF, "harness/%s.cpp" % harness)]}})[harness]
    with open(os.path.join(ctx.scratch, "vfields"), "w") as f:
        f.write(FIELDS)
    env = {"FLDTBLDIR32": ctx.scratch, "FIELDTBLS32": "vfields"}
    n = ctx.n(quick, thorough)
    fx.run_cases(ctx, exe, mode, n, env=env, wall=ctx.n(240, 800))
    return n
