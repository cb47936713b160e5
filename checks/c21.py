"""C21: viewc32, buildserver, buildclient, buildtms.  The oracle for headers is the
C compiler (static assertions about every declared member); for built programs it
is what the running program hands to the library."""
import concurrent.futures as cf
import os, random, re, shutil, subprocess
import fx

CT = {"char": "char", "short": "short", "int": "int", "long": "long", "float": "float", "double": "double",
      "string": "char", "carray": "char"}
KW = {"char", "short", "int", "long", "float", "double", "string", "carray", "END", "VIEW", "if", "do", "for", "asm", "auto", "goto"}


def run1(cmd, env=None, cwd=None, timeout=60):
    e = dict(os.environ)
    e.update(fx.SANENV)
    e.update(env or {})
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", env=e, cwd=cwd, timeout=timeout)
    return p.returncode, p.stdout


def ident(r, used):
    while True:
        s = r.choice("abcXYZ") + "".join(r.choice("abXY_019") for _ in range(r.choice([0, 1, 5, 12, 40])))
        if s not in used and s not in KW and not s.startswith(("C_", "L_")):
            used.add(s)
            return s


def ws(r):
    return r.choice(["\t", " ", " \t ", "   "])


def null(r):
    return r.choice(["-", "0", "'\\0'", "\"Y\" ", "\"a b # c\"", "-1.5", "\"\\\\\"", "- trailing words", "'x'"])


def gen_view(r, n):
    """lines, views: [(name, [(type, cname, count, flags, size)])]"""
    lines, views, macros = [], [], {}
    vnames = set()

    def junk():
        k = r.random()
        if k < .08:
            lines.append("# comment " + r.choice(["x", "END", "VIEW z", "\\"]))
        elif k < .12:
            lines.append(r.choice(["", " ", " \t "]))
        elif k < .18:
            m = "RAW_%d_%d" % (n, len(lines))
            macros[m] = r.randrange(1000)
            lines.append("$#define %s %d" % (m, macros[m]))
    for _ in range(r.choice([1, 1, 1, 2, 3])):
        junk()
        v = "v%d_%s" % (n, ident(r, vnames))
        lines.append("VIEW" + ws(r) + v)
        used, fields = set(), []
        for _ in range(r.choice([1, 2, 5, 12])):
            junk()
            t = r.choice(list(CT))
            c = ident(r, used)
            count = r.choice([1, 1, 1, 2, 7, 100])
            flags = r.choice(["-", "-", "-", "C", "L", "CL", "LC"])
            size = r.choice([None, 1, 2, 16, 255]) if t in ("string", "carray") else None
            lines.append(ws(r).join([t, c, r.choice(["-", "FBNAME", "f_1"]), str(count), flags, "-" if size is None else str(size), null(r)]))
            fields.append((t, c, count, "" if flags == "-" else flags, size))
        junk()
        lines.append("END")
        views.append((v, fields))
    return lines, views, macros


def asserts(views, macros):
    out = []
    for v, fields in views:
        exp = []
        prev = None
        for t, c, count, fl, size in fields:
            dims = ("[%d]" % count if count > 1 else "") + ("[%d]" % size if size is not None else "")
            if "L" in fl:
                exp.append("unsigned int L_%s%s;" % (c, "[%d]" % count if count > 1 else ""))
            if "C" in fl:
                exp.append("int C_%s;" % c)
            exp.append("%s %s%s;" % (CT[t], c, dims))
        out.append("struct ref_%s { %s };" % (v, " ".join(exp)))
        out.append('_Static_assert(sizeof(struct %s) == sizeof(struct ref_%s), "size of %s");' % (v, v, v))
        for m in exp:
            name = re.match(r".* (\w+)[\[;]", m).group(1)
            out.append('_Static_assert(__builtin_types_compatible_p(__typeof__(((struct %s *)0)->%s), __typeof__(((struct ref_%s *)0)->%s)), "type of %s.%s");' % (v, name, v, name, v, name))
            if prev and not name.startswith(("C_", "L_")):
                out.append('_Static_assert(__builtin_offsetof(struct %s, %s) > __builtin_offsetof(struct %s, %s), "order of %s.%s");' % (v, name, v, prev, v, name))
            if not name.startswith(("C_", "L_")):
                prev = name
    for m, x in macros.items():
        out.append('_Static_assert(%s == %d, "line $ of %s");' % (m, x, m))
    return out


def damage(r, lines):
    """A text no reading of the format accepts; returns (lines, what)."""
    l = list(lines)
    mem = [i for i, x in enumerate(l) if re.match(r"(char|short|int|long|float|double|string|carray)\s", x)]
    i = r.choice(mem)
    f = l[i].split(None, 6)
    k = r.randrange(12)
    if k == 0:
        l = [x for x in l if x != "END"]
        return l, "no END"
    if k == 1:
        f[0] = r.choice(["strong", "longlong", "bool", "x"]); what = "unknown type"
    elif k == 2:
        f[3] = r.choice(["x", "-", "-3"]); what = "count not a number"
    elif k == 3:
        f[4] = r.choice(["X", "CX", "c", "Z"]); what = "unknown flag"
    elif k == 4:
        f[0], f[5] = r.choice(["char", "short", "int", "long", "float", "double"]), "8"; what = "size of a number"
    elif k == 5:
        f = f[:r.choice([1, 2, 3, 4, 5])]; what = "missing columns"
    elif k == 6:
        f[5] = r.choice(["x", "-2", "\"4\""]); f[0] = "string"; what = "size not a number"
    elif k == 7:
        f[1] = r.choice(["9a", "*p", "-", "a-b"]); what = "bad member name"
    elif k == 8:
        j = next(q for q, x in enumerate(l) if x.startswith("VIEW"))
        l[j] = "VIEW"
        return l, "view without name"
    elif k == 9:
        j = next(q for q, x in enumerate(l) if x.startswith("VIEW"))
        l.insert(j, "long before - 1 - - -")
        return l, "member before VIEW"
    elif k == 10:
        l.insert(i, "VIEW other")
        return l, "VIEW inside a view"
    else:
        l = ["END"] + l
        return l, "END before VIEW"
    l[i] = "\t".join(f)
    return l, what


def views(ctx, exe, r):
    total = ctx.n(1500, 12000)
    bad_every = 3

    def case(n):
        q = random.Random("%d-%d-view" % (ctx.seed, n))
        d = os.path.join(ctx.scratch, "v%d" % n)
        sub = os.path.join(d, q.choice(["src", "a.b", "x/y.z"]))
        out = os.path.join(d, "out")
        os.makedirs(sub)
        os.makedirs(out)
        lines, vs, macros = gen_view(q, n)
        base = q.choice(["data", "a_view", "A1"])
        ext = q.choice([".v", ".view", ""])
        src = os.path.join(sub, base + ext)
        text = "\n".join(lines) + "\n"
        nl = q.random() < .9
        bad = n % bad_every == 0
        what = None
        if bad:
            b, what = damage(q, lines)
            text = "\n".join(b) + "\n"
        open(src, "w").write(text if nl else text[:-1])
        hdr = os.path.join(out, base + ".h")
        if bad:
            open(hdr, "w").write("old\n")
        how = q.randrange(3)
        if how == 0:
            rc, o = run1([exe, "-n", "-d", out, src])
        elif how == 1:
            rc, o = run1([exe, "-n", "-d", out, base + ext], cwd=sub)
        else:
            rc, o = run1([exe, "-n", "-d", "../" * (2 if "/" in os.path.relpath(sub, d) else 1) + "out", "./" + base + ext], cwd=sub)
        rep = "viewc32 -n -d out %s, with:\n%s" % (base + ext, text)
        k = fx.san_key(o)
        if k:
            return ("crash-viewc32-" + k, o[-3000:], rep), None
        if bad:
            if rc == 0 or rc >= 126 and rc != 255:
                return ("invalid-view-accepted-" + what.replace(" ", "-"), "viewc32 exit %d for a view with: %s" % (rc, what), rep), None
            if open(hdr).read() != "old\n":
                return ("invalid-view-wrote-header", "header written for a view with: " + what, rep), None
            return None, ("bad", what)
        if rc != 0:
            return ("valid-view-refused", "viewc32 exit %d: %s" % (rc, o[-300:]), rep), None
        if sorted(os.listdir(out)) != [base + ".h"]:
            return ("header-name", "headers %s instead of %s.h" % (os.listdir(out), base), rep), None
        c = os.path.join(d, "t.c")
        open(c, "w").write('#include "%s"\n%s\n' % (hdr, "\n".join(asserts(vs, macros))))
        rc, o = run1(["gcc", "-w", "-fsyntax-only", c])
        if rc != 0:
            m = re.search(r"static assertion failed: \"(\w+)", o)
            return ("header-" + (m.group(1) if m else "does-not-compile"), o[:600], rep + "\n--- header:\n" + open(hdr).read()), None
        shutil.rmtree(d)
        return None, ("ok", vs)

    with cf.ThreadPoolExecutor(fx.NCPU) as ex:
        for v, okk in ex.map(case, range(total)):
            ctx.count("evaluations")
            if v:
                ctx.violation(*v)
            elif okk[0] == "bad":
                ctx.count("invalid_views")
                ctx.distinct("damage", okk[1])
            else:
                ctx.count("headers_compiled")
                for name, fields in okk[1]:
                    for t, c, count, fl, size in fields:
                        ctx.count("members")
                        ctx.distinct("member_shape", "%s-%s-%s-%s" % (t, count > 1, fl, size is not None))
    ctx.need("headers", ctx.cov.get("headers_compiled", 0), total // 2)
    ctx.need("invalid views", ctx.cov.get("invalid_views", 0), total // 4)
    ctx.need("kinds of damage", len(ctx.sets.get("damage", ())), 10)


def tuxdir(ctx, b):
    td = os.path.join(ctx.scratch, "tux")
    for d in ("bin", "lib", "udataobj", "rm lib"):
        os.makedirs(os.path.join(td, d))
    os.symlink(os.path.join(fx.REPO, "include"), os.path.join(td, "include"))
    return td


def builds(ctx, ex, r):
    td = os.path.join(ctx.scratch, "tux")
    for d in ("bin", "lib", "udataobj", "rmlib"):
        os.makedirs(os.path.join(td, d))
    os.symlink(os.path.join(fx.REPO, "include"), os.path.join(td, "include"))
    os.symlink(ex["libfuxedo"], os.path.join(td, "lib/libfuxedo.so"))
    for t in ("buildserver", "buildclient", "buildtms"):
        os.symlink(ex[t], os.path.join(td, "bin", t))
    rms = {"NONE": None}
    rmtext = ["# comment", "", "NONE:tmnull_switch:"]
    for i, nm in enumerate(["MY_RM", "Vendor/XA", "R2"]):
        sw = "sw_%d_switch" % i
        c = os.path.join(td, "rmlib", "rm%d.c" % i)
        open(c, "w").write('#include <xa.h>\nstruct xa_switch_t %s = { "the rm %d" };\n' % (sw, i))
        rc, o = run1(["gcc", "-w", "-shared", "-fPIC", "-I" + os.path.join(fx.REPO, "include"), c, "-o", os.path.join(td, "rmlib", "librm%d.so" % i)])
        if rc:
            raise fx.CheckError("rm library: " + o)
        rmtext.append("%s:%s:-L%s/rmlib -lrm%d" % (nm, sw, td, i))
        rms[nm] = "the rm %d" % i
    open(os.path.join(td, "udataobj/RM"), "w").write("\n".join(rmtext) + "\n")
    spy = os.path.join(td, "lib/spy.so")
    rc, o = run1(["gcc", "-w", "-shared", "-fPIC", "-I" + os.path.join(fx.REPO, "include"), os.path.join(fx.VERIF, "harness/spy.c"), "-o", spy])
    if rc:
        raise fx.CheckError("spy: " + o)
    # the name the library itself gives to "no resource manager"
    env = {"TUXDIR": td, "LD_LIBRARY_PATH": td + "/lib:" + td + "/rmlib"}
    total = ctx.n(120, 1200)

    def case(n):
        q = random.Random("%d-%d-build" % (ctx.seed, n))
        d = os.path.join(ctx.scratch, "b%d" % n)
        os.makedirs(d)
        used = set()
        funcs = [ident(q, used) for _ in range(q.choice([1, 2, 5]))]
        nfiles = q.choice([1, 2])
        for i in range(nfiles):
            with open(os.path.join(d, "f%d.c" % i), "w") as f:
                f.write("#include <atmi.h>\n#include <stdio.h>\n")
                for k, fn in enumerate(funcs):
                    if k % nfiles == i:
                        f.write('void %s(TPSVCINFO *s) { puts("%s"); }\n' % (fn, fn))
        svcs = []
        names = set()
        for _ in range(q.choice([0, 1, 2, 6, 20])):
            if q.random() < .4:
                fn = q.choice(funcs)
                sv = fn
            else:
                fn = q.choice(funcs)
                sv = q.choice(["SVC_", "a", ".x", "TO-UPPER", "a b"][:4]) + str(q.randrange(10**q.choice([1, 4, 9])))
            if sv in names:
                continue
            names.add(sv)
            svcs.append((sv, fn))
        threads = q.random() < .4
        rm = q.choice([None, "NONE", "MY_RM", "Vendor/XA", "R2", "missing"])
        keep = q.random() < .2
        out = q.choice(["server", "./srv", os.path.join(d, "abs-srv")])
        kind = q.choice(["server"] * 6 + ["client", "tms"])
        e = dict(env)
        if kind == "client":
            open(os.path.join(d, "cl.c"), "w").write('#include <atmi.h>\n#include <stdio.h>\nint main(int c, char **v) { char *p = tpalloc("STRING", 0, 10); printf("%s %d\\n", p ? "client" : "null", c); return 5; }\n')
            cmd = [ex["buildclient"], "-o", out, "-f", "cl.c", "-f", "-Wl,--no-as-needed"] + (["-l", "-lm"] if q.random() < .5 else [])
        elif kind == "tms":
            if rm is None:
                rm = "NONE"
            cmd = [ex["buildtms"], "-o", out, "-r", rm]
        else:
            cmd = [ex["buildserver"], "-o", out]
            for i in range(nfiles):
                cmd += ["-f", "f%d.c" % i]
            for sv, fn in svcs:
                cmd += ["-s", sv if sv == fn and q.random() < .5 else sv + ":" + fn]
            if threads:
                cmd += ["-t"]
            if rm:
                cmd += ["-r", rm]
            if keep:
                cmd += ["-k"]
            e["CFLAGS"] = q.choice(["", "-O0", "-w -g"])
        broken = kind == "server" and rm != "missing" and q.random() < .1
        if broken:
            cmd += ["-s", "NOBODY:no_such_function"]
        rep = "in %s: %s" % (d, " ".join(cmd))
        rc, o = run1(cmd, env=e, cwd=d, timeout=120)
        k = fx.san_key(o)
        if k:
            return ("crash-%s-%s" % (kind, k), o[-3000:], rep), None
        outp = os.path.join(d, out)
        if (rm == "missing" and kind != "client") or broken:
            if rc == 0:
                return ("bad-build-status", "exit 0 although %s" % ("the resource manager is unknown" if rm == "missing" else "a function is missing"), rep), None
            if os.path.exists(outp):
                return ("bad-build-output", "a program was written", rep), None
            return None, ("refused", kind)
        if rc != 0 or not os.path.exists(outp):
            return ("build-failed-" + kind, "exit %d: %s" % (rc, o[-800:]), rep), None
        left = [f for f in os.listdir(d) if f.startswith("fuxedo-")]
        if len(left) != (1 if kind == "server" and keep else 0):
            return ("generated-code-left", "left %s" % left, rep), None
        if kind == "client":
            rc, o = run1([outp, "x"], env=e, cwd=d)
            if rc != 5 or o != "client 2\n":
                return ("client-runs", "exit %d: %s" % (rc, o[-300:]), rep), None
            return None, ("client", "")
        e2 = dict(e)
        e2["LD_PRELOAD"] = spy
        rc, o = run1([outp, "-g", "1", "x y"], env=e2, cwd=d)
        want = []
        for sv, fn in svcs if kind == "server" else [(".TM", "TM")]:
            want.append("service %s %s %s" % (sv, fn, "set" if sv.startswith(".") else fn))
        got = [l for l in o.splitlines() if l.startswith("service ")]
        if rc != 0:
            return ("server-starts", "exit %d: %s" % (rc, o[-500:]), rep), None
        if sorted(got) != sorted(want):
            return ("server-services", "built with %s, program has %s" % (sorted(set(want) - set(got))[:6], sorted(set(got) - set(want))[:6]), rep), None
        m = re.search(r"^rm (.*)$", o, re.M)
        if rm and rms.get(rm):
            if m.group(1) != rms[rm]:
                return ("server-rm", "linked %r instead of %r" % (m.group(1), rms[rm]), rep), None
        elif m.group(1).startswith("the rm") or m.group(1) == "(null)":
            return ("server-rm", "linked %r" % m.group(1), rep), None
        if "threads %d" % (1 if threads and kind == "server" else 0) not in o:
            return ("server-threads", o[:100], rep), None
        if "args -g 1 x y" not in o:
            return ("server-arguments", o[-100:], rep), None
        # and without the stand-in the program starts the library's own main
        rc, o = run1([outp, "-h"], env=e, cwd=d)
        if rc != 0:
            return ("server-help", "exit %d: %s" % (rc, o[-300:]), rep), None
        shutil.rmtree(d)
        return None, (kind, "%d-%s-%s" % (len(svcs), rm, threads))

    with cf.ThreadPoolExecutor(fx.NCPU) as pool:
        for v, okk in pool.map(case, range(total)):
            ctx.count("evaluations")
            if v:
                ctx.violation(*v)
            else:
                ctx.count("programs_" + okk[0])
                ctx.distinct("program", okk[0] + okk[1])
    ctx.need("servers", ctx.cov.get("programs_server", 0), total // 4)


def run(ctx):
    ctx.rule = ("one evaluation = one generated view file (valid: its header is compiled against assertions on every member; invalid: it has to be refused) "
                "or one program built with random services, functions, resource managers and options and then run")
    ctx.assumptions = ["buildclient has no use for a resource manager in this code base (no client can use one)", "comma lists after -s are not part of the documented interface"]
    b = fx.Build("asan")
    p = fx.Build("plain")
    tg = {t: {"src": b.prog_sources(t)} for t in ("viewc32", "buildserver", "buildclient", "buildtms")}
    ex = b.build(tg)
    ex.update(p.build({"libfuxedo": {"src": [], "shared": True}}))
    r = random.Random(ctx.seed)
    views(ctx, ex["viewc32"], r)
    builds(ctx, ex, r)
    ctx.cov["distinct_nontrivial"] = len(ctx.sets.get("member_shape", ())) + len(ctx.sets.get("damage", ())) + len(ctx.sets.get("program", ()))
    ctx.sample("views and programs are described in the replay files when they fail; %d member shapes seen" % len(ctx.sets.get("member_shape", ())))
