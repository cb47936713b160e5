"""Shared machinery of the checks: build of /repo's working tree, worker runs,
verdicts, known findings, evidence.

A check is a python module checks/<id>.py with `def run(ctx)`.  The deciding
step is always an oracle over an execution of code compiled from /repo's
current working tree; everything here is plumbing around that.
"""
import concurrent.futures as cf
import hashlib, json, os, re, shlex, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
CACHE = os.path.join(VERIF, ".cache")
NCPU = max(1, os.cpu_count() or 1)

SAN = {
    "asan": "-O1 -g1 -fno-omit-frame-pointer -fsanitize=address,undefined "
            "-fno-sanitize-recover=all -fsanitize-address-use-after-scope",
    "tsan": "-O1 -g1 -fno-omit-frame-pointer -fsanitize=thread -U_FORTIFY_SOURCE",
    "plain": "-O1 -g1",
}
SANENV = {
    "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=98:"
                    "allocator_may_return_null=1:detect_stack_use_after_return=1:"
                    "handle_abort=1:print_legend=0:malloc_context_size=12",
    "UBSAN_OPTIONS": "print_stacktrace=1:exitcode=98",
    "TSAN_OPTIONS": "allocator_may_return_null=1:halt_on_error=0:exitcode=66:report_signal_unsafe=0:"
                    "history_size=4",
}


class CheckError(Exception):
    """The check itself could not do its work (neither held nor violated)."""


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                          text=True, errors="replace", **kw)


# ---------------------------------------------------------------- build
def _sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b"\0")
    return h.hexdigest()[:32]


def _read(p):
    with open(p, "rb") as f:
        return f.read()


def _make_vars():
    """Lists of sources, as the project's own Makefile.am states them."""
    txt = _read(os.path.join(REPO, "Makefile.am")).decode()
    txt = re.sub(r"\\\n", " ", txt)
    out = {}
    for m in re.finditer(r"^(\w+)\s*=\s*(.*)$", txt, re.M):
        out[m.group(1)] = m.group(2).split()
    return out


def _headers_hash():
    parts = []
    for d in ("src", "include"):
        for n in sorted(os.listdir(os.path.join(REPO, d))):
            p = os.path.join(REPO, d, n)
            if os.path.isfile(p) and not n.endswith(".cpp"):
                parts.append(n)
                parts.append(_read(p))
    return _sha(*parts)


INCS = ["-I" + os.path.join(REPO, d) for d in
        ("include", "src", "third_party/clara", "third_party/GSL", "third_party/catch")]
DEFS = ['-DPACKAGE_NAME="Fuxedo"', '-DPACKAGE="fuxedo"', '-DPACKAGE_VERSION="0.0.1"',
        '-DPACKAGE_STRING="Fuxedo 0.0.1"', '-DVERSION="0.0.1"', "-DHAVE_CXX17=1",
        "-DHAVE_CXX_FILESYSTEM=1", "-DHAVE_CXX_EXPERIMENTAL_FILESYSTEM=1",
        "-DCATCH_CONFIG_NO_POSIX_SIGNALS"]


class Build:
    def __init__(self, san="asan", extra=""):
        self.san = san
        self.flags = shlex.split(SAN[san] + " " + extra)
        self.cxx = "g++"
        self.cc = "gcc"
        self.vars = _make_vars()
        self.hh = _headers_hash()
        self.hx = self._harness_hash()
        os.makedirs(os.path.join(CACHE, "o"), exist_ok=True)
        self.jobs = {}

    def _harness_hash(self):
        d = os.path.join(VERIF, "harness")
        return _sha(*[_read(os.path.join(d, n)) for n in sorted(os.listdir(d)) if n.endswith(".h")])

    def _obj(self, src, extra=()):
        path = src if os.path.isabs(src) else os.path.join(REPO, src)
        isc = path.endswith(".c")
        comp = [self.cc] if isc else [self.cxx, "-std=gnu++17"]
        cmd = comp + self.flags + ["-fPIC", "-w"] + DEFS + INCS + ["-I" + os.path.join(VERIF, "harness")] + list(extra)
        key = _sha(" ".join(cmd), path, _read(path), self.hh, self.hx if path.startswith(VERIF) else "")
        out = os.path.join(CACHE, "o", key + ".o")
        return cmd, path, out

    def _compile(self, job):
        cmd, path, out = job
        if not os.path.exists(out):
            tmp = out + ".%d.tmp.o" % os.getpid()
            r = sh(cmd + ["-c", path, "-o", tmp])
            if r.returncode != 0:
                raise CheckError("compiling %s failed:\n%s" % (path, r.stdout[-3000:]))
            os.rename(tmp, out)
        return out

    def lib_sources(self):
        v = self.vars.get("src_libfuxedo_la_SOURCES")
        if not v:
            raise CheckError("Makefile.am: no src_libfuxedo_la_SOURCES")
        return [s for s in v if s.endswith((".cpp", ".c", ".cc"))]

    def prog_sources(self, prog):
        v = self.vars.get("src_%s_SOURCES" % prog)
        if not v:
            raise CheckError("Makefile.am: no src_%s_SOURCES" % prog)
        return [s for s in v if s.endswith((".cpp", ".c", ".cc"))]

    def build(self, targets):
        """targets: name -> dict(src=[..], lib=bool, cflags=[..], ldflags=[..]);
        returns name -> path of the executable.  All objects in one parallel batch."""
        jobs, per = {}, {}
        big = {}
        for name, t in targets.items():
            objs = []
            for s in t.get("src", []):
                j = self._obj(s, t.get("cflags", ()))
                jobs[j[2]] = j
                objs.append(j[2])
            if t.get("lib", True):
                for s in self.lib_sources():
                    j = self._obj(s)
                    jobs[j[2]] = j
                    objs.append(j[2])
            per[name] = objs
        # big sources first, so the batch does not end on one of them
        order = sorted(jobs.values(), key=lambda j: -os.path.getsize(j[1]) - (100000 if "clara" in _read(j[1]).decode(errors="replace") or "/fml32" in j[1] else 0))
        with cf.ThreadPoolExecutor(NCPU) as ex:
            list(ex.map(self._compile, order))

        def link(name):
            t = targets[name]
            shared = t.get("shared", False)
            key = _sha(" ".join(per[name]), " ".join(self.flags), " ".join(t.get("ldflags", ())), str(shared))
            out = os.path.join(CACHE, "x-%s-%s" % (key, name))
            if not os.path.exists(out):
                tmp = out + ".%d.tmp" % os.getpid()
                r = sh([self.cxx] + self.flags + (["-shared", "-fPIC"] if shared else []) +
                       ["-rdynamic"] + per[name] + ["-o", tmp] + list(t.get("ldflags", ())) +
                       ["-lpthread", "-ldl"])
                if r.returncode != 0:
                    raise CheckError("linking %s failed:\n%s" % (name, r.stdout[-3000:]))
                os.rename(tmp, out)
            return name, out

        with cf.ThreadPoolExecutor(NCPU) as ex:
            return dict(ex.map(link, targets))


# ---------------------------------------------------------------- findings
def load_known():
    """KNOWN_FINDINGS: lines `known: property=<id> key=<regex> :: <what fails>`
    and `fixed: property=<id> <commit> <what failed>` (a fixed entry suppresses
    nothing)."""
    out = []
    p = os.path.join(VERIF, "KNOWN_FINDINGS")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\S+) key=(\S+) :: (.*)$", line.strip())
            if m:
                out.append((m.group(1), re.compile(m.group(2)), m.group(3)))
    return out


# ---------------------------------------------------------------- context
class Ctx:
    def __init__(self, pid, level="exploration"):
        self.pid = pid
        self.level = level
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.seed = int(os.environ.get("VERIF_SEED", "1") or "1")
        self.t0 = time.time()
        self.scratch = tempfile.mkdtemp(prefix="fxv-%s-" % pid, dir="/tmp")
        os.chmod(self.scratch, 0o755)
        self.viol = {}        # key -> (detail, replay payload)
        self.cov = {}         # measured counters
        self.samples = []
        self.sets = {}        # name -> set of distinct things
        self.assumptions = []
        self.rule = ""
        self.min_events = []  # (description, measured, required)
        self.notes = []

    def thorough(self):
        return self.tier == "thorough"

    def n(self, quick, thorough):
        return thorough if self.thorough() else quick

    def count(self, name, k=1):
        self.cov[name] = self.cov.get(name, 0) + k

    def distinct(self, name, item):
        self.sets.setdefault(name, set()).add(item)

    def sample(self, s, limit=12):
        if len(self.samples) < limit:
            self.samples.append(s)

    def violation(self, key, detail, replay=None):
        key = re.sub(r"\s+", "_", key.strip())
        if key not in self.viol:
            self.viol[key] = (detail, replay)

    def need(self, what, got, least):
        """The run has to have observed at least this much to mean anything."""
        self.min_events.append((what, got, least))

    def finish(self):
        known = load_known()
        rc = 0
        n_new = 0
        rdir = os.path.join(VERIF, "replays", self.pid)
        for key, (detail, replay) in sorted(self.viol.items()):
            k = [w for (p, rx, w) in known if p == self.pid and rx.fullmatch(key)]
            if k:
                print("KNOWN-FINDING: property=%s %s [%s]" % (self.pid, k[0], key))
                continue
            n_new += 1
            os.makedirs(rdir, exist_ok=True)
            path = os.path.join(rdir, "%s-%s.txt" % (re.sub(r"[^\w.-]+", "_", key)[:80], self.seed))
            with open(path, "w") as f:
                f.write("property %s  key %s  seed %d  tier %s\n\n%s\n\n%s\n" % (
                    self.pid, key, self.seed, self.tier, detail,
                    replay if replay is not None else "replay: VERIF_SEED=%d VERIF_TIER=%s ./check %s" % (self.seed, self.tier, self.pid)))
            print("  %s: %s" % (key, detail.strip().splitlines()[0] if detail.strip() else ""))
            print("VIOLATION property=%s replay=%s" % (self.pid, path))
            rc = 1
        cov = dict(self.cov)
        for k, s in self.sets.items():
            cov["distinct_" + k] = len(s)
        cov.setdefault("evaluations", 0)
        cov.setdefault("distinct_nontrivial", 0)
        cov["rule"] = self.rule
        cov["samples"] = self.samples or ["none"]
        if self.notes:
            cov["notes"] = self.notes
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed,
              "level": self.level, "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2),
              "violations": n_new}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")
        shutil.rmtree(self.scratch, ignore_errors=True)
        if rc == 0:
            bad = [m for m in self.min_events if m[1] < m[2]]
            if bad:
                print("INCONCLUSIVE property=%s: too little observed: %s" % (self.pid, bad))
                return 3
            print("held property=%s evaluations=%d distinct=%d wall=%.1fs" % (
                self.pid, cov["evaluations"], cov["distinct_nontrivial"], time.time() - self.t0))
        return rc


# ---------------------------------------------------------------- workers
def san_key(text):
    """Stable key for a sanitizer report: kind + first frame in the project."""
    m = re.search(r"ERROR: AddressSanitizer: ([\w-]+)", text)
    kind = None
    if m:
        kind = "asan-" + m.group(1)
    else:
        m = re.search(r"runtime error: (.*)", text)
        if m:
            kind = "ubsan-" + re.sub(r"0x[0-9a-f]+|-?\d+(\.\d+)?(e[+-]?\d+)?", "N", m.group(1))[:60]
        elif "ThreadSanitizer" in text:
            m = re.search(r"WARNING: ThreadSanitizer: ([^(]+)", text)
            kind = "tsan-" + (m.group(1).strip() if m else "report")
        elif "terminate called" in text:
            m = re.search(r"terminate called after throwing an instance of '([^']+)'", text)
            kind = "terminate-" + (m.group(1) if m else "")
    if kind is None:
        return None
    fr = None
    for m in re.finditer(r"#\d+ 0x[0-9a-f]+ in (.+?) (/\S+)", text):
        if m.group(2).startswith(REPO + "/src") or "/src/" in m.group(2):
            fr = re.sub(r"\(.*", "", m.group(1))
            break
    return re.sub(r"[^\w:~.-]+", "_", kind + ("@" + fr if fr else ""))


def own_ipc(ctx, exe):
    """A script that runs exe in a System V IPC namespace of its own (queues,
    semaphores and segments of a run that goes wrong vanish with it)."""
    p = os.path.join(ctx.scratch, "ns-" + os.path.basename(exe)[-40:])
    with open(p, "w") as f:
        f.write("#!/bin/sh\nif unshare -Ur -i true 2>/dev/null; then VERIF_NS=1 exec unshare -Ur -i %s \"$@\"; fi\nexec %s \"$@\"\n" % (exe, exe))
    os.chmod(p, 0o755)
    return p


def run_cases(ctx, exe, mode, total, extra=(), env=None, workers=None, case_cpu=6,
              max_crashes=6, wall=420, cwd=None):
    """Runs cases 0..total-1 of a harness in parallel worker processes.  A worker
    that dies names the case it was in (kept in a mapped file); the rest of its
    range is run by a new process.  Lines `@V key<TAB>detail`, `@C name n`,
    `@D set item`, `@S text` on stdout are collected."""
    workers = workers or NCPU
    e = dict(os.environ)
    e.update(SANENV)
    if env:
        e.update(env)
    per = (total + workers - 1) // workers
    ranges = [(i * per, min(total, (i + 1) * per)) for i in range(workers) if i * per < total]
    deadline = time.time() + wall

    def one(rng):
        lo, hi = rng
        res = []
        crashes = 0
        while lo < hi:
            pf = os.path.join(ctx.scratch, "prog-%s-%d-%d" % (mode, lo, hi))
            wd = os.path.join(ctx.scratch, "wd-%s-%d" % (mode, rng[0]))
            os.makedirs(wd, exist_ok=True)
            cmd = [exe, mode, str(ctx.seed), str(lo), str(hi), pf, str(case_cpu)] + list(extra)
            try:
                p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                                   errors="replace", env=e, cwd=cwd or wd,
                                   timeout=max(5, deadline - time.time()))
                out, err, rc = p.stdout, p.stderr, p.returncode
            except subprocess.TimeoutExpired as x:
                out = (x.stdout or b"").decode(errors="replace") if isinstance(x.stdout, bytes) else (x.stdout or "")
                err, rc = "", "wall"
            res.append((out, err, rc, lo, hi))
            if rc == 0:
                break
            try:
                at = int(open(pf).read().split("\0")[0].strip() or lo)
            except (OSError, ValueError):
                at = lo
            res[-1] = (out, err, rc, at, hi)
            if rc == "wall":
                break
            crashes += 1
            if rc == 97 or crashes >= max_crashes:
                break
            lo = at + 1
        return res

    with cf.ThreadPoolExecutor(workers) as ex:
        allres = list(ex.map(one, ranges))
    wall_hit = 0
    hangs = set()
    for res in allres:
        for out, err, rc, at, hi in res:
            for line in out.splitlines():
                if line.startswith("@V "):
                    key, _, detail = line[3:].partition("\t")
                    m = re.search(r"case=(\d+)", detail)
                    c = m.group(1) if m else str(at)
                    ctx.violation(key, detail, "replay: %s %s %d %s %d /tmp/prog 60 %s  (harness from harness/%s)" % (
                        os.path.basename(exe), mode, ctx.seed, c, int(c) + 1, " ".join(extra), mode))
                elif line.startswith("@C "):
                    a = line.split()
                    ctx.count(a[1], int(a[2]))
                elif line.startswith("@D "):
                    a = line.split(" ", 2)
                    ctx.distinct(a[1], a[2])
                elif line.startswith("@S "):
                    ctx.sample(line[3:])
            if rc == 0:
                continue
            if rc == "wall":
                wall_hit += 1
                continue
            text = err + "\n" + out[-2000:]
            if rc == 97:
                key = "hang-" + mode
                m = re.findall(r"@OP (.*)", out)
                if m and m[-1] in hangs:
                    continue
                # a hang is believed only when it happens twice
                pf = os.path.join(ctx.scratch, "prog-again")
                p = subprocess.run([exe, mode, str(ctx.seed), str(at), str(at + 1), pf, str(case_cpu * 2)] + list(extra),
                                   stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=e, cwd=ctx.scratch)
                if p.returncode != 97:
                    ctx.notes.append("case %d used its cpu budget once, not when repeated" % at)
                    continue
                m = re.findall(r"@OP (.*)", p.stdout.decode(errors="replace"))
                key += ("-" + m[-1]) if m else ""
                if m:
                    hangs.add(m[-1])
                ctx.violation(key, "case %d did not finish within %ds of cpu time" % (at, case_cpu),
                              "replay: %s %s %d %d %d /tmp/prog 60" % (os.path.basename(exe), mode, ctx.seed, at, at + 1))
                continue
            key = san_key(text)
            if key is None:
                if rc == 96:
                    raise CheckError("harness %s error: %s" % (mode, text[-1500:]))
                if isinstance(rc, int) and rc < 0:
                    key = "signal-%d" % -rc
                else:
                    key = "exit-%s" % rc
            ctx.violation("crash-%s-%s" % (mode, key), "case %d: process ended (%s)\n%s" % (at, rc, text[-6000:]),
                          "replay: %s %s %d %d %d /tmp/prog 60 %s" % (os.path.basename(exe), mode, ctx.seed, at, at + 1, " ".join(extra)))
    if wall_hit:
        ctx.notes.append("%d worker(s) stopped by the wall clock" % wall_hit)
        ctx.need("workers finished in time (%s)" % mode, 0, 1)
