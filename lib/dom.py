"""A running domain under observation: one scenario in namespaces of its own.

The outer side (`scenarios`) starts `python3 dom.py <module> <function> <args>`
under `unshare -Ur -i -pf` (processes, queues, semaphores and segments of a
scenario vanish with it), several at a time, and collects the @V/@C/@D/@S lines.
The inner side offers Domain: configuration, boot, clients, kills, shutdown,
and the checks every scenario ends with (sanitizer reports, processes that
ended by themselves, IPC objects and temporary files left behind)."""
import errno, concurrent.futures as cf
import glob, importlib.util, itertools, json, os, random, re, select, shutil, signal, subprocess, sys, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)


# ------------------------------------------------------------------ outer side
def build(ctx, san="asan", extra=(), xa=False):
    import fx
    b = fx.Build(san)
    H = os.path.join(fx.VERIF, "harness")
    # the library is a shared object, as installed: a program may define functions of its own
    # over those of the library (BBL does)
    so = b.build({"libfuxedo.so": {"src": [], "shared": True}})["libfuxedo.so"]
    t = {}
    for p in ("tmloadcf", "tmboot", "tmshutdown", "BBL", "TMS", "tmipcrm", "ud32", "tmadmin"):
        t[p] = {"src": b.prog_sources(p)}
    jit = os.path.join(H, "jitter.c")
    if san == "tsan":
        # tells the race detector of the semaphores that order its threads
        t["BBL"]["src"] = t["BBL"]["src"] + [jit]
    t["usrv"] = {"src": [os.path.join(H, "usrv.cpp"), jit]}
    t["ucli"] = {"src": [os.path.join(H, "ucli.cpp"), jit]}
    if xa:
        t["usrv"] = {"src": [os.path.join(H, "usrv.cpp"), os.path.join(H, "xalog.cpp"), jit], "cflags": ["-DUSYS_XA"]}
        t["utms"] = {"src": [os.path.join(H, "utms.cpp"), os.path.join(H, "xalog.cpp")]}
    for name, spec in extra:
        t[name] = spec
    for v in t.values():
        if v.get("lib", True):
            v["lib"] = False
            v["ldflags"] = [so, "-Wl,-rpath," + os.path.dirname(so)] + v.get("ldflags", [])
    r = b.build(t)
    r["lib"] = so
    return r


def ns_prefix():
    for p in (["unshare", "-Ur", "-i", "-pf", "--kill-child"], ["unshare", "-Ur", "-i"]):
        if subprocess.run(p + ["true"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode == 0:
            return p
    return []


def scenarios(ctx, exes, module, todo, parallel=4, wall=240):
    """todo: list of (function, kwargs)."""
    import fx
    pre = ns_prefix()
    ctx.notes.append("scenarios run under: %s" % (" ".join(pre) or "no namespace"))
    if not pre:
        parallel = 1
    deadline = time.time() + wall

    def one(item):
        i, (fn, kw) = item
        d = os.path.join(ctx.scratch, "s%d" % i)
        os.makedirs(d)
        spec = dict(dir=d, exes=exes, seed=ctx.seed * 1000 + i, kw=kw, ns=bool(pre), index=i,
                    pidns="-pf" in pre, san=kw.get("san", "asan"))
        with open(os.path.join(d, "spec.json"), "w") as f:
            json.dump(spec, f)
        left = max(5, deadline - time.time())
        err = open(os.path.join(d, "err"), "w")
        p = subprocess.Popen(pre + [sys.executable, os.path.join(HERE, "dom.py"), module, fn, os.path.join(d, "spec.json")],
                             stdout=subprocess.PIPE, stderr=err, stdin=subprocess.DEVNULL, text=True, errors="replace",
                             start_new_session=True)
        try:
            out, _ = p.communicate(timeout=left)
            rc = p.returncode
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            try:
                out, _ = p.communicate(timeout=10)
            except subprocess.TimeoutExpired:
                out = ""
            rc = "wall"
        err.close()
        e = open(os.path.join(d, "err"), errors="replace").read()
        return i, fn, kw, out or "", e, rc

    with cf.ThreadPoolExecutor(parallel) as ex:
        res = list(ex.map(one, enumerate(todo)))
    for i, fn, kw, out, err, rc in res:
        name = "%s %s" % (fn, json.dumps(kw, sort_keys=True))
        for line in out.splitlines():
            if line.startswith("@V "):
                key, _, detail = line[3:].partition("\t")
                ctx.violation(key, "%s: %s" % (name, detail.replace("\\n", "\n")),
                              "replay: VERIF_SEED=%d scenario %d (%s) of %s" % (ctx.seed, i, name, ctx.pid))
            elif line.startswith("@C "):
                a = line.split()
                ctx.count(a[1], int(a[2]))
            elif line.startswith("@D "):
                a = line.split(" ", 2)
                ctx.distinct(a[1], a[2])
            elif line.startswith("@S "):
                ctx.sample(line[3:])
        if rc == "wall":
            ctx.notes.append("scenario %s stopped by the wall clock" % name)
            ctx.need("scenario %s ends" % name, 0, 1)
        elif rc != 0 or "@END" not in out:
            raise fx.CheckError("scenario %s: driver ended with %s: %s" % (name, rc, (err + out)[-3000:]))
        else:
            ctx.count("scenarios")
    return res


# ------------------------------------------------------------------ inner side
OUT = threading.Lock()


def put(line):
    with OUT:
        sys.stdout.write(line + "\n")
        sys.stdout.flush()


def V(key, detail=""):
    key = re.sub(r"[^\w:~.@-]+", "_", key)[:120]
    put("@V %s\t%s" % (key, detail.replace("\n", "\\n")[:6000]))


def C(name, k=1):
    put("@C %s %d" % (name, k))


def D(s, item):
    put("@D %s %s" % (s, item))


def S(text):
    put("@S %s" % text.replace("\n", " ")[:300])


class Proc:
    def __init__(self, pid, name, out):
        self.pid, self.name, self.out = pid, name, out
        self.status = None
        self.killed = False

    def poll(self):
        return self.status


class Domain:
    def __init__(self, spec, ubb_resources="", groups=None, servers=None, tab=None, env=None,
                 blocktime=60, extra="", idle=False, peer=None):
        """groups: [(name, grpno, params)], servers: [(name, group, srvid, params)]
        tab: {server name: [services]}
        idle: groups get numbers of all sizes and there are groups without servers among them
        peer: another domain of this scenario (which waits for the children of both)"""
        self.spec = spec
        self.dir = spec["dir"]
        self.exes = spec["exes"]
        self.rnd = random.Random(spec["seed"])
        self.log = os.path.join(self.dir, "log")
        self.procs = {}
        self.spawned = itertools.count()
        self.reaped = {}
        self.expected_dead = set()
        self.seen_keys = set()
        self.lock = threading.Lock()
        self.ends_seen = set()
        if peer:
            self.procs, self.reaped, self.expected_dead = peer.procs, peer.reaped, peer.expected_dead
            self.lock, self.ends_seen = peer.lock, peer.ends_seen
        bind = os.path.join(self.dir, "tux", "bin")
        os.makedirs(bind)
        os.makedirs(os.path.join(self.dir, "app"))
        os.makedirs(os.path.join(self.dir, "run"))
        os.makedirs(os.path.join(self.dir, "san"))
        for n in ("BBL", "TMS"):
            os.symlink(self.exes[n], os.path.join(bind, n))
        for n in set(s[0] for s in servers or ()):
            if n != "TMS":
                os.symlink(self.exes[n if n in self.exes else "usrv"], os.path.join(self.dir, "app", n))
        self.groups = groups if groups is not None else [("GROUP1", 1, "")]
        if idle:
            r = random.Random(spec["seed"] * 11 + 3)
            k = r.choice([0, 3, 12, 30, 100 - len(self.groups)])
            no = r.choice([lambda n: list(range(1, n + 1)), lambda n: r.sample(range(1, 30000), n),
                           lambda n: [29999 - 256 * i for i in range(n)]])(k + len(self.groups))
            pos = set(r.sample(range(k + len(self.groups)), len(self.groups)))
            if r.random() < .5:
                pos = set(range(k, k + len(self.groups)))   # the last ones
            gs, out = list(self.groups), []
            for i, n in enumerate(no):
                out.append((gs[0][0], n, gs.pop(0)[2]) if i in pos else ("IDLE%d" % i, n, ""))
            self.groups = out
        self.servers = servers or []
        self.tab = tab or {}
        u = "*RESOURCES\nMASTER tuxapp\nMODEL SHM\nIPCKEY %d\n%s\n" % (40000 + spec["index"], ubb_resources)
        if blocktime is not None:
            u += "SCANUNIT 1000MS\nBLOCKTIME %d\n" % blocktime
        u += "*MACHINES\n\"%s\" LMID=tuxapp APPDIR=\"%s\" TUXCONFIG=\"%s\" TUXDIR=\"%s\" ULOGPFX=\"%s\"\n" % (
            os.uname().nodename, os.path.join(self.dir, "app"), os.path.join(self.dir, "tuxconfig"),
            os.path.join(self.dir, "tux"), os.path.join(self.dir, "ULOG"))
        u += "*GROUPS\n"
        for n, no, par in self.groups:
            u += "%s LMID=tuxapp GRPNO=%d %s\n" % (n, no, par)
        u += "*SERVERS\n"
        for n, g, i, par in self.servers:
            u += "%s SRVGRP=%s SRVID=%d CLOPT=\"-A\" %s\n" % (n, g, i, par)
        u += extra
        self.ubb = os.path.join(self.dir, "ubb")
        with open(self.ubb, "w") as f:
            f.write(u)
        self.env = {
            "PATH": os.path.join(self.dir, "tux", "bin") + ":/usr/bin:/bin",
            "TUXCONFIG": os.path.join(self.dir, "tuxconfig"),
            "TUXDIR": os.path.join(self.dir, "tux"),
            "HOME": self.dir, "TMPDIR": self.dir,
            "USYS_LOG": self.log,
            "USYS_FILES": os.path.join(self.dir, "files"),
            "USYS_TAB": ";".join("%s=%s" % (k, ",".join(v)) for k, v in self.tab.items()),
            "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=98:allocator_may_return_null=1:"
                            "handle_abort=1:print_legend=0:malloc_context_size=10:log_path=%s/san/r" % self.dir,
            "UBSAN_OPTIONS": "print_stacktrace=1:exitcode=98:log_path=%s/san/r" % self.dir,
            "TSAN_OPTIONS": "halt_on_error=0:exitcode=66:report_signal_unsafe=0:history_size=4:log_path=%s/san/r" % self.dir,
        }
        self.env.update(env or {})
        if self.env.get("USYS_JITTER", "").startswith("it"):  # signals, every that many microseconds
            self.env["USYS_ITIMER"] = self.env.pop("USYS_JITTER")[2:]
            C("interrupted_domains")
        self.before = self.ipc()
        self.tmp_before = set(glob.glob("/tmp/msgbase-*")) if not spec["ns"] else None
        import ctypes
        libc = ctypes.CDLL(None, use_errno=True)
        libc.prctl(36, 1, 0, 0, 0)  # PR_SET_CHILD_SUBREAPER
        self.stopping = False
        if not peer:
            self.reaper = threading.Thread(target=self._reap, daemon=True)
            self.reaper.start()

    # -------------------------------------------------- processes
    def _reap(self):
        while not self.stopping:
            try:
                pid, st = os.waitpid(-1, os.WNOHANG)
            except ChildProcessError:
                time.sleep(0.005)
                continue
            if pid == 0:
                time.sleep(0.004)
                continue
            with self.lock:
                self.reaped[pid] = st
                if pid in self.procs:
                    self.procs[pid].status = st

    def spawn(self, name, argv, env=None, cwd=None, stdin=None, san_exe=None):
        e = dict(self.env)
        e.update(env or {})
        n = next(self.spawned)
        out = os.path.join(self.dir, "run", "%s-%d" % (name, n))
        fds = [(os.POSIX_SPAWN_OPEN, 0, stdin or "/dev/null", os.O_RDONLY, 0),
               (os.POSIX_SPAWN_OPEN, 1, out + ".out", os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o644),
               (os.POSIX_SPAWN_OPEN, 2, out + ".err", os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o644)]
        old = os.getcwd()
        with self.lock:
            os.chdir(cwd or os.path.join(self.dir, "run"))
            try:
                pid = os.posix_spawn(argv[0], argv, e, file_actions=fds)
            finally:
                os.chdir(old)
            p = Proc(pid, name, out)
            self.procs[pid] = p
            if pid in self.reaped:
                p.status = self.reaped[pid]
        return p

    def wait(self, p, timeout):
        end = time.time() + timeout
        while p.status is None and time.time() < end:
            time.sleep(0.003)
        return p.status is not None

    def run(self, name, args=(), timeout=60, env=None, stdin=None, ok=(0,), exe=None):
        """Runs one of the programs to its end; (exit status, output)."""
        p = self.spawn(name, [exe or self.exes[name]] + list(args), env=env, stdin=stdin)
        if not self.wait(p, timeout):
            p.killed = True
            os.kill(p.pid, signal.SIGKILL)
            self.wait(p, 5)
            return "timeout", self.output(p)
        st = p.status
        rc = os.waitstatus_to_exitcode(st)
        return rc, self.output(p)

    def output(self, p):
        r = ""
        for x in (".out", ".err"):
            try:
                r += open(p.out + x, errors="replace").read()
            except OSError:
                pass
        return r

    # -------------------------------------------------- the domain
    def load(self):
        rc, out = self.run("tmloadcf", ["-y", self.ubb])
        if rc != 0:
            V("tmloadcf-failed", "tmloadcf: %s %s\n%s" % (rc, out, open(self.ubb).read()))
        return rc == 0

    def boot(self, args=("-y",), timeout=60):
        rc, out = self.run("tmboot", list(args), timeout=timeout)
        if rc != 0:
            V("tmboot-failed", "tmboot %s: %s %s" % (args, rc, out))
        return out

    def dying_boot(self, k):
        """tmboot with servers that die when they take the lock of the bulletin board for the k-th time; how many did."""
        before = len(self.deaths())
        self.run("tmboot", ["-y"], env={"USYS_DIE": str(k), "USYS_DIENOT": "tmboot BBL"})
        dead = self.deaths()
        self.expected_dead.update(dead)
        return len(dead) - before

    def deaths(self):
        try:
            return [int(l.split()[2]) for l in open(os.path.join(self.dir, "files")) if l.startswith("K ")]
        except OSError:
            return []

    def shutdown(self, args=("-y",), timeout=60):
        rc, out = self.run("tmshutdown", list(args), timeout=timeout)
        if rc == "timeout":
            V("tmshutdown-hangs", "tmshutdown %s did not end in %d s: %s" % (args, timeout, out))
        elif rc != 0:
            V("tmshutdown-failed", "tmshutdown %s: %s %s" % (args, rc, out))
        return out

    def ipc(self):
        r = {}
        for k in ("msg", "sem", "shm"):
            with open("/proc/sysvipc/" + k) as f:
                lines = f.read().splitlines()[1:]
            r[k] = {int(l.split()[1]): l.split() for l in lines}
        return r

    def queues(self):
        return set(self.ipc()["msg"])

    def running(self, all=False):
        """Live processes of this scenario: pid -> exe/name (no zombies).
        all: those that show no environment as well, as while they turn into another program."""
        r = {}
        me = os.getpid()
        for d in os.listdir("/proc"):
            if not d.isdigit():
                continue
            try:
                st = open("/proc/%s/stat" % d).read()
                a = st[st.rindex(")") + 2:].split()
                if a[0] in "ZX":
                    continue
                cmd = open("/proc/%s/cmdline" % d, "rb").read().split(b"\0")
                envd = open("/proc/%s/environ" % d, "rb").read() if self._ours(int(d)) else b""
            except (OSError, ValueError):
                continue
            if ("USYS_LOG=" + self.log).encode() + b"\0" in envd or (all and not envd and self._ours(int(d))):
                r[self._nspid(d)] = os.path.basename(cmd[0].decode(errors="replace")) if cmd else "?"
        return r

    def attached(self):
        """Who has a segment mapped, zombies' threads included."""
        r = []
        for d in glob.glob("/proc/[0-9]*/task/[0-9]*"):
            try:
                if b"SYSV" in open(d + "/maps", "rb").read():
                    r.append("%s %s" % (d, " ".join(open(d + "/stat").read().split()[1:4])))
            except OSError:
                pass
        return "attached: %s" % r

    def _nspid(self, d):
        # /proc may be the one of the outer namespace: the last number is ours
        for l in open("/proc/%s/status" % d):
            if l.startswith("NSpid:"):
                return int(l.split()[-1])
        return int(d)

    def _ours(self, pid):
        """Descends from this driver: only those are looked at more closely."""
        me = self._selfouter()
        for _ in range(30):
            if pid == me:
                return True
            try:
                st = open("/proc/%d/stat" % pid).read()
                pid = int(st[st.rindex(")") + 2:].split()[1])
            except (OSError, ValueError):
                return False
            if pid <= 1:
                return pid == me
        return False

    def _selfouter(self):
        return int(os.readlink("/proc/self"))

    def started(self):
        """srv -> pid from the servers' own records."""
        r = {}
        for l in self.lines():
            m = re.match(r"\d+ I srv=(\S+) pid=(\d+)", l)
            if m:
                r[m.group(1)] = int(m.group(2))
        return r

    def lines(self):
        try:
            return open(self.log, errors="replace").read().splitlines()
        except OSError:
            return []

    def kill(self, pid, sig=signal.SIGKILL):
        self.expected_dead.add(pid)
        try:
            os.kill(pid, sig)
            return True
        except ProcessLookupError:
            return False

    def client(self, mode, n, svcs, fwd="", nest="", seed=None, base=None, delay=0, stages=3, args=(), env=None):
        e = {"UCLI_SVCS": ",".join(svcs), "UCLI_FWD": fwd, "UCLI_NEST": nest,
             "UCLI_DELAY": str(delay), "UCLI_STAGES": str(stages)}
        e.update(env or {})
        seed = seed if seed is not None else self.rnd.getrandbits(40)
        self.nclients = getattr(self, "nclients", 0) + 1
        base = base if base is not None else self.nclients
        p = self.spawn("ucli", [self.exes["ucli"], mode, str(seed), str(base), str(n)] + [str(a) for a in args], env=e)
        p.what = "%s seed=%d base=%d n=%d svcs=%s" % (mode, seed, base, n, ",".join(svcs))
        return p

    def collect(self, p, timeout):
        """Waits for a client and passes on what it reports."""
        if not self.wait(p, timeout):
            self.kill(p.pid, signal.SIGABRT if False else signal.SIGKILL)
            p.killed = True
            self.wait(p, 5)
            V("client-hangs", "client %s did not end within %d s; last: %s" % (p.what, timeout, "\n".join(self.lines()[-15:])))
        out = open(p.out + ".out", errors="replace").read()
        done = False
        for l in out.splitlines():
            if l.startswith("@DONE"):
                done = True
            elif l.startswith("@") and not l.startswith("@ACK"):
                if l.startswith("@V "):
                    l += " [client %s]" % p.what
                print(l, flush=True)
        if not p.killed:
            rc = os.waitstatus_to_exitcode(p.status)
            if rc == 96:
                sys.stderr.write(self.output(p))
                sys.exit(5)
            p.failed = not done or rc != 0
            if p.failed and not glob.glob(os.path.join(self.dir, "san", "r*")):
                V("client-ended-%s" % rc, "client %s ended with %s: %s" % (p.what, rc, self.output(p)[-2000:]))
        return out

    def talker(self):
        """A client that does what it is told."""
        n = self.nclients = getattr(self, "nclients", 0) + 1
        fifo = os.path.join(self.dir, "run", "talk%d" % n)
        os.mkfifo(fifo)
        fd = os.open(fifo, os.O_RDWR | os.O_CLOEXEC)
        p = self.spawn("ucli", [self.exes["ucli"], "talk", str(self.rnd.getrandbits(40)), str(n), "0"],
                       env={"UCLI_SVCS": "S"}, stdin=fifo)
        p.what = "talk %d" % n
        p.fd = fd
        p.acks = 0
        return p

    def tell(self, p, cmd, timeout=60):
        os.write(p.fd, (cmd + "\n").encode())
        p.acks += 1
        p.what = "told " + cmd
        end = time.time() + timeout
        while time.time() < end:
            if "@ACK %d\n" % p.acks in open(p.out + ".out", errors="replace").read():
                return True
            if p.status is not None:
                return False
            time.sleep(0.005)
        V("client-hangs", "client told %s does not come back; last: %s" % (cmd, "\n".join(self.lines()[-10:])))
        # nothing more to learn from this one, and everything after would wait as long
        self.finish(expect_clean=False)
        put("@END")
        os._exit(0)

    # -------------------------------------------------- processes stopped and continued
    def stutter(self, pause=(0.05, 0.4), hold=0.6):
        """From now on processes are stopped and continued at random moments, often while somebody
        (a stand-in for a process stopped just there) has the lock of the bulletin board."""
        import ctypes, struct
        libc = ctypes.CDLL(None, use_errno=True)
        SEM_UNDO, IPC_NOWAIT = 0x1000, 0o4000

        def take(sem):
            # gives up while there is no such lock (yet)
            for i in range(400):
                if libc.semop(sem, ctypes.c_char_p(struct.pack("Hhh", 0, -1, SEM_UNDO | IPC_NOWAIT)), 1) == 0:
                    return True
                if ctypes.get_errno() != errno.EAGAIN:
                    return False
                time.sleep(0.003)
            return False

        def work():
            r = random.Random(self.spec["seed"] * 3 + 1)
            while not self.steady_now.is_set():
                sems = [i for i in self.ipc()["sem"] if i not in self.before["sem"]]
                held = None
                if sems and r.random() < hold and take(sems[0]):
                    held = sems[0]
                    time.sleep(r.choice([0.02, 0.1, 0.3, 1.1]))
                ps = list(self.running())
                if held is None or r.random() < 0.5:
                    ps = r.sample(ps, min(len(ps), 1 + r.randrange(4)))
                for sig in (signal.SIGSTOP, signal.SIGCONT):
                    for p in ps:
                        try:
                            os.kill(p, sig)
                        except OSError:
                            pass
                    time.sleep(r.choice([0, 0.01, 0.05]))
                if held is not None:
                    libc.semop(held, ctypes.c_char_p(struct.pack("Hhh", 0, 1, SEM_UNDO)), 1)
                    C("stopped_while_locked", len(ps))
                C("stopped", len(ps))
                time.sleep(r.uniform(*pause))
        self.steady_now = threading.Event()
        self.stutterer = threading.Thread(target=work, daemon=True)
        self.stutterer.start()

    def still(self):
        self.steady_now.set()
        self.stutterer.join()

    # -------------------------------------------------- what every scenario ends with
    def finish(self, expect_clean=True, grace=8, files=True):
        """After tmshutdown: nothing of the domain may be left."""
        if expect_clean:
            end = time.time() + grace
            left = self.running(True)
            while left and time.time() < end:
                time.sleep(0.05)
                left = self.running(True)
            if left:
                V("process-left-%s" % sorted(left.values())[0], "processes left after tmshutdown: %s" % left)
            # the last thread of a process lets go of the segment after its leader has ended
            end = time.time() + 15
            now = self.ipc()
            while set(now["shm"]) - set(self.before["shm"]) and time.time() < end:
                time.sleep(0.05)
                now = self.ipc()
            holders = self.attached() if set(now["shm"]) - set(self.before["shm"]) else ""
            for k, what in (("msg", "queue"), ("sem", "semaphore"), ("shm", "segment")):
                new = set(now[k]) - set(self.before[k])
                if new and self.spec["ns"]:
                    V("%s-left" % what, "%d %s left after tmshutdown: %s %s" % (len(new), what, [now[k][i] for i in new], holders if k == "shm" else ""))
            try:
                notes = [l.split() for l in open(os.path.join(self.dir, "files"))]
            except OSError:
                notes = []
            notes = [n for n in notes if n[0] != "K"]
            made = [n[1] for n in notes if n[0] == "M"]
            C("message_files", len(made))
            left = [f for f in made if os.path.exists(f)]
            # a process killed between making a file and sending it, or between receiving it and removing it,
            # leaves it behind
            mine = []
            for f in left:
                last = [n for n in notes if n[1] == f][-1]
                if last[0] == "S" or int(last[2]) not in self.expected_dead:
                    mine.append(f)
            C("files_of_the_killed", len(left) - len(mine))
            if mine and files:
                V("file-left", "%d of %d files of large messages left after tmshutdown: %s" % (len(mine), len(made), [[n[0] + n[2] for n in notes if n[1] == f] for f in mine[:5]]))
            for f in left:
                os.unlink(f)
            C("clean_ends")
        self.reports()
        self.stopping = True
        for pid in list(self.running()):
            try:
                os.kill(pid, signal.SIGKILL)
            except OSError:
                pass

    def reports(self):
        import fx
        for f in sorted(glob.glob(os.path.join(self.dir, "san", "r*"))):
            t = open(f, errors="replace").read()
            key = fx.san_key(t) or "report"
            V("crash-" + key, t[:5000])
            os.rename(f, os.path.join(self.dir, "san", "seen-" + os.path.basename(f)))
        # what servers wrote where tmboot sends their output
        for f in sorted(glob.glob(os.path.join(self.dir, "run", "std*")) + glob.glob(os.path.join(self.dir, "app", "std*"))):
            t = open(f, errors="replace").read()
            key = fx.san_key(t)
            if key and key not in self.seen_keys:
                self.seen_keys.add(key)
                V("crash-" + key, t[:5000])
        self.expected_dead.update(self.deaths())
        with self.lock:
            items = dict(self.reaped)
        for pid, st in items.items():
            if pid in self.ends_seen:
                continue
            self.ends_seen.add(pid)
            if pid in self.expected_dead or (pid in self.procs and self.procs[pid].killed):
                continue
            if os.WIFSIGNALED(st):
                nm = self.procs[pid].name if pid in self.procs else self.name_of(pid)
                V("signal-%d-%s" % (os.WTERMSIG(st), nm), "%s (pid %d) ended by signal %d" % (nm, pid, os.WTERMSIG(st)))

    def name_of(self, pid):
        for l in self.lines():
            m = re.match(r"\d+ I srv=\S+ pid=(\d+) name=(\S+)", l)
            if m and int(m.group(1)) == pid:
                return m.group(2)
        return "server"


def parse_log(lines):
    """Lines of the servers' and clients' records -> list of (ms, kind, dict, rest)."""
    r = []
    for l in lines:
        m = re.match(r"(\d+) (\w) (.*)$", l)
        if not m:
            continue
        kv = dict(re.findall(r"(\w+)=(\S*)", m.group(3)))
        r.append((int(m.group(1)), m.group(2), kv, m.group(3)))
    return r


def exactly_once(recs, offers=None, lost_ok=(), stages_lost=False):
    """Every request accepted was executed exactly once at each stage, by a
    server that offers the service; nothing refused was executed."""
    sent, begun, refused, noreply = {}, {}, {}, set()
    execs = {}
    fw = {}
    for ms, k, kv, rest in recs:
        i = kv.get("id")
        if k == "B":
            begun[i] = kv
        elif k in "SO":
            sent[i] = kv
            if rest.endswith("noreply"):
                noreply.add(i)
        elif k == "X":
            refused[i] = kv
        elif k == "W":
            fw[(i, int(kv["st"]))] = kv["to"]
        elif k == "E":
            execs.setdefault((i, int(kv["st"])), []).append((kv, rest, ms))
    n = 0
    for (i, st), es in execs.items():
        if i in (None, "0"):
            continue
        n += len(es)
        kv, rest, ms = es[0]
        if len(es) > 1:
            V("executed-more-than-once", "request %s stage %d executed %d times: %s" % (i, st, len(es), [e[1] for e in es]))
        if not rest.endswith(" ok"):
            V("request-damaged", rest)
        if i not in begun:
            V("executed-never-sent", rest)
            continue
        if i in sent and "nr" in kv and int(kv["nr"]) != (i in noreply):
            V("TPNOREPLY-flag", "request %s sent %s a reply expected: %s" % (i, "without" if i in noreply else "with", rest))
        want = begun[i]["svc"] if st == 0 else fw.get((i, st - 1))
        if want is None:
            V("executed-stage-never-forwarded", rest)
        elif want != kv["svc"]:
            V("executed-as-another-service", "request for %s: %s" % (want, rest))
        if offers is not None and kv["svc"] not in offers.get(kv["srv"], ()):
            V("executed-by-server-not-offering", rest)
    for i in sent:
        if i in lost_ok or i not in begun:
            continue
        for st in range(1 if stages_lost else int(begun[i].get("n", 1))):
            if (i, st) not in execs:
                V("request-lost", "request %s (%s) accepted, stage %d never executed" % (i, begun[i], st))
                break
    for i in refused:
        if (i, 0) in execs and refused[i].get("err") not in ("13", "12"):
            V("refused-but-executed", "request %s refused with %s was executed" % (i, refused[i]))
    C("executions", n)
    C("requests", len(sent))
    return execs


def main():
    mod, fn, specf = sys.argv[1:4]
    spec = json.load(open(specf))
    s = importlib.util.spec_from_file_location("scn", os.path.join(os.path.dirname(HERE), "checks", mod + ".py"))
    m = importlib.util.module_from_spec(s)
    sys.modules["dom"] = sys.modules["__main__"]
    s.loader.exec_module(m)
    S("%s.%s seed=%s %s" % (mod, fn, spec["seed"], json.dumps(spec["kw"])))
    getattr(m, fn)(spec, **spec["kw"])
    print("@END", flush=True)
    os._exit(0)


if __name__ == "__main__":
    main()
