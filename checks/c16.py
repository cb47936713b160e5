import os, signal, time
import fx, dom


class Srv:
    def __init__(self, name, grp, grpno, srvid, par, svcs, queue):
        self.name, self.grp, self.grpno, self.srvid, self.par = name, grp, grpno, srvid, par
        self.key = "%d.%d" % (grpno, srvid)
        self.svcs = [s.replace("@", str(srvid)) for s in svcs]
        self.queue = queue
        self.pid = None


class World:
    """What has to run and be offered."""

    def __init__(self, spec, blocktime=2, jitter="", broken=False, killable=False, peer=None):
        self.spec = spec
        r = self.rnd = dom.random.Random(spec["seed"] * 7 + 1)
        ng = 1 + r.randrange(3)
        groups = [("GROUP%d" % (i + 1), i + 1, "") for i in range(ng)]
        K = "K" if killable else "S"
        tab = {"sa": [K + "1", K + "2"], "sb": [K + "2", K + "3", "B@"], "ms": [K + "3", K + "4"], "st": ["T1", "T2"]}
        cfg, self.srvs = [], {}
        # numbers of servers are unique in their group only
        per_group = r.random() < 0.5
        nids = {}
        for i in range(2 + r.randrange(4)):
            nm = r.choice(["sa", "sb", "ms"])
            g = r.randrange(ng)
            nid = nids.get(g if per_group else 0, 10)
            par = []
            k = 1
            if r.random() < 0.3:
                k = 2 + r.randrange(2)
                par.append("MIN=%d MAX=%d" % (k, k))
            q = None
            if r.random() < 0.35 and nm != "sb":
                # servers sharing a queue offer the same services
                q = "q" + nm
                par.append('RQADDR="%s"' % q)
            if nm == "ms":
                t = 1 + r.randrange(3)
                par.append("MINDISPATCHTHREADS=%d MAXDISPATCHTHREADS=%d" % (t, t))
            cfg.append((nm, groups[g][0], nid, " ".join(par)))
            for j in range(k):
                s = Srv(nm, groups[g][0], g + 1, nid + j, par, tab[nm], q or "%d.%d" % (g + 1, nid + j))
                self.srvs[s.key] = s
            nids[g if per_group else 0] = nid + 10
        if ng > 1 and r.random() < 0.5:
            # the same number in two groups, one queue
            nm, q = r.choice(["sa", "ms"]), "twins"
            for g in r.sample(range(ng), 2):
                par = ['RQADDR="%s"' % q]
                cfg.append((nm, groups[g][0], 80, " ".join(par)))
                s = Srv(nm, groups[g][0], g + 1, 80, par, tab[nm], q)
                self.srvs[s.key] = s
        s = Srv("st", "GROUP1", 1, 90, "", tab["st"], "steady")
        cfg.append(("st", "GROUP1", 90, ""))
        self.srvs[s.key] = s
        self.steady = s
        if broken:
            # servers that cannot start: not there, end at once, killed while starting
            for i, nm in enumerate(("nosuch", "zz", "yy")):
                if r.random() < 0.7:
                    cfg.insert(r.randrange(len(cfg) + 1), (nm, "GROUP1", 95 + i, ""))
                    tab[nm] = ["NEVER"]
        acc = 8 + 2 * sum(1 for _ in self.srvs)
        self.d = dom.Domain(spec, groups=groups, servers=cfg, tab=tab, blocktime=blocktime,
                            ubb_resources="MAXACCESSERS %d" % acc, env={"USYS_JITTER": jitter}, peer=peer)
        for nm in ("nosuch",):
            p = os.path.join(self.d.dir, "app", nm)
            if os.path.islink(p):
                os.unlink(p)
        self.maxacc = acc
        self.all_svcs = sorted(set(x for s in self.srvs.values() for x in s.svcs))
        self.clients = []  # talkers attached to the domain
        self.base = len(self.d.queues())
        self.bbl = False
        self.seen_starts = 0

    # ---------------------------------------------------------------- model
    def alive(self):
        return [s for s in self.srvs.values() if s.pid]

    def offered(self, svc):
        return [s for s in self.alive() if svc in s.svcs]

    def boot(self, args=("-y",), keys=None):
        n = len(self.d.lines())
        self.d.boot(args)
        self.bbl = True
        new = {}
        for ms, k, kv, rest in dom.parse_log(self.d.lines()[n:]):
            if k == "I" and kv["name"] not in ("zz", "yy"):
                if kv["srv"] in new:
                    dom.V("started-twice", "%s started more than once by one tmboot" % kv["srv"])
                new[kv["srv"]] = int(kv["pid"])
        for k, s in self.srvs.items():
            want = keys is None or k in keys
            if s.pid or not want:
                if k in new:
                    dom.V("started-again", "tmboot %s started %s, which %s" % (" ".join(args), k, "runs" if s.pid else "was not asked for"))
                continue
            if k not in new:
                dom.V("server-not-started", "tmboot %s did not start %s" % (" ".join(args), k))
                continue
            s.pid = new[k]
        dom.C("boots")

    def expect_queues(self):
        return (1 if self.bbl else 0) + len(set(s.queue for s in self.alive())) + sum(1 for c in self.clients if c.attached)

    def settle(self, what, timeout=10):
        """Waits until the number of queues is the one expected."""
        end = time.time() + timeout
        want = self.expect_queues()
        t0 = time.time()
        while True:
            got = len(self.d.queues()) - self.base
            if got == want:
                break
            if time.time() > end:
                dom.V("queues-%s-than-expected" % ("more" if got > want else "fewer"),
                      "%d queues instead of %d %d s after %s" % (got, want, timeout, what))
                return False
            time.sleep(0.02)
        dom.D("settled", "%s %d queues %.0f s" % (what.split(" ")[0], want, time.time() - t0))
        dom.C("settled")
        return True

    def check(self, what):
        """Servers run, services are found exactly where they are offered."""
        run = self.d.running()
        for s in self.alive():
            if s.pid not in run:
                dom.V("server-not-running", "%s (pid %d) does not run after %s" % (s.key, s.pid, what))
                s.pid = None
        c = self.rnd.choice(self.clients) if self.clients else self.client()
        n = len(self.d.lines())
        for svc in self.all_svcs:
            o = self.offered(svc)
            if o:
                self.d.tell(c, "call %s %d" % (svc, 2 * len(o)))
            else:
                self.d.tell(c, "gone %s" % svc)
        by = {}
        for ms, k, kv, rest in dom.parse_log(self.d.lines()[n:]):
            if k == "E" and kv["svc"] in self.all_svcs:
                if not rest.endswith(" ok") and "ty=NODATA" not in rest:
                    dom.V("request-damaged", rest)
                s = self.srvs.get(kv["srv"])
                if s is None or s.pid != int(kv["pid"]) or kv["svc"] not in s.svcs:
                    dom.V("executed-by-wrong-server", "after %s: %s; %s runs as %s" % (what, rest, kv["srv"], s and s.pid))
                by.setdefault(kv["svc"], set()).add(s.queue if s else "?")
        dom.C("checks")
        dom.D("world", "%s:%d" % (what.split(" ")[0], len(self.alive())))

    def client(self):
        c = self.d.talker()
        c.attached = False
        self.d.tell(c, "join")
        c.attached = True
        self.clients.append(c)
        return c

    def drop(self, c, how):
        self.clients.remove(c)
        if how == "term":
            self.d.tell(c, "term")
            self.d.tell(c, "end")
            self.d.wait(c, 10)
        elif how == "exit":
            os.write(c.fd, b"exit\n")
            self.d.wait(c, 10)
        else:
            self.d.kill(c.pid)
            c.killed = True
            self.d.wait(c, 10)
        os.close(c.fd)
        if how == "term":
            self.d.collect(c, 5)
        else:
            # what it has found
            for l in open(c.out + ".out", errors="replace"):
                if l.startswith("@V") or l.startswith("@C"):
                    print(l.rstrip(), flush=True)

    def kill_servers(self, victims, sig=signal.SIGKILL):
        for s in victims:
            self.d.kill(s.pid, sig)
        self.gone(victims)

    def gone(self, victims):
        end = time.time() + 5
        while time.time() < end and any(v.pid in self.d.running() for v in victims):
            time.sleep(0.01)
        for v in victims:
            v.pid = None

    def killable(self):
        return [s for s in self.alive() if s is not self.steady]

    def shutdown(self):
        for c in list(self.clients):
            self.drop(c, self.rnd.choice(["term", "term", "exit", "kill"]))
        if self.rnd.random() < 0.5:
            self.settle("clients gone")
        self.d.shutdown()
        self.bbl = False
        for s in self.srvs.values():
            s.pid = None
        end = time.time() + 5
        while time.time() < end and self.d.running():
            time.sleep(0.02)
        left = self.d.running()
        if left:
            dom.V("process-left-%s" % sorted(left.values())[0], "processes left after tmshutdown: %s" % left)
        now = self.d.ipc()
        for k, what in (("msg", "queue"), ("sem", "semaphore"), ("shm", "segment")):
            new = set(now[k]) - set(self.d.before[k])
            if new:
                dom.V("%s-left" % what, "%d %s left after tmshutdown: %s" % (len(new), what, [now[k][i] for i in new]))
        dom.C("shutdowns")


def life(spec, cycles=3, events=5, jitter="", broken=False, stutter=False, **kw):
    """Start, events, stop; again and again."""
    w = World(spec, jitter=jitter, broken=broken)
    d, r = w.d, w.rnd
    if not d.load():
        return
    if stutter:
        d.stutter()
    for cyc in range(cycles):
        w.boot()
        for i in range(r.randrange(3)):
            w.client()
        w.settle("start")
        w.check("start")
        for ev in range(events):
            what = r.choice(["idle", "idle", "busy", "self", "clients", "client-open", "many-clients", "bbl", "stop", "stop-group", "boot-again", "stopped"])
            vs = w.killable()
            if what in ("idle", "busy", "self", "stop", "stop-group", "stopped") and not vs:
                what = "boot-again"
            if what == "idle":
                k = r.sample(vs, 1 + r.randrange(min(3, len(vs))))
                w.kill_servers(k, r.choice([signal.SIGKILL, signal.SIGKILL, signal.SIGTERM]))
            elif what == "stopped":
                # killed while stopped and with requests in its queue
                v = r.choice(vs)
                c = w.client()
                os.kill(v.pid, signal.SIGSTOP)
                if w.offered(v.svcs[0]) == [v]:
                    d.tell(c, "open %s %d 0" % (v.svcs[0], 1 + r.randrange(6)))
                w.kill_servers([v])
                d.tell(c, "get 2000", timeout=60)
            elif what == "busy":
                v = r.choice(vs)
                c = w.client()
                d.tell(c, "open %s %d 300" % (r.choice(v.svcs), 1 + r.randrange(6)))
                time.sleep(r.random() * 0.2)
                w.kill_servers([v])
                d.tell(c, "get 2000", timeout=60)
            elif what == "self":
                svc = r.choice(r.choice(vs).svcs)
                before = w.offered(svc)
                c = w.client()
                n = len(d.lines())
                d.tell(c, "kill %s" % svc)
                end = time.time() + 5
                hit = []
                while time.time() < end and not hit:
                    hit = [int(x[2]["pid"]) for x in dom.parse_log(d.lines()[n:]) if x[1] == "K"]
                    time.sleep(0.01)
                d.expected_dead.update(hit)
                if not hit:
                    dom.V("request-lost", "%s offered by %s was not executed" % (svc, [s.key for s in before]))
                w.gone([s for s in before if s.pid in hit])
                d.tell(c, "get 2000", timeout=60)
            elif what == "clients":
                for c in list(w.clients):
                    w.drop(c, r.choice(["term", "exit", "kill"]))
            elif what == "client-open":
                c = w.client()
                svc = r.choice(w.all_svcs)
                if w.offered(svc):
                    d.tell(c, "open %s %d %d" % (svc, 1 + r.randrange(12), r.choice([0, 20, 100])))
                w.drop(c, r.choice(["exit", "kill", "term"]))
            elif what == "many-clients":
                # more than there are slots, one after the other
                k = 0
                for i in range(3):
                    cs = []
                    room = w.maxacc - 2 - len(w.srvs) - len(w.clients)
                    for j in range(min(6, max(1, room))):
                        cs.append(w.client())
                        k += 1
                    for c in cs:
                        w.drop(c, r.choice(["exit", "kill", "term"]))
                    w.settle("many-clients")
            elif what == "bbl":
                bbl = [p for p, n in d.running().items() if n == "BBL"]
                if len(bbl) != 1:
                    dom.V("BBL-count", "%d BBL processes: %s" % (len(bbl), d.running()))
                for p in bbl:
                    d.kill(p)
                end = time.time() + 5
                while time.time() < end and set(bbl) & set(d.running()):
                    time.sleep(0.01)
                if r.random() < 0.4 and len(w.killable()) > 1:
                    # dies while nobody watches
                    w.kill_servers(r.sample(w.killable(), 1))
                w.boot()
                w.settle("bbl")
                w.check("bbl")
                continue
            elif what == "stop":
                v = r.choice(vs)
                d.shutdown(("-y", "-i", str(v.srvid), "-g", v.grp))
                w.gone([v])
            elif what == "stop-group":
                g = r.choice(sorted(set(s.grp for s in w.alive())))
                d.shutdown(("-y", "-g", g))
                w.gone([s for s in w.alive() if s.grp == g])
            if what == "boot-again":
                w.boot()
            w.settle(what)
            w.check(what)
            dom.C("events")
            dom.D("event", what)
            if what != "boot-again" and r.random() < 0.5:
                # back again, all or some
                dead = [s for s in w.srvs.values() if not s.pid]
                if dead and r.random() < 0.3:
                    v = r.choice(dead)
                    w.boot(("-y", "-i", str(v.srvid), "-g", v.grp), [v.key])
                else:
                    w.boot()
                w.settle("restart")
                w.check("restart")
        w.shutdown()
    if stutter:
        d.still()
    recs = dom.parse_log(d.lines())
    dom.exactly_once([x for x in recs if x[1] != "S"])
    d.finish()


def storm(spec, secs=6, jitter="", **kw):
    """Servers and clients killed at random moments under load; then everything is started again and has to be as new."""
    w = World(spec, jitter=jitter, killable=True)
    d, r = w.d, w.rnd
    if not d.load():
        return
    w.boot()
    w.settle("start")
    stop = os.path.join(d.dir, "stop")
    svcs = [s for s in w.all_svcs if s[0] == "K"] + ["T1", "T2"]
    cl = [d.client("steady", 0, svcs, args=[stop]) for i in range(4)]
    victims = []
    end = time.time() + secs
    n = 0
    while time.time() < end:
        time.sleep(r.random() * 0.5)
        k = r.random()
        if k < 0.55 and w.killable():
            w.kill_servers([r.choice(w.killable())])
            n += 1
        elif k < 0.75:
            # a client at any moment of a call
            locked = r.random() < .4
            p = d.client("steady", 0, svcs, args=[stop], env={"USYS_DIE": str(1 + r.randrange(3))} if locked else None)
            time.sleep(r.random() * 0.3)
            # or while it holds the lock of the bulletin board
            if locked and p.poll() is not None:
                dom.C("killed_with_lock")
            d.kill(p.pid)
            p.killed = True
            victims.append(p)
            n += 1
        elif k < 0.85:
            # servers that die while they start and hold the lock of the bulletin board
            m = len(d.lines())
            dom.C("servers_killed_with_lock", d.dying_boot(1 + r.randrange(7)))
            # the others would die later
            pids = [int(kv["pid"]) for ms, k, kv, rest in dom.parse_log(d.lines()[m:]) if k == "I"]
            for pid in pids:
                d.kill(pid)
            end2 = time.time() + 5
            while time.time() < end2 and set(pids) & set(d.running()):
                time.sleep(0.01)
        else:
            w.boot()
    open(stop, "w").close()
    for p in cl:
        d.collect(p, 60)
    for p in victims:
        for l in open(p.out + ".out", errors="replace"):
            if l.startswith("@V"):
                print(l.rstrip(), flush=True)
    dom.C("random_kills", n)
    w.boot()
    w.settle("storm")
    w.check("storm")
    w.shutdown()
    recs = [x for x in dom.parse_log(d.lines()) if x[1] != "S"]
    dom.exactly_once(recs)
    # processes killed in the middle of a message may leave its file
    d.finish(files=False)


def ipcrm(spec, jitter="", **kw):
    """All processes killed at once: tmipcrm removes what is left, and the domain can be started again."""
    w = World(spec, jitter=jitter)
    d, r = w.d, w.rnd
    if not d.load():
        return
    for i in range(2):
        w.boot()
        c = w.client()
        w.check("start")
        if r.random() < 0.5:
            v = r.choice(w.alive())
            os.kill(v.pid, signal.SIGSTOP)
            if w.offered(v.svcs[0]) == [v]:
                d.tell(c, "open %s 5 0" % v.svcs[0])
        w.clients = []
        for p in d.running():
            d.kill(p)
        c.killed = True
        end = time.time() + 5
        while time.time() < end and d.running():
            time.sleep(0.01)
        for s in w.srvs.values():
            s.pid = None
        if r.random() < 0.6:
            rc, out = d.run("tmipcrm", ["-y"])
            if rc != 0:
                dom.V("tmipcrm-failed", "%s %s" % (rc, out))
            now = d.ipc()
            for k, what in (("msg", "queue"), ("sem", "semaphore"), ("shm", "segment")):
                new = set(now[k]) - set(d.before[k])
                if new:
                    dom.V("%s-left-by-tmipcrm" % what, "%d %s left: %s" % (len(new), what, [now[k][i] for i in new]))
            dom.C("tmipcrm")
        else:
            # started over what is left
            w.boot()
            w.settle("reboot")
            w.check("reboot")
            w.shutdown()
    d.finish()


def neighbours(spec, events=8, jitter="", **kw):
    """Two domains on one machine that have the same names and numbers: whatever happens to one, the other goes on."""
    r = dom.random.Random(spec["seed"] * 13 + 5)
    spec2 = dict(spec, dir=os.path.join(spec["dir"], "two"), seed=spec["seed"] + 1,
                 index=spec["index"] + (r.choice([1, -1, 256, 5000]) if spec["ns"] else 5000))
    b = dom.Domain(spec2, groups=[("GROUP1", 1, ""), ("GROUP2", 2, "")], blocktime=60,
                   servers=[("sa", "GROUP1", 10, ""), ("ms", "GROUP2", 11, "MINDISPATCHTHREADS=2 MAXDISPATCHTHREADS=2"),
                            ("sa", "GROUP1", 20, 'RQADDR="qsa"'), ("sa", "GROUP1", 21, 'RQADDR="qsa"')],
                   tab={"sa": ["S1", "S2"], "ms": ["S3", "S4"]}, env={"USYS_JITTER": jitter})
    if not b.load():
        return
    b.boot()
    stop = os.path.join(b.dir, "stop")
    steady = [b.client("steady", 0, ["S1", "S2", "S3", "S4"], args=[stop]) for i in range(2)]
    talk = b.talker()
    b.tell(talk, "init")
    time.sleep(0.3)
    has = b.ipc()
    procs = set(b.running())
    w = World(spec, jitter=jitter, peer=b)
    d = w.d

    def fine(what):
        n = len(b.lines())
        now, left = b.ipc(), b.running()
        for k in ("msg", "sem", "shm"):
            miss = [i for i in has[k] if i not in now[k]]
            if miss:
                dom.V("neighbours-%s-gone" % k, "after %s in another domain: %s of this one gone" % (what, miss))
        if not procs <= set(left):
            dom.V("neighbours-process-gone", "after %s in another domain: %s" % (what, sorted(procs - set(left))))
        for s in ("S1", "S3"):
            b.tell(talk, "call %s 3" % s)
        ex = [kv for ms, k, kv, rest in dom.parse_log(b.lines()[n:]) if k == "E"]
        mine = set(b.started().values())
        for kv in ex:
            if int(kv["pid"]) not in mine:
                dom.V("neighbours-server", "request of one domain executed by a server of another: %s" % kv)
        if len(ex) < 6:
            dom.V("neighbours-stopped", "after %s in another domain: %d requests served" % (what, len(ex)))
        dom.C("neighbour_checks")
        dom.D("neighbour", what)
    if not d.load():
        return
    fine("tmloadcf")
    up = False
    for i in range(events):
        if not up:
            w.boot()
            what, up = "tmboot", True
            w.check("start")
        else:
            what = r.choice(["call", "kill", "stop", "group", "down", "down", "crash", "crash"])
            if what == "call":
                w.check(what)
            elif what == "kill":
                v = w.killable()
                w.kill_servers(r.sample(v, min(len(v), 2)))
                w.settle("kill")
            elif what == "stop" and w.killable():
                v = r.choice(w.killable())
                d.shutdown(("-y", "-i", str(v.srvid), "-g", v.grp))
                w.gone([v])
            elif what == "group" and w.alive():
                g = r.choice(sorted(set(s.grp for s in w.alive())))
                d.shutdown(("-y", "-g", g))
                w.gone([s for s in w.alive() if s.grp == g])
            elif what == "down":
                w.shutdown()
                up = False
            elif what == "crash":
                w.clients = []
                for p in d.running():
                    d.kill(p)
                for p in d.procs.values():
                    if p.out.startswith(d.dir + "/run/"):
                        p.killed = True
                end = time.time() + 5
                while time.time() < end and d.running():
                    time.sleep(0.01)
                for s in w.srvs.values():
                    s.pid = None
                w.bbl, up = False, False
                fine("killing everything")
                left = d.ipc()
                ans = os.path.join(d.dir, "answers")
                with open(ans, "w") as f:
                    f.write("what\n\nn\n")
                rc, out = d.run("tmipcrm", [], stdin=ans)
                if rc != 0:
                    dom.V("tmipcrm-failed", "%s %s" % (rc, out))
                now = d.ipc()
                if any(set(left[k]) != set(now[k]) for k in left):
                    dom.V("tmipcrm-removed-unasked", "answered no, but removed %s" % [sorted(set(left[k]) - set(now[k])) for k in left])
                with open(ans, "w") as f:
                    f.write("\ny\n")
                rc, out = d.run("tmipcrm", [] if r.random() < 0.5 else ["-y"], stdin=ans)
                now = d.ipc()
                if rc != 0:
                    dom.V("tmipcrm-failed", "%s %s" % (rc, out))
                for k in now:
                    if set(now[k]) - set(d.before[k]):
                        dom.V("%s-left-by-tmipcrm" % k, "%s" % sorted(set(now[k]) - set(d.before[k])))
                dom.C("tmipcrm")
        fine(what)
    if up:
        w.shutdown()
        fine("down")
    d.finish(files=False)
    fine("end")
    open(stop, "w").close()
    for p in steady:
        b.collect(p, 60)
    b.tell(talk, "term")
    b.tell(talk, "end")
    b.collect(talk, 10)
    b.shutdown()
    dom.exactly_once(dom.parse_log(b.lines()))
    b.finish()


def run(ctx):
    ctx.rule = ("one evaluation = one comparison of the running domain (processes, number of queues, who executes calls to every service) with a model of what "
                "has been started, stopped and killed")
    ctx.assumptions = ["the dead are removed within 10 s (the watchdog runs once a second)",
                       "files of messages in the hands of a process killed in the middle of sending or receiving are not counted"]
    exes = dom.build(ctx)
    k = ctx.n(1, 10)
    jit = ["", "20,3000", "", "5,20000"]
    todo = []
    for i in range(16 * k):
        todo.append(("life", dict(cycles=2 + i % 2, events=4 + i % 3, jitter=jit[i % 4], broken=i % 3 == 2)))
    for i in range(6 * k):
        todo.append(("life", dict(cycles=2, events=4, jitter=jit[i % 4], stutter=True)))
    for i in range(8 * k):
        todo.append(("storm", dict(secs=5 + i % 3, jitter=jit[i % 4])))
    for i in range(4 * k):
        todo.append(("ipcrm", dict(jitter=jit[i % 4])))
    for i in range(4 * k):
        todo.append(("neighbours", dict(events=8, jitter=jit[i % 4])))
    dom.scenarios(ctx, exes, "c16", todo, parallel=8, wall=ctx.n(400, 840))
    c = ctx.cov
    ctx.cov["evaluations"] = c.get("checks", 0) + c.get("settled", 0) + c.get("shutdowns", 0)
    ctx.cov["distinct_nontrivial"] = len(ctx.sets.get("world", ())) + len(ctx.sets.get("event", ())) + len(ctx.sets.get("settled", ()))
    for what, name, least in (("starts", "boots", 50), ("shutdowns", "shutdowns", 40), ("events", "events", 60), ("states compared", "checks", 100),
                              ("kills at random moments", "random_kills", 30), ("clients killed with the lock", "killed_with_lock", 4), ("servers killed with the lock", "servers_killed_with_lock", 4), ("tmipcrm", "tmipcrm", 2), ("processes stopped and continued", "stopped", 100), ("moments the lock was kept from all", "stopped_while_locked", 30), ("looks at another domain", "neighbour_checks", 30)):
        ctx.need(what, c.get(name, 0), k * least)
