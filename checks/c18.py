import os, re, signal, sys, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import fx, dom, c16


def ids():
    r = {}
    src = os.environ.get("VERIF_REPO", "/repo")
    text = open(os.path.join(src, "include", "tpadm.h"), errors="replace").read().replace("\\\n", " ")
    for n, i in re.findall(r"#define\s+(TA_\w+)\s+\(\(FLDID32\)\s*(\d+)\)", text):
        r[int(i)] = n
    return r


class Admin:
    def __init__(self, w, c):
        self.w, self.c, self.ids = w, c, w.ids

    def get(self, klass, n=1, how=2):
        """Answers to n queries: list of (rc, err, {field: [values]})."""
        d = self.w.d
        if not d.tell(self.c, "mib %s %d %d" % (klass, n, how), timeout=120):
            return []
        res, cur = [], None
        for l in open("%s.mib.%d" % (d.log, self.c.pid), errors="replace").read().split("\n"):
            if l.startswith("== "):
                a = l.split()
                cur = (int(a[1]), int(a[2]), {})
            elif l == "==end":
                res.append(cur)
                cur = None
            elif cur is not None and l:
                f, oc, v = l.split(" ", 2)
                nm = self.ids.get(int(f), f)
                cur[2].setdefault(nm, []).append(v)
                if int(oc) != len(cur[2][nm]) - 1:
                    dom.V("occurrence-numbers", "%s: %s" % (klass, l))
        good = []
        for rc, err, f in res:
            if rc == -1:
                dom.V("query-gives-%d" % err, "GET of %s" % klass)
                continue
            if f.get("TA_ERROR") != ["0"] or len(f.get("TA_OCCURS", ())) != 1:
                dom.V("answer-without-count", "%s: TA_ERROR %s TA_OCCURS %s" % (klass, f.get("TA_ERROR"), f.get("TA_OCCURS")))
                continue
            n = int(f["TA_OCCURS"][0])
            bad = [k for k, v in f.items() if k not in ("TA_ERROR", "TA_OCCURS") and len(v) != n]
            if bad:
                dom.V("occurrences-of-%s" % bad[0], "%s: %d objects but %s" % (klass, n, {k: len(f[k]) for k in bad}))
                continue
            good.append([{k: v[i] for k, v in f.items() if k not in ("TA_ERROR", "TA_OCCURS")} for i in range(n)])
            dom.C("answers")
            dom.D("answer", "%s %d" % (klass, n))
        return good

    def expect(self, klass, key, want, what, partial=False):
        """want: {key tuple: {field: value}}; every object once with these values."""
        for objs in self.get(klass, 2):
            seen = {}
            for o in objs:
                k = tuple(o.get(x) for x in key)
                if k in seen:
                    dom.V("%s-twice" % klass, "after %s: %s listed twice" % (what, k))
                seen[k] = o
            missing = set(want) - set(seen)
            more = set(seen) - set(want)
            if missing:
                dom.V("%s-missing" % klass, "after %s: %s not listed: %s" % (what, sorted(map(str, missing)), sorted(map(str, seen))))
            if more and not partial:
                dom.V("%s-too-many" % klass, "after %s: %s listed" % (what, sorted(map(str, more))))
            for k in set(want) & set(seen):
                for f, v in want[k].items():
                    got = seen[k].get(f)
                    ok = v(got) if callable(v) else got == str(v)
                    if not ok:
                        dom.V("%s-%s" % (klass, f), "after %s: %s has %s=%s%s" % (what, k, f, got, "" if callable(v) else ", not " + str(v)))
                    dom.C("attributes")
            dom.C("objects", len(seen))


class Config:
    def __init__(self, spec):
        r = self.rnd = dom.random.Random(spec["seed"] * 3 + 5)
        self.ng = 1 + r.randrange(4)
        self.groups = []
        for i in range(self.ng):
            no = 10 * (i + 1) + r.randrange(10)
            self.groups.append(("G%s" % "".join(r.choice("ABCXYZ_09") for _ in range(r.randrange(1, 12))) + str(i), no,
                                "NONE:info %d:%s" % (i, "x" * r.randrange(60)) if r.random() < 0.6 else "",
                                "close %d" % i if r.random() < 0.4 else ""))
        tab = {"sa": ["S1", "S2"], "sb": ["S2", "S3", "B@"], "ms": ["S3", "S4"], "ad": ["AD1"], "ae": ["AE1"],
               "many": ["N%d" % i for i in range(60)]}
        self.srvs = {}
        cfg = []
        # numbers of servers are unique in their group only
        per_group = r.random() < 0.5
        nids = {}
        kinds = ["sa", "sb", "ms", "ad", "ae"] + [r.choice(["sa", "sb", "ms"]) for _ in range(r.randrange(4))]
        if r.random() < 0.4:
            kinds.append("many")
        for nm in kinds:
            g = r.randrange(self.ng)
            par = []
            mn = mx = 1
            if nm in ("sa", "sb", "ms") and r.random() < 0.4:
                mn = 1 + r.randrange(2)
                mx = mn + r.randrange(3)
                par.append("MIN=%d MAX=%d" % (mn, mx))
            q = None
            if r.random() < 0.4 and nm in ("sa", "ms"):
                q = "q" + nm
                par.append('RQADDR="%s"' % q)
            lo = hi = 1
            if nm == "ms":
                lo = 1 + r.randrange(3)
                hi = lo + r.randrange(3)
                par.append("MINDISPATCHTHREADS=%d MAXDISPATCHTHREADS=%d" % (lo, hi))
            gn, gno = self.groups[g][:2]
            nid = nids.get(g if per_group else 0, 10)
            cfg.append((nm, gn, nid, " ".join(par)))
            for j in range(mx):
                s = c16.Srv(nm, gn, gno, nid + j, par, tab[nm], q or "%d.%d" % (gno, nid + j))
                s.base, s.min, s.max, s.lo, s.hi, s.auto = nid, mn, mx, lo, hi, j < mn
                self.srvs[s.key] = s
            nids[g if per_group else 0] = nid + 10 + r.choice([0, r.randrange(90)])
        self.tab = tab
        n = len(self.srvs)
        self.res = dict(MAXSERVERS=n + 2 + r.randrange(50), MAXSERVICES=100 + r.randrange(300), MAXGROUPS=self.ng + 1 + r.randrange(40),
                        MAXACCESSERS=n + 20 + r.randrange(50), MAXQUEUES=n + 5 + r.randrange(60))
        self.bt = 3 + r.randrange(20)
        self.d = dom.Domain(spec, groups=[(g, no, ('OPENINFO="%s" ' % oi if oi else "") + ('CLOSEINFO="%s"' % ci if ci else ""))
                                          for g, no, oi, ci in self.groups],
                            servers=cfg, tab=tab, blocktime=self.bt,
                            ubb_resources="\n".join("%s %d" % x for x in self.res.items()))
        self.ids = ids()


def state_of(w, extra_svcs=None):
    """What the queries have to report; servers that run have a pid."""
    queues, srv, adv, svc = {}, {}, {}, {}
    srv[("0", "0")] = {"TA_SERVERNAME": "BBL", "TA_STATE": "ACT", "TA_SRVGRP": "", "TA_CLOPT": "-A"}
    adv[(".TMIB", "0", "0")] = {"TA_STATE": "ACT", "TA_RQADDR": ".BBL"}
    svc[(".TMIB",)] = {"TA_STATE": "ACT"}
    queues[(".BBL",)] = {"TA_SERVERCNT": 1, "TA_SERVERNAME": "BBL"}
    for s in w.srvs.values():
        srv[(str(s.grpno), str(s.srvid))] = {
            "TA_SERVERNAME": s.name, "TA_SRVGRP": s.grp, "TA_BASESRVID": s.base, "TA_MIN": s.min, "TA_MAX": s.max,
            "TA_MINDISPATCHTHREADS": s.lo, "TA_MAXDISPATCHTHREADS": s.hi, "TA_CLOPT": "-A", "TA_LMID": "tuxapp",
            "TA_STATE": "ACT" if s.pid else (lambda v: v not in ("ACT", None))}
        cnt = sum(1 for x in w.srvs.values() if x.queue == s.queue)
        queues[(s.queue,)] = {"TA_SERVERCNT": cnt, "TA_SERVERNAME": s.name, "TA_LMID": "tuxapp"}
        for x in s.svcs:
            if s.pid:
                adv[(x, str(s.grpno), str(s.srvid))] = {"TA_STATE": "ACT", "TA_RQADDR": s.queue, "TA_LMID": "tuxapp"}
                svc[(x,)] = {"TA_STATE": "ACT"}
    for x in w.ever:
        svc.setdefault((x,), {"TA_STATE": "INA"})
    for k in svc:
        svc[k].update({"TA_LOAD": 50, "TA_PRIO": 50, "TA_BUFTYPE": "ALL", "TA_AUTOTRAN": "N"})
    return queues, srv, adv, svc


def compare(w, a, what):
    d = w.d
    for s in w.srvs.values():
        if s.pid:
            w.ever.update(s.svcs)
    queues, srv, adv, svc = state_of(w)
    a.expect("T_SERVER", ("TA_GRPNO", "TA_SRVID"), srv, what)
    a.expect("T_SVCGRP", ("TA_SERVICENAME", "TA_GRPNO", "TA_SRVID"), adv, what)
    a.expect("T_SERVICE", ("TA_SERVICENAME",), svc, what)
    a.expect("T_QUEUE", ("TA_RQADDR",), queues, what)
    # queues of servers that run exist
    used = {s.queue for s in w.srvs.values() if s.pid} | {".BBL"}
    live = d.queues()
    for objs in a.get("T_QUEUE", 1):
        for o in objs:
            if o["TA_RQADDR"] in used and int(o["TA_RQID"]) not in live:
                dom.V("T_QUEUE-TA_RQID", "after %s: queue %s has id %s, there are %s" % (what, o["TA_RQADDR"], o["TA_RQID"], sorted(live)))
    dom.C("states")


def static(w, a, what):
    d = w.d
    a.expect("T_DOMAIN", ("TA_IPCKEY",), {(str(40000 + w.spec_index),): dict(
        TA_MASTER="tuxapp", TA_MODEL="SHM", **{"TA_" + k: v for k, v in w.res.items()})}, what)
    a.expect("T_MACHINE", ("TA_LMID",), {("tuxapp",): dict(
        TA_PMID=os.uname().nodename, TA_APPDIR=os.path.join(d.dir, "app"), TA_TUXDIR=os.path.join(d.dir, "tux"),
        TA_TUXCONFIG=os.path.join(d.dir, "tuxconfig"), TA_ULOGPFX=os.path.join(d.dir, "ULOG"), TA_BLOCKTIME=w.bt * 1000)}, what)
    a.expect("T_GROUP", ("TA_SRVGRP",), {(g,): {"TA_GRPNO": no, "TA_LMID": "tuxapp", "TA_OPENINFO": oi, "TA_CLOSEINFO": ci, "TA_TMSNAME": ""}
                                         for g, no, oi, ci in w.groups}, what)


def started(w, n):
    for ms, k, kv, rest in dom.parse_log(w.d.lines()[n:]):
        if k == "I" and kv["srv"] in w.srvs:
            w.srvs[kv["srv"]].pid = int(kv["pid"])


def states(spec, events=5, **kw):
    """Queries after starts, stops and kills."""
    w = Config(spec)
    w.spec_index = spec["index"]
    w.ever = set()
    d, r = w.d, w.rnd
    if not d.load():
        return
    d.boot()
    started(w, 0)
    for s in w.srvs.values():
        if bool(s.pid) != s.auto:
            dom.V("server-%sstarted" % ("not-" if s.auto else ""), "%s, MIN %d MAX %d" % (s.key, s.min, s.max))
    c = d.talker()
    d.tell(c, "init")
    a = Admin(w, c)
    static(w, a, "start")
    compare(w, a, "start")
    for i in range(events):
        d.tell(c, "badmib x 30", timeout=60)
        up = [s for s in w.srvs.values() if s.pid]
        what = r.choice(["kill", "stop", "group", "start", "advertise", "advertise"])
        if what in ("kill", "stop", "group") and not up:
            what = "start"
        if what == "kill":
            vs = r.sample(up, min(len(up), 1 + r.randrange(3)))
            for v in vs:
                d.kill(v.pid)
                v.pid = None
            # the watchdog needs a moment
            end = time.time() + 10
            want = {(str(s.grpno), str(s.srvid)) for s in w.srvs.values() if s.pid} | {("0", "0")}
            while time.time() < end:
                g = a.get("T_SERVER", 1)
                if g and {(o["TA_GRPNO"], o["TA_SRVID"]) for o in g[0] if o["TA_STATE"] == "ACT"} == want:
                    break
                time.sleep(0.1)
        elif what == "stop":
            v = r.choice(up)
            d.shutdown(("-y", "-i", str(v.srvid), "-g", v.grp))
            v.pid = None
        elif what == "group":
            g = r.choice(sorted(set(s.grp for s in up)))
            d.shutdown(("-y", "-g", g))
            for s in up:
                if s.grp == g:
                    s.pid = None
        elif what == "start":
            n = len(d.lines())
            d.boot()
            started(w, n)
        elif what == "advertise":
            # a name more on some servers, seen with the right server
            v = r.choice([s for s in up if s.name in ("ad", "ae")] or [None])
            if v:
                p = d.client("advertise1", 6, [v.svcs[0]], args=[v.svcs[0], "EXTRA%d" % i])
                d.collect(p, 60)
                for l in open(p.out + ".out"):
                    m = re.match(r"now (\S+) ([01]) ([01])", l)
                    if m:
                        w.ever.add(m.group(1)) if m.group(3) == "1" else None
                        if m.group(2) == "1" and m.group(1) not in v.svcs:
                            v.svcs.append(m.group(1))
                        if m.group(2) == "0" and m.group(1) in v.svcs:
                            v.svcs.remove(m.group(1))
        # names advertised at run time are gone with their server
        for s in w.srvs.values():
            if not s.pid:
                s.svcs = [x for x in s.svcs if not x.startswith("EXTRA")]
        compare(w, a, what)
        dom.C("events")
        dom.D("event", what)
    static(w, a, "everything")
    d.tell(c, "term")
    d.tell(c, "end")
    d.collect(c, 10)
    d.shutdown()
    d.finish()


def churn(spec, n=250, jitter="", **kw):
    """Queries while services come and go: what does not change is always reported, nothing twice, nothing that never was."""
    w = Config(spec)
    w.spec_index = spec["index"]
    w.ever = set()
    d, r = w.d, w.rnd
    if not d.load():
        return
    d.boot()
    started(w, 0)
    cl = [d.client("advertise", n, ["AD1"], args=["AD1"]), d.client("advertise", n, ["AE1"], args=["AE1"]),
          d.client("advertise", n, ["AE1"], args=["AE1"])]
    # each client has names of its own
    names = re.compile(r"(V1_[123]0*1|V2_[123]0*1|V3_[123]0*1|VERYLONGNAMEOFASERVICE_[123]0*1|P+_[123]0*1[ab])$")
    tk = [d.talker() for i in range(3)]
    ad = [Admin(w, t) for t in tk]
    for t in tk:
        d.tell(t, "init")
    for s in w.srvs.values():
        if s.pid:
            w.ever.update(s.svcs)
    queues, srv, adv, svc = state_of(w)
    import threading

    def work(a, t):
        k = 0
        while any(p.status is None for p in cl) and k < 60:
            k += 1
            klass = w.rnd.choice(["T_SERVER", "T_SVCGRP", "T_SVCGRP", "T_SERVICE", "T_QUEUE"])
            key, want = {"T_SERVER": (("TA_GRPNO", "TA_SRVID"), srv), "T_QUEUE": (("TA_RQADDR",), queues),
                         "T_SVCGRP": (("TA_SERVICENAME", "TA_GRPNO", "TA_SRVID"), adv), "T_SERVICE": (("TA_SERVICENAME",), svc)}[klass]
            for objs in a.get(klass, 5):
                seen = set()
                for o in objs:
                    kk = tuple(o.get(x) for x in key)
                    if kk in seen:
                        dom.V("%s-twice" % klass, "while services come and go: %s listed twice" % (kk,))
                    seen.add(kk)
                    if kk in want:
                        for f, v in want[kk].items():
                            if not (v(o.get(f)) if callable(v) else o.get(f) == str(v)):
                                dom.V("%s-%s" % (klass, f), "while services come and go: %s has %s=%s, not %s" % (kk, f, o.get(f), v))
                            dom.C("attributes")
                    elif klass in ("T_SERVER", "T_QUEUE") or not names.match(o.get("TA_SERVICENAME", "")):
                        dom.V("%s-too-many" % klass, "while services come and go: %s listed" % (kk,))
                    elif klass == "T_SVCGRP":
                        s = [x for x in w.srvs.values() if (str(x.grpno), str(x.srvid)) == kk[1:]]
                        if not s or s[0].name not in ("ad", "ae") or o["TA_RQADDR"] != s[0].queue:
                            dom.V("T_SVCGRP-server", "%s on %s" % (kk, o["TA_RQADDR"]))
                missing = set(want) - seen
                if missing:
                    dom.V("%s-missing" % klass, "while services come and go: %s not listed" % sorted(missing))
                dom.C("objects", len(seen))
                dom.C("concurrent_answers")
            d.tell(t, "badmib x 3")

    th = [threading.Thread(target=work, args=x) for x in zip(ad, tk)]
    for t in th:
        t.start()
    for t in th:
        t.join()
    for p in cl:
        d.collect(p, 120)
    for t in tk:
        d.tell(t, "term")
        d.tell(t, "end")
        d.collect(t, 10)
    d.shutdown()
    d.finish()


def run(ctx):
    ctx.rule = "one evaluation = one attribute of one listed object compared with the configuration or with what has been started, stopped, killed and advertised"
    ctx.assumptions = ["a killed server may be reported as before for up to 10 s", "services once advertised stay listed as inactive"]
    exes = dom.build(ctx)
    k = ctx.n(1, 10)
    todo = []
    for i in range(20 * k):
        todo.append(("states", dict(events=[6, 14][i % 2])))
    for i in range(10 * k):
        todo.append(("churn", dict(n=[600, 2000][i % 2])))
    dom.scenarios(ctx, exes, "c18", todo, parallel=6, wall=ctx.n(400, 840))
    c = ctx.cov
    ctx.cov["evaluations"] = c.get("attributes", 0)
    ctx.cov["distinct_nontrivial"] = sum(len(ctx.sets.get(s, ())) for s in ("answer", "event", "bad_query"))
    for what, name, least in (("queries", "answers", 2000), ("objects listed", "objects", 10000), ("states compared", "states", 80),
                              ("bad queries", "bad_queries", 1000), ("answers while services come and go", "concurrent_answers", 300)):
        ctx.need(what, c.get(name, 0), k * least)
