import os, re, sys, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import fx, dom

# as X/Open has them
CODES = {"XA_OK": 0, "XA_RDONLY": 3, "XA_RETRY": 4, "XA_HEURMIX": 5, "XA_HEURRB": 6, "XA_HEURCOM": 7, "XA_HEURHAZ": 8, "XAER_ASYNC": -2,
         "XAER_RMERR": -3, "XAER_NOTA": -4, "XAER_INVAL": -5, "XAER_PROTO": -6, "XAER_RMFAIL": -7, "XAER_DUPID": -8, "XAER_OUTSIDE": -9,
         "XA_RBBASE": 100, "XA_RBEND": 107, "TX_OK": 0, "TX_ROLLBACK": -2, "TX_MIXED": -3, "TX_HAZARD": -4, "TX_COMMITTED": -9,
         "TX_ACTIVE": 0, "TMJOIN": 0x200000, "TMRESUME": 0x8000000, "TMSUSPEND": 0x2000000, "TMFAIL": 0x20000000}


def domain(spec, xaf="", kills=0, jitter="", rms=3):
    rnd = dom.random.Random(spec["seed"] * 7 + 5)
    groups = [("G%d" % (i + 1), 10 * (i + 1), 'OPENINFO="USYS:rm%d" CLOSEINFO="USYS:rm%d"' % (i + 1, i + 1)) for i in range(rms)]
    groups.append(("GN", 90, ""))
    G = lambda: "G%d" % (1 + rnd.randrange(rms))
    servers = [("utms", "G%d" % (i + 1), 100 + 10 * i, "MIN=%d" % (1 + rnd.randrange(3))) for i in range(rms)]
    servers += [("TMS", "GN", 190, "MIN=2"),
                ("fa", G(), 10, "MIN=2"), ("fb", G(), 20, ""),
                ("mf", G(), 30, "MINDISPATCHTHREADS=2 MAXDISPATCHTHREADS=3"),
                ("da", G(), 40, "MIN=2"), ("db", G(), 50, ""),
                ("la", G(), 60, "MIN=2 RQADDR=lq REPLYQ=Y"), ("lb", "G1", 70, ""), ("lc", "G%d" % rms, 80, ""),
                ("ml", G(), 85, "MINDISPATCHTHREADS=2 MAXDISPATCHTHREADS=2"),
                ("pn", "GN", 90, "")]
    tab = {"fa": ["F1"], "fb": ["F2", "F1"], "mf": ["F3"], "da": ["D1"], "db": ["D2", "D1"],
           "la": ["L1"], "lb": ["L2", "L5"], "lc": ["L3", "L2"], "ml": ["L4", "L5"], "pn": ["LN"]}
    rm = os.path.join(spec["dir"], "rm")
    os.makedirs(rm)
    env = {"USYS_RM": rm, "UCLI_FRONTS": "F1,F2,F3", "UCLI_MIDS": "D1,D2", "UCLI_LEAVES": "L1,L2,L3,L4,L5,LN"}
    if xaf:
        env["USYS_XAF"] = xaf
    if jitter:
        env["USYS_JITTER"] = jitter
    return dom.Domain(spec, groups=groups, servers=servers, env=env, tab=tab, blocktime=3 if kills else 60,
                      ubb_resources="MAXACCESSERS 150\n", idle=True)


class Branch:
    """One life of the work of a transaction at a resource manager."""

    def __init__(self, rm, x):
        self.rm, self.x = rm, x
        self.prepared = None     # OK, RDONLY, RB
        self.end = None          # C R O M ?
        self.tried = []
        self.faults = []

    def truth(self):
        return self.end or "-"


def judge(d, faults, kills):
    c = CODES
    name = {v: k for k, v in c.items() if k.startswith("XA")}
    txname = {v: k for k, v in c.items() if k.startswith("TX_") and k != "TX_ACTIVE"}
    rb0, rb1 = c["XA_RBBASE"], c["XA_RBEND"]
    is_rb = lambda rc: rb0 <= rc <= rb1
    live, lives = {}, {}     # (rm,x) -> Branch now, x -> all of them
    decided = {}             # x -> commit has been asked for
    ended = {}               # x -> T record
    begun = {}
    execs = {}
    assoc = {}               # (pid,tid,rm) -> x
    n = {}
    killed = set(re.findall(r"^\d+ K id=\d+ pid=(\d+)", "\n".join(d.lines()), re.M))
    servers = set(re.findall(r"^\d+ I srv=\S+ pid=(\d+)", "\n".join(d.lines()), re.M))
    for i, l in enumerate(d.lines()):
        m = re.match(r"\d+ (\w) (.*)", l)
        if not m:
            continue
        k, rest = m.groups()
        if k == "V":
            mm = re.match(r"key=(\S+) (.*)", rest)
            if mm:
                dom.V(mm.group(1), "in a service: " + mm.group(2))
            continue
        if k not in "QTNE":
            continue
        kv = dict(re.findall(r"(\w+)=(\S*)", rest))
        if k == "N":
            if kv["xid"] in begun:
                dom.V("xid-used-twice", l)
            begun[kv["xid"]] = kv.get("pid", "")
            continue
        if k == "E":
            if kv.get("x"):
                execs.setdefault(kv["x"], []).append((int(kv["srv"].split(".")[0]), l))
            continue
        if k == "T":
            x = kv["xid"]
            n["ends"] = n.get("ends", 0) + 1
            verdict(d, c, txname, l, kv, lives.get(x, []), execs.get(x, []), faults, kills, n)
            ended[x] = kv
            continue
        op, x, rm, rc, fl = kv["op"], kv["x"], int(kv["rm"]), int(kv["rc"]), int(kv["fl"], 16)
        if op in ("open", "close"):
            want = next((p.split('"USYS:')[1].split('"')[0] for _, no, p in d.groups if no == rm and "USYS" in p), "")
            if kv.get("info") != want and op == "open":
                dom.V("open-info", "resource manager opened with '%s', not '%s': %s" % (kv.get("info"), want, l))
            n[op] = n.get(op, 0) + 1
            continue
        n["xa"] = n.get("xa", 0) + 1
        dom.D("xa_results", "%s%s=%s in %s" % (op, {0x200000: "+join", 0x8000000: "+resume", 0x2000000: "+suspend", 0x20000000: "+fail"}.get(fl, ""),
                                               "RB" if is_rb(rc) else name.get(rc, rc), kv["s"]))
        b = live.get((rm, x))
        if x not in begun:
            # the one who begins records that after xa_start of its own group
            if rc == 0:
                n.setdefault("_early", {})[x] = l
        if kv["f"] == "1":
            n["faults"] = n.get("faults", 0) + 1
            if b:
                b.faults.append((op, rc))
            n.setdefault("_faulted", set()).add(x)
        nm = "RB" if is_rb(rc) else name.get(rc, str(rc))
        T = ended.get(x)
        if T is not None:
            late(l, T, op, txname)
        if op == "start":
            if rc == 0 and not fl & (c["TMJOIN"] | c["TMRESUME"]):
                b = live[(rm, x)] = Branch(rm, x)
                lives.setdefault(x, []).append(b)
                if T is not None:
                    b.straggler = True
                if decided.get(x):
                    dom.V("work-joins-after-the-decision", "branch started after another was asked to commit: %s" % l)
                n["branches"] = n.get("branches", 0) + 1
            elif rc == c["XAER_PROTO"] and not gone_rolled(lives.get(x, []), rm):
                dom.V("xa_start-PROTO", "resource manager called out of order: %s" % l)
        elif op == "end":
            if rc in (c["XAER_PROTO"], c["XAER_NOTA"]) and not gone_rolled(lives.get(x, []), rm):
                dom.V("xa_end-%s" % nm, "resource manager called out of order: %s" % l)
        elif op == "prepare":
            if rc == c["XAER_PROTO"] or (rc == c["XAER_NOTA"] and b is not None):
                dom.V("xa_prepare-%s" % nm, "resource manager called out of order: %s" % l)
            if b is None:
                if not (faults or kills):
                    dom.V("prepare-of-no-branch", l)
                continue
            if rc == 0:
                b.prepared = "OK"
            elif rc == c["XA_RDONLY"]:
                b.prepared = "RDONLY"
                b.end = "O"
                del live[(rm, x)]
            elif is_rb(rc):
                b.prepared = "RB"
                b.end = "R"
                del live[(rm, x)]
        elif op == "commit":
            n["commits"] = n.get("commits", 0) + 1
            if rc in (c["XAER_PROTO"], c["XAER_NOTA"]):
                dom.V("xa_commit-%s" % nm, "resource manager called out of order: %s" % l)
            decided[x] = True
            for o in lives.get(x, []):
                if o.prepared not in ("OK", "RDONLY"):
                    dom.V("committed-before-all-prepared", "branch at %d asked to commit while that at %d has prepared=%s: %s" % (rm, o.rm, o.prepared, l))
            if b is None:
                continue
            b.tried.append(("commit", rc))
            if rc == 0 or rc == c["XA_HEURCOM"]:
                b.end = "C"
            elif rc in (c["XA_HEURRB"], c["XAER_RMERR"]) or is_rb(rc):
                b.end = "R"
            elif rc == c["XA_HEURMIX"]:
                b.end = "M"
            else:
                b.end = "?"
            if kv["s"] in ("none", "gone"):
                live.pop((rm, x), None)
        elif op == "rollback":
            n["rollbacks"] = n.get("rollbacks", 0) + 1
            if decided.get(x):
                dom.V("rolled-back-after-commit", "a branch was asked to commit, then: %s" % l)
            if b is None:
                continue
            if kv["pid"] in servers:
                # by the service it was active in: nobody waits for the result
                b.tried.append(("own rollback", rc))
                n["own_rollbacks"] = n.get("own_rollbacks", 0) + 1
                if kv["s"] in ("none", "gone"):
                    live.pop((rm, x), None)
                continue
            b.tried.append(("rollback", rc))
            if rc == 0 or rc == c["XA_HEURRB"] or is_rb(rc):
                b.end = "R"
            elif rc == c["XA_HEURCOM"]:
                b.end = "C"
            elif rc == c["XA_HEURMIX"]:
                b.end = "M"
            elif rc == c["XAER_PROTO"]:
                n["rollback_of_active"] = n.get("rollback_of_active", 0) + 1
            elif rc == c["XAER_NOTA"]:
                pass
            else:
                b.end = "?"
            if kv["s"] in ("none", "gone"):
                live.pop((rm, x), None)
    for (rm, x), b in live.items():
        T = ended.get(x)
        if T is None:
            if begun.get(x) in killed:
                continue
            dom.V("transaction-not-ended", "%s at %d" % (x, rm))
            continue
        if kills and ("rollback", c["XAER_PROTO"]) in b.tried and ("commit", 0) not in b.tried:
            # the service it was active in was killed: the resource manager undoes it then
            n["left_to_resource_manager"] = n.get("left_to_resource_manager", 0) + 1
            continue
        if b.end == "?" or ("own rollback", c["XAER_RMFAIL"]) in b.tried:
            n["left_uncertain"] = n.get("left_uncertain", 0) + 1
            continue
        dom.V("branch-left", "branch of %s at %d is left %s, tried %s, faults %s, after %s" % (x, rm, b.prepared, b.tried, b.faults, T))
    # not by their originator, as they were started and ended in time
    for x in n.get("_early", {}):
        if x not in begun:
            dom.V("work-in-unknown-transaction", n["_early"][x])
    for k, v in n.items():
        if not k.startswith("_"):
            dom.C(k, v)


def gone_rolled(bs, rm):
    """It was rolled back while the caller had suspended its work in it."""
    return any(b.rm == rm and (any("rollback" in t[0] for t in b.tried) or b.prepared == "RB") for b in bs)


def late(l, T, op, txname):
    """Work that was left behind may still end, and has to be undone."""
    committed = T["op"] == "commit" and T["rc"] == "0"
    if committed:
        dom.V("work-after-commit", "%s after %s" % (l, T))
    elif op in ("prepare", "commit"):
        dom.V("%s-after-the-end" % op, "%s after %s" % (l, T))
    elif T["open"] == "0" and T["failed"] == "0" and op != "rollback" and T["doomed"] == "0" and T["maybe"] == "0":
        dom.V("work-after-the-end", "%s after %s" % (l, T))


def verdict(d, c, txname, l, kv, branches, execs, faults, kills, n):
    x, op, rc = kv["xid"], kv["op"], int(kv["rc"])
    failed, open_ = int(kv["failed"]), int(kv["open"])
    got = txname.get(rc)
    truth = "".join(sorted(b.truth() for b in branches))
    what = "%s of %s gives %s; branches %s; %s" % (op, x, got or rc, [(b.rm, b.truth(), b.prepared, b.tried, b.faults) for b in branches], l)
    dom.D("outcomes", "%s=%s %s" % (op, got or rc, "".join(sorted(set(truth)))))
    n["end_%s_%s" % (op, got or rc)] = n.get("end_%s_%s" % (op, got or rc), 0) + 1
    nbr = len(set(b.rm for b in branches))
    n["branches_%d" % nbr] = n.get("branches_%d" % nbr, 0) + 1
    if got is None:
        dom.V("%s-gives-%s" % (op, rc), what)
        return
    unknown = "?" in truth
    # those without any answer: active still, or their transaction manager did not answer
    open_branches = truth.count("-")
    mixed = "M" in truth or ("C" in truth and "R" in truth)
    heur = any(t[1] == c["XA_HEURCOM"] for b in branches for t in b.tried)
    if op == "commit":
        if got == "TX_OK":
            if set(truth) - set("CO"):
                dom.V("commit-reported-but-not-committed", what)
            if (failed or open_ or int(kv["st"]) != c["TX_ACTIVE"]) and not heur:
                dom.V("failed-work-committed", what)
            if int(kv["doomed"]) and not heur:
                dom.V("failed-work-committed", what)
            rms = set(b.rm for b in branches)
            for g, e in execs:
                if all(g != no or name != "GN" for name, no, _ in d.groups) and g not in rms:
                    dom.V("work-without-branch", "%s; %s" % (e, what))
        elif got == "TX_ROLLBACK":
            if set(truth) & set("CM"):
                dom.V("rollback-reported-but-committed", what)
            if unknown:
                dom.V("rollback-reported-but-unknown", what)
        elif got == "TX_MIXED":
            # participants without a branch count as what was asked for
            if not mixed and "C" not in truth and "R" not in truth:
                dom.V("mixed-reported", what)
        elif got == "TX_HAZARD":
            if not unknown and not kills:
                dom.V("hazard-reported", what)
        else:
            dom.V("commit-gives-%s" % got, what)
        if got != "TX_OK" and not faults and not kills and not failed and not open_ and not int(kv["doomed"]) and not int(kv["maybe"]):
            dom.V("commit-refused-without-reason", what)
        if got not in ("TX_OK",) and not any(b.faults for b in branches) and not failed and not open_ and not kills and int(kv["st"]) == c["TX_ACTIVE"] \
                and x not in n.get("_faulted", ()):
            dom.V("commit-refused-without-reason", what)
    else:
        if got == "TX_OK":
            if set(truth) & set("CM"):
                dom.V("rollback-reported-but-committed", what)
            if unknown:
                dom.V("rollback-reported-but-unknown", what)
        elif got == "TX_COMMITTED":
            if set(truth) - set("C") or not truth:
                dom.V("committed-reported-but-not", what)
        elif got == "TX_MIXED":
            if not mixed and "C" not in truth:
                dom.V("mixed-reported", what)
        elif got == "TX_HAZARD":
            if not unknown and not kills:
                dom.V("hazard-reported", what)
    if mixed and got not in ("TX_MIXED", "TX_HAZARD") or (mixed and not unknown and not kills and got != "TX_MIXED"):
        dom.V("mixed-not-reported", what)


def atom(spec, n=150, clients=3, xaf="", kills=0, jitter="", delay=6, threads=1, rms=3, **kw):
    """Random transactions over several failing resource managers."""
    d = domain(spec, xaf, kills, jitter, rms)
    if not d.load():
        return
    d.boot()
    before = capacity(d)
    cs = [d.client("txatom", n, ["L1"], args=[int(bool(xaf)), kills, delay, threads]) for i in range(clients)]
    if kills:
        # what was killed is started again
        back = 0
        while any(c.poll() is None for c in cs):
            dead = sum(1 for l in d.lines() if re.match(r"\d+ K ", l))
            if dead > back:
                time.sleep(1.3)
                d.run("tmboot", ["-y"], timeout=60)
                back = dead
            time.sleep(0.3)
    for c in cs:
        d.collect(c, 250)
    if not kills:
        capacity(d)
    if kills:
        for l in d.lines():
            m = re.match(r"\d+ K id=\d+ pid=(\d+)", l)
            if m:
                d.expected_dead.add(int(m.group(1)))
                dom.C("kills")
    d.shutdown()
    ls = [re.sub(r"^\d+ ", "", l) for l in d.lines() if re.match(r"\d+ [QT] ", l)]
    if ls:
        dom.S(" | ".join(ls[len(ls) // 2:len(ls) // 2 + 4]))
    judge(d, bool(xaf), kills)
    d.finish()


def capacity(d):
    # transactions of all kinds leave as much room as there was
    a = d.client("txfull", 1, ["L1"], args=[0])
    d.collect(a, 60)


ALL = "start:15,suspend:10,end:15,prepare:40,commit:30,rollback:60"


def run(ctx):
    ctx.rule = "one evaluation = one global transaction whose outcome was compared with what the resource managers recorded"
    ctx.assumptions = ["the resource manager stand-in follows the XA rules; its XA calls are recorded in the order it served them",
                       "originators do not die and the coordinator is not killed (recovery of those is not implemented)",
                       "an error XAER_RMERR of xa_commit means rolled back, as XA says"]
    exes = dom.build(ctx, xa=True)
    k = ctx.n(1, 10)
    todo = []
    ops = ["start", "suspend", "end", "prepare", "commit", "rollback"]
    for i in range(8 * k):
        j = ["", "it500", "3", ""][i % 4]
        todo.append(("atom", dict(n=150, clients=[1, 3, 4][i % 3], jitter=j, rms=[3, 2, 4, 1][i % 4], threads=[1, 1, 3][i % 3])))
        todo.append(("atom", dict(n=150, clients=[2, 3][i % 2], xaf="%s:%d" % (ops[i % 6], [60, 250][i % 2]), jitter=j, rms=[3, 2][i % 2])))
        todo.append(("atom", dict(n=150, clients=3, xaf=ALL, jitter=j, rms=[3, 4][i % 2], threads=[1, 2][i % 2])))
        if i % 2 == 0:
            todo.append(("atom", dict(n=25, clients=3, xaf=["", ALL][i // 2 % 2], kills=1)))
    dom.scenarios(ctx, exes, "c14", todo, parallel=6, wall=ctx.n(500, 840))
    c = ctx.cov
    ctx.cov["evaluations"] = c.get("ends", 0)
    ctx.cov["distinct_nontrivial"] = len(ctx.sets.get("outcomes", ())) + len(ctx.sets.get("xa_results", ()))
    for what, name, least in (("transactions ended", "ends", 3000), ("calls of resource managers", "xa", 30000), ("injected failures", "faults", 800),
                              ("branches committed", "commits", 1500), ("branches rolled back", "rollbacks", 1500),
                              ("transactions of 3 branches", "branches_3", 300), ("killed services", "kills", 5)):
        ctx.need(what, c.get(name, 0), k * least)
    ctx.need("kinds of outcomes and XA results", ctx.cov["distinct_nontrivial"], 60)
