import os, time
import fx, dom


def mix(spec, nsrv=2, threads=3, nclients=4, n=60, delay=4, jitter="", nofile=0, itimer=0, stutter=False, **kw):
    """nofile: messages that need a file fail that often (per mille): refused or failed, but never lost, mixed up or deadly"""
    tab = {"sa": ["S1", "S2", "A@"], "sb": ["S2", "S3"], "ms": ["M1", "M2"],
           "fa": ["F1", "F2"], "mf": ["F2", "F3"], "ga": ["G1"], "na": ["N1"], "mn": ["N2", "N1"]}
    servers = []
    r = dom.random.Random(spec["seed"])
    # servers sharing a queue
    share = r.random() < 0.5
    for i in range(nsrv):
        servers.append(("sa", "GROUP1", 10 + i, 'RQADDR="qa"' if share else ""))
    servers.append(("sb", "GROUP1", 30, ""))
    servers.append(("ms", "GROUP2", 40, "MINDISPATCHTHREADS=%d MAXDISPATCHTHREADS=%d" % (threads, threads)))
    if share:
        servers.append(("fa", "GROUP2", 50, 'RQADDR="qf" MIN=2 MAX=2'))
    else:
        servers.append(("fa", "GROUP2", 50, ""))
    servers.append(("mf", "GROUP2", 60, "MINDISPATCHTHREADS=2 MAXDISPATCHTHREADS=2"))
    servers.append(("ga", "GROUP2", 70, ""))
    servers.append(("na", "GROUP2", 80, ""))
    servers.append(("mn", "GROUP2", 81, "MINDISPATCHTHREADS=3 MAXDISPATCHTHREADS=3"))
    d = dom.Domain(spec, groups=[("GROUP1", 1, ""), ("GROUP2", 2, "")], idle=True, servers=servers, tab=tab,
                   env={"USYS_JITTER": jitter, "USYS_NOFILE": str(nofile), **({"USYS_ITIMER": str(itimer)} if itimer else {})})
    if not d.load():
        return
    if stutter:
        d.stutter()
    d.boot()
    started = d.started()
    offers = {}
    no = {x[0]: x[1] for x in d.groups}
    for nm, g, i, par in servers:
        for k in range(2 if "MAX=2" in par else 1):
            offers["%d.%d" % (no[g], i + k)] = [s.replace("@", str(i + k)) for s in tab[nm]]
    missing = set(offers) - set(started)
    if missing:
        dom.V("server-not-started", "%s of %s" % (missing, sorted(offers)))
    cl = []
    for c in range(nclients):
        svcs = ["S1", "S2", "S3", "M1", "M2"]
        if not share:
            svcs += ["A%d" % (10 + i) for i in range(nsrv)]
        cl.append(d.client("calls", n, svcs, fwd="F1,F2,F3;G1", nest="N1,N2", delay=delay, stages=3))
    for p in cl:
        d.collect(p, 120)
    # requests without reply may still be on their way
    end = time.time() + 10
    seen, last = 0, time.time()
    while time.time() < end:
        recs = dom.parse_log(d.lines())
        sent = {k[2]["id"]: k[3] for k in recs if k[1] == "S"}
        done = {k[2]["id"] for k in recs if k[1] == "R"}
        if all(i in done for i in sent):
            break
        if len(recs) != seen:
            seen, last = len(recs), time.time()
        elif nofile and time.time() - last > 1:
            break  # those that could not be forwarded
        time.sleep(0.05)
    d.shutdown()
    if stutter:
        d.still()
    recs = dom.parse_log(d.lines())
    ex = dom.exactly_once(recs, offers, stages_lost=nofile > 0)
    by = {}
    for (i, st), es in ex.items():
        for kv, rest, ms in es:
            by.setdefault(kv["srv"], set()).add(kv["tid"])
    for s, t in by.items():
        dom.D("server_threads", "%s:%d" % (s, len(t)))
    # overlap of executions: how concurrent the run was
    act, mx = 0, 0
    for ms, k, kv, rest in recs:
        if k == "E":
            act += 1
        elif k in "RW":
            act -= 1
        mx = max(mx, act)
    dom.D("overlap", str(mx))
    for k in recs:
        if k[1] == "R" and k[2].get("n") not in (None, "ok") and not nofile:
            dom.V("nested-call-failed", k[3])
    dom.S("%d requests, %d executions on %d servers, up to %d at once" % (len(sent), len(ex), len(by), mx))
    d.finish()


def run(ctx):
    ctx.rule = ("one evaluation = one execution of a service in a running domain, matched offline with the request it was sent for "
                "(once per stage, right service and server, intact content), and each reply compared by its caller with what the service was told to return")
    ctx.assumptions = ["requests and replies of one client stay below the size of its reply queue, so that nobody waits for itself"]
    exes = dom.build(ctx)
    k = ctx.n(36, 300)
    todo = []
    for i in range(k):
        todo.append(("mix", dict(nsrv=1 + i % 3, threads=2 + i % 4, nclients=[4, 8, 2][i % 3], n=[120, 60, 240][i % 3] * ctx.n(1, 3), delay=[4, 0, 20][i % 3],
                                 jitter=["", "20,3000", "5,20000", "60,400"][(i // 2) % 4], nofile=100 if i % 6 == 5 else 0, itimer=[1000, 7000, 200][i % 3] if i % 4 == 2 else 0, stutter=i % 9 == 4)))
    dom.scenarios(ctx, exes, "c11", todo, parallel=5, wall=ctx.n(300, 800))
    c = ctx.cov
    ctx.cov["evaluations"] = c.get("executions", 0)
    ctx.cov["distinct_nontrivial"] = len(ctx.sets.get("call", ())) + len(ctx.sets.get("order", ())) + len(ctx.sets.get("server_threads", ()))
    ctx.need("executions", c.get("executions", 0), k * 250)
    ctx.need("replies fetched out of order", c.get("replies", 0), k * 30)
    ctx.need("messages that found no room for their file", c.get("nofile_refused", 0) + c.get("nofile_failed", 0), k)
    ctx.need("processes stopped and continued", c.get("stopped", 0), k)
    ctx.need("requests without reply", c.get("noreply", 0), k * 5)
