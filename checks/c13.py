import os, time
import fx, dom


def domain(spec, jitter="", blocktime=60, zthreads=6):
    tab = {"sa": ["S1", "S2"], "ms": ["S2", "S3"], "fa": ["F1"], "mz": ["Z1"], "zb": ["Z2"], "la": ["L1"], "ml": ["L2"]}
    servers = [("sa", "GROUP1", 10, ""), ("sa", "GROUP1", 11, ""), ("ms", "GROUP2", 20, "MINDISPATCHTHREADS=4 MAXDISPATCHTHREADS=4"),
               ("fa", "GROUP1", 30, ""), ("mz", "GROUP2", 40, "MINDISPATCHTHREADS=%d MAXDISPATCHTHREADS=%d" % (zthreads, zthreads)),
               ("zb", "GROUP2", 50, ""), ("la", "GROUP1", 60, ""), ("ml", "GROUP2", 61, "MINDISPATCHTHREADS=2 MAXDISPATCHTHREADS=2")]
    d = dom.Domain(spec, groups=[("GROUP1", 1, ""), ("GROUP2", 2, "")], idle=True, servers=servers, tab=tab, blocktime=blocktime,
                   env={"USYS_JITTER": jitter})
    if not d.load():
        return None
    d.boot()
    return d


def finish(d, exactly=True, drain=10):
    end = time.time() + drain
    while exactly and time.time() < end:
        recs = dom.parse_log(d.lines())
        sent = {k[2]["id"] for k in recs if k[1] == "S"}
        done = {k[2]["id"] for k in recs if k[1] == "R"}
        if sent <= done:
            break
        time.sleep(0.05)
    d.shutdown(timeout=90)
    if exactly:
        dom.exactly_once(dom.parse_log(d.lines()))
    d.finish()


def mixed(spec, n=150, jitter="", delay=5, **kw):
    """Random sends, gets, cancels, polls and short block times; services that leave calls outstanding."""
    d = domain(spec, jitter)
    if d is None:
        return
    cl = [d.client("desc", n, ["S1", "S2", "S3"], fwd="F1", delay=delay) for c in range(4)]
    cl.append(d.client("leave", n, ["S1", "S2"], args=["L1"]))
    cl.append(d.client("leave", n, ["S3", "S2"], args=["L2"]))
    for p in cl:
        d.collect(p, 150)
    finish(d)


def slow(spec, n=90, jitter="", **kw):
    """Services that take longer than the block time while other calls go on."""
    d = domain(spec, jitter, blocktime=60)
    if d is None:
        return
    cl = [d.client("slow", n, ["S1", "S2", "S3"], fwd="F1", delay=10) for c in range(6)]
    for p in cl:
        d.collect(p, 150)
    finish(d, drain=20)


def deftime(spec, n=5, bt=2, jitter="", **kw):
    """The block time of the domain."""
    d = domain(spec, jitter, blocktime=bt, zthreads=8)
    if d is None:
        return
    cl = [d.client("deftime", n, ["S1", "S2", "S3"], args=[bt * 1000]) for c in range(5)]
    for p in cl:
        d.collect(p, 150)
    finish(d, drain=20)


def signals(spec, n=8, bt=2, jitter="", **kw):
    """Signals that arrive while a client waits."""
    d = domain(spec, jitter, blocktime=bt, zthreads=8)
    if d is None:
        return
    cl = [d.client("signals", n, ["S1", "S2", "S3"], args=[bt * 1000]) for c in range(5)]
    for p in cl:
        d.collect(p, 150)
    finish(d, drain=20)


def idle(spec, n=2, bt=1, jitter="", **kw):
    """Clients that have timed out and been served, and then wait for nothing: nothing is sent to them."""
    d = domain(spec, jitter, blocktime=bt, zthreads=8)
    if d is None:
        return
    stop = os.path.join(d.dir, "stop")
    cl = [d.client("deftime", n, ["S1", "S2", "S3"], args=[bt * 1000, stop]) for c in range(5)]
    end = time.time() + 120
    while time.time() < end and not all("idle\n" in open(p.out + ".out", errors="replace").read() for p in cl):
        time.sleep(0.1)
    time.sleep(bt + 4)  # late replies

    def waiting():
        return {i: int(v[4]) for i, v in d.ipc()["msg"].items()}
    a = waiting()
    time.sleep(4)
    b = waiting()
    more = {i: (a[i], b[i]) for i in b if i in a and b[i] > a[i]}
    if more:
        dom.V("sent-to-idle", "nobody calls or waits, messages on queues 4 s apart: %s" % more)
    dom.C("idle_queues", len(b))
    open(stop, "w").close()
    for p in cl:
        d.collect(p, 60)
    finish(d, drain=20)


def blktime(spec, n=24, bt=40, jitter="", **kw):
    """Block times set for the next call and for all."""
    d = domain(spec, jitter, blocktime=bt, zthreads=14)
    if d is None:
        return
    cl = [d.client("blktime", n, ["S1"], args=[bt * 1000]) for c in range(4)]
    for p in cl:
        d.collect(p, 200)
    finish(d, drain=20)


def limit(spec, n=4, jitter="", **kw):
    """As many calls outstanding as there may be."""
    d = domain(spec, jitter)
    if d is None:
        return
    d.collect(d.client("limit", n, ["S1", "S2", "S3"]), 150)
    # a service that leaves more outstanding than there are descriptors
    d.collect(d.client("leave", 1400, ["S1", "S2"], args=["L1"]), 150)
    finish(d, exactly=False)


def marathon(spec, n=70000, joins=200, jitter="", **kw):
    """Descriptors, message files and entries for clients after a long history."""
    d = domain(spec, jitter)
    if d is None:
        return
    d.collect(d.client("marathon", n, ["S1", "S2"], args=[joins]), 240)
    finish(d)


def full(spec, n=4, jitter="", **kw):
    """Request queue of a stopped server."""
    d = domain(spec, jitter)
    if d is None:
        return
    p = d.client("full", n, ["S1"], args=[[v for k, v in d.started().items() if k.endswith(".50")][0]])
    d.collect(p, 150)
    finish(d)


def run(ctx):
    ctx.rule = ("one evaluation = one tpgetrply, tpcall, tpcancel or tpacall whose admissible results follow from the calls outstanding and the time passed, "
                "compared with what it returned")
    ctx.assumptions = ["a time-out is in time up to 6 s after the block time (the watchdog runs once a second, the machine may be loaded)",
                       "replies outstanding stay below the size of the reply queue"]
    exes = dom.build(ctx)
    k = ctx.n(1, 8)
    jit = ["", "20,3000", "5,20000", "60,400"]
    todo = []
    for i in range(6 * k):
        todo.append(("slow", dict(n=90 + 20 * (i % 3), jitter=jit[i % 4])))
    for i in range(4 * k):
        todo.append(("deftime", dict(n=6, bt=1 + i % 3, jitter=jit[i % 4])))
    for i in range(3 * k):
        todo.append(("signals", dict(n=8, bt=3 + i % 2, jitter=jit[i % 4])))
    for i in range(2 * k):
        todo.append(("idle", dict(n=2, bt=1 + i % 2)))
    for i in range(6 * k):
        todo.append(("blktime", dict(n=30, bt=[40, 2, 60][i % 3], jitter=jit[i % 2])))
    for i in range(16 * k):
        todo.append(("mixed", dict(n=[150, 300, 80][i % 3], delay=[5, 0, 20][i % 3], jitter=jit[i % 4])))
    for i in range(3 * k):
        todo.append(("limit", dict(n=4, jitter=["", "5,2000", ""][i % 3])))
    for i in range(4 * k):
        todo.append(("full", dict(n=4, jitter=jit[i % 4])))
    for i in range(2 * k):
        j = "it%d" % [700, 300, 5000][i % 3]
        todo += [("slow", dict(n=60, jitter=j)), ("deftime", dict(n=4, bt=2 + i % 2, jitter=j)), ("mixed", dict(n=150, delay=5, jitter=j)),
                 ("full", dict(n=3, jitter=j)), ("blktime", dict(n=20, bt=40, jitter=j))]
    for i in range(max(1, k // 2)):
        todo.insert(0, ("marathon", dict(n=[70000, 140000][i % 2], joins=200)))
    dom.scenarios(ctx, exes, "c13", todo, parallel=8, wall=ctx.n(400, 830))
    c = ctx.cov
    ctx.cov["evaluations"] = sum(c.get(x, 0) for x in ("tpcalls", "tpacalls", "replies", "cancelled", "bad_descriptors", "timeouts", "left", "after_timeout", "blktime_calls", "blktime_reads"))
    ctx.cov["distinct_nontrivial"] = sum(len(ctx.sets.get(s, ())) for s in ("order", "timeout", "left", "call", "limit"))
    for what, name, least in (("cancelled calls", "cancelled", 100), ("time-outs", "timeouts", 60), ("replies fetched", "replies", 2000),
                              ("descriptors finished before", "bad_descriptors", 200), ("full queues", "queue_full", 8),
                              ("replies nobody waited for", "given_up", 100), ("polls", "polls", 100), ("replies after TPETIME", "after_timeout", 2),
                              ("services that leave calls", "left", 1000)):
        ctx.need(what, c.get(name, 0), k * least)
    ctx.need("replies fetched after a long life", c.get("held_replies", 0), 10)
    ctx.need("calls with block times set", c.get("blktime_calls", 0), k * 60)
    ctx.need("calls interrupted by signals", c.get("interrupted", 0), k * 20)
    ctx.need("calls that went on after signals", c.get("went_on", 0), k * 20)
    ctx.need("queues watched while nobody waits", c.get("idle_queues", 0), k * 20)
    ctx.need("limits reached", len(ctx.sets.get("limit", ())), 1)
