import os, time
import fx, dom


def setup(spec, jitter="", env=None):
    tab = {"sa": ["S1", "S2"], "ms": ["S2", "S3"], "fa": ["F1", "F2"], "mf": ["F2", "F3"], "ga": ["G1"],
           "ad": ["AD1"], "ae": ["AE1"], "xa": ["X1", "X@"], "xb": ["X2"]}
    servers = [("sa", "GROUP1", 10, ""), ("sa", "GROUP1", 11, ""), ("ms", "GROUP2", 20, "MINDISPATCHTHREADS=3 MAXDISPATCHTHREADS=3"),
               ("fa", "GROUP1", 30, ""), ("mf", "GROUP2", 40, "MINDISPATCHTHREADS=2 MAXDISPATCHTHREADS=2"),
               ("ga", "GROUP2", 50, ""), ("ad", "GROUP1", 60, ""), ("ae", "GROUP2", 61, ""),
               ("xa", "GROUP1", 70, ""), ("xa", "GROUP1", 71, ""), ("xb", "GROUP2", 72, "")]
    e = {"USYS_JITTER": jitter}
    e.update(env or {})
    d = dom.Domain(spec, groups=[("GROUP1", 1, ""), ("GROUP2", 2, "")], idle=True, servers=servers, tab=tab, env=e)
    if not d.load():
        return None
    d.boot()
    return d


def outcomes(spec, nclients=4, n=200, jitter="", delay=3, **kw):
    """Every outcome a service can have and every call that has to be refused, mixed, by several clients at once."""
    d = setup(spec, jitter)
    if d is None:
        return
    cl = []
    for c in range(nclients):
        mode = ["refused", "outcome", "refused", "outcome", "refused"][c % 5]
        cl.append(d.client(mode, n, ["S1", "S2", "S3"], fwd="F1,F2,F3;G1", delay=delay))
    cl.append(d.client("advertise", n, ["S1"], args=["AD1"]))
    cl.append(d.client("advertise", n, ["S1"], args=["AE1"]))
    # one that ends its servers, while the others go on
    cl.append(d.client("exits", 3, ["S1"], args=["X1,X70,X71,X2"]))
    for p in cl:
        d.collect(p, 120)
    d.shutdown()
    recs = dom.parse_log(d.lines())
    started = d.started()
    exited = {}
    for ms, k, kv, rest in recs:
        if k == "Y":
            exited[kv["pid"]] = ms
    ended = {kv["pid"]: ms for ms, k, kv, rest in recs if k == "Z"}
    running = {str(p) for p in d.running().values()}
    for pid in exited:
        if pid not in ended:
            dom.V("TPEXIT-does-not-end-the-server", "server %s returned with TPEXIT and never left its main loop" % pid)
    dom.C("exited_servers", len(exited))
    n = sum(1 for r in recs if r[1] == "E")
    dom.C("executions", n)
    d.finish()


def run(ctx):
    ctx.rule = ("one evaluation = one call whose every outcome (result, tperrno, tpurcode, data, type, length) is known from the plan the service was sent, "
                "compared with what the caller got")
    ctx.assumptions = ["replies of one client stay below the size of its reply queue", "TPEXIT is used with single threaded servers"]
    exes = dom.build(ctx)
    k = ctx.n(36, 300)
    todo = []
    for i in range(k):
        todo.append(("outcomes", dict(nclients=[4, 6, 3][i % 3], n=[200, 120, 400][i % 3] * ctx.n(1, 3), delay=[3, 0, 10][i % 3],
                                      jitter=["", "20,3000", "5,20000", "60,400", "it700"][i % 5])))
    dom.scenarios(ctx, exes, "c12", todo, parallel=5, wall=ctx.n(300, 800))
    c = ctx.cov
    ctx.cov["evaluations"] = c.get("refused", 0) + c.get("outcomes", 0) + c.get("tpcalls", 0) + c.get("replies", 0) + c.get("advertisings", 0) + c.get("exits", 0)
    ctx.cov["distinct_nontrivial"] = sum(len(ctx.sets.get(s, ())) for s in ("call", "refused", "outcome", "advertise", "exits"))
    for what, name, least in (("calls that have to be refused", "refused", 100), ("outcomes", "outcomes", 50), ("replies", "replies", 20),
                              ("advertisings", "advertisings", 100), ("servers ended by TPEXIT", "exited_servers", 2)):
        ctx.need(what, c.get(name, 0), k * least)
