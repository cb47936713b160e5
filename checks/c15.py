import os, re, sys, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import fx, dom


def domain(spec, jitter=""):
    r = dom.random.Random(spec["seed"] * 3 + 1)
    ng = 1 + r.randrange(3)
    groups = [("G%d" % (i + 1), 10 * (i + 1), "") for i in range(ng)]
    g = lambda: "G%d" % (1 + r.randrange(ng))
    servers = [("wa", g(), 10, "MIN=2"), ("mw", g(), 20, "MINDISPATCHTHREADS=%d MAXDISPATCHTHREADS=3" % (1 + r.randrange(3))),
               ("la", g(), 30, "MIN=2"), ("lb", g(), 40, "")]
    servers = [("TMS", x[0], 100 + 10 * i, "MIN=%d" % (1 + r.randrange(2))) for i, x in enumerate(groups)] + servers
    env = {}
    if jitter:
        env["USYS_JITTER"] = jitter
    return dom.Domain(spec, groups=groups, servers=servers, env=env,
                      tab={"wa": ["W1"], "mw": ["W2", "W1"], "la": ["LEAF"], "lb": ["LEAF"]},
                      ubb_resources="MAXACCESSERS 100\n", idle=True)


def judge(d):
    ids, ends = {}, {}
    for l in d.lines():
        m = re.match(r"\d+ V key=(\S+) (.*)", l)
        if m:
            dom.V(m.group(1), "in a service: " + m.group(2))
        if l.endswith(" W fault"):
            dom.C("open_faults")
        m = re.match(r"\d+ ([NG]) xid=(\S*)", l)
        if m:
            t = ids if m.group(1) == "N" else ends
            t[m.group(2)] = t.get(m.group(2), 0) + 1
    for x, n in ids.items():
        if n > 1:
            dom.V("xid-used-twice", "%d transactions have the id %s" % (n, x))
    for x, n in ends.items():
        if n > 1 or x not in ids:
            dom.V("ended-not-started", "%s ended %d times, started %d times" % (x, n, ids.get(x, 0)))
    dom.C("ids", len(ids))
    recs = dom.parse_log(d.lines())
    C = {}
    for ms, k, kv, rest in recs:
        if k == "E":
            C[kv["tran"]] = C.get(kv["tran"], 0) + 1
    for k, v in C.items():
        dom.C("executions_tran%s" % k, v)


def walk(spec, n=800, clients=4, jitter="", threads=1, **kw):
    """Clients walk through the states, services too, in the transactions of their callers and in their own."""
    d = domain(spec, jitter)
    if not d.load():
        return
    d.boot()
    cs = [d.client("txwalk", n, ["LEAF"], args=[["W1", "W2"][i % 2], "LEAF", 0, threads]) for i in range(clients)]
    for c in cs:
        d.collect(c, 200)
    d.shutdown()
    judge(d)
    d.finish()


def full(spec, n=6, crowd=0, jitter="", **kw):
    """More transactions than the table holds."""
    d = domain(spec, jitter)
    if not d.load():
        return
    d.boot()
    cs = [d.client("txfull", n, ["LEAF"], args=[crowd])]
    for i in range(crowd):
        if i % 2:
            cs.append(d.client("txfull", n, ["LEAF"], args=[crowd]))
        else:
            cs.append(d.client("txwalk", n * 100, ["LEAF"], args=["W1", "LEAF", 1]))
    for c in cs:
        d.collect(c, 200)
    if crowd:
        # as many as ever fit again
        a = d.client("txfull", 2, ["LEAF"], args=[0])
        d.collect(a, 200)
    d.shutdown()
    judge(d)
    d.finish()


def run(ctx):
    ctx.rule = "one evaluation = one tx_* or tp* transaction call whose result was compared with the model"
    ctx.assumptions = ["transaction time-outs are stored and reported but not applied, as implemented",
                       "the empty resource manager fails in xa_open and xa_close only; other failures of resource managers are C14's"]
    exes = dom.build(ctx)
    k = ctx.n(1, 12)
    todo = []
    for i in range(40 * k):
        todo.append(("walk", dict(n=[1500, 800][i % 2], clients=[1, 4, 6][i % 3], jitter=["", "", "3", "it500"][i % 4], threads=[1, 1, 1, 3][i % 4])))
        if i % 2 == 0:
            todo.append(("full", dict(n=6, crowd=[0, 0, 2, 3][i // 2 % 4])))
    dom.scenarios(ctx, exes, "c15", todo, parallel=6, wall=ctx.n(400, 840))
    c = ctx.cov
    ctx.cov["evaluations"] = c.get("tx_calls", 0) + c.get("server_steps", 0)
    ctx.cov["distinct_nontrivial"] = len(ctx.sets.get("tx_call", ()))
    for what, name, least in (("transaction calls", "tx_calls", 60000), ("tx_info compared", "tx_infos", 30000), ("transactions", "transactions", 2000),
                              ("steps of services", "server_steps", 15000), ("requests in transactions", "executions_tran1", 500),
                              ("failing xa_open and xa_close", "open_faults", 100), ("full tables", "table_full", 45)):
        ctx.need(what, c.get(name, 0), k * least)
    ctx.need("kinds of calls and states", ctx.cov["distinct_nontrivial"], 80)
