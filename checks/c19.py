import os, sys, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import fx, dom, fmlcommon
from c14 import atom  # noqa: F401  scenarios of this module
from c15 import walk  # noqa: F401


def threads(spec, n=40, clients=2, threads=4, rounds=2, disp=4, delay=3, jitter="", **kw):
    tab = {"sa": ["S1", "S2"], "ms": ["M1", "M2"], "mt": ["M2", "M3"], "fa": ["F1", "F2"], "mf": ["F2", "F3"], "ga": ["G1"],
           "mn": ["N1"], "mo": ["N2", "N1"], "ma": ["AD1"]}
    dt = "MINDISPATCHTHREADS=%d MAXDISPATCHTHREADS=%d"
    servers = [("sa", "GROUP1", 10, ""), ("ms", "GROUP2", 20, dt % (disp, disp)), ("mt", "GROUP1", 30, dt % (2, disp)),
               ("fa", "GROUP1", 40, ""), ("mf", "GROUP2", 50, dt % (disp, disp)), ("ga", "GROUP2", 60, ""),
               ("mn", "GROUP1", 70, dt % (disp, disp)), ("mo", "GROUP2", 80, dt % (1, disp)), ("ma", "GROUP1", 90, dt % (disp, disp))]
    d = dom.Domain(spec, groups=[("GROUP1", 1, ""), ("GROUP2", 2, "")], servers=servers, tab=tab, env={"USYS_JITTER": jitter})
    if not d.load():
        return
    d.boot(timeout=120)
    missing = {"%d.%d" % (1 if g == "GROUP1" else 2, i) for _, g, i, _ in servers} - set(d.started())
    if missing:
        dom.V("server-not-started", "%s" % missing)
    offers = {"%d.%d" % (1 if g == "GROUP1" else 2, i): tab[nm] for nm, g, i, _ in servers}
    cl = [d.client("thcalls", n, ["S1", "S2", "M1", "M2", "M3"], fwd="F1,F2,F3;G1", nest="N1,N2", delay=delay, stages=3,
                   args=[threads, rounds, "AD1", delay]) for _ in range(clients)]
    for p in cl:
        d.collect(p, 240)
    end = time.time() + 20
    while time.time() < end:
        recs = dom.parse_log(d.lines())
        sent = {k[2]["id"] for k in recs if k[1] == "S"}
        done = {k[2]["id"] for k in recs if k[1] == "R"}
        if sent <= done:
            break
        time.sleep(0.1)
    d.shutdown(timeout=120)
    recs = dom.parse_log(d.lines())
    by = {}
    act, mx, n_ex = 0, 0, 0
    for ms, k, kv, rest in recs:
        if k == "E":
            by.setdefault(kv["srv"], set()).add(kv["tid"])
            act += 1
            n_ex += 1
        elif k in "RW":
            act -= 1
        mx = max(mx, act)
    for s, t in by.items():
        dom.D("server_threads", "%s:%d" % (s, len(t)))
    dom.D("overlap", str(mx))
    dom.C("executions", n_ex)
    d.finish()


def run(ctx):
    ctx.rule = ("one evaluation = one case of a model-checked workload run by one of several threads, or one service execution in a domain whose client and "
                "server processes run several threads; the race detector watches every access of library and harness, each thread's own model every result")
    ctx.assumptions = ["happens-before through the library's semaphores is told to the race detector by the stand-in for semop",
                       "one buffer is changed by one thread at a time; readers may share it"]
    h = lambda n: os.path.join(fx.VERIF, "harness/%s.cpp" % n)
    t = fx.Build("tsan")
    thr = t.build({"thr": {"src": [h("thr"), h("fml"), h("expr"), h("mem")], "cflags": ["-DVH_THR"]}})["thr"]
    exes = dom.build(ctx, san="tsan", xa=True)
    with open(os.path.join(ctx.scratch, "vfields"), "w") as f:
        f.write(fmlcommon.FIELDS)
    env = {"FLDTBLDIR32": ctx.scratch, "FIELDTBLS32": "vfields", "ULOGPFX": os.path.join(ctx.scratch, "ULOG")}
    n = ctx.n(1200, 12000)
    fx.run_cases(ctx, thr, "thr", n, env=env, wall=ctx.n(150, 400), workers=4, case_cpu=100)
    k = ctx.n(16, 80)
    todo = []
    for i in range(k):
        j = ["", "20,2000", "5,15000", "60,300"][i % 4]
        todo.append(("threads", dict(san="tsan", threads=[4, 2, 6][i % 3], disp=[4, 2, 6][(i // 2) % 3], jitter=j, clients=[1, 2][i % 2])))
        if i % 4 == 0:
            todo.append(("walk", dict(san="tsan", n=150, clients=2, threads=3, jitter=["", "3"][i % 8 // 4])))
        if i % 4 == 2:
            todo.append(("atom", dict(san="tsan", n=30, clients=2, threads=3, jitter=j)))
    dom.scenarios(ctx, exes, "c19", todo, parallel=4, wall=ctx.n(400, 850))
    c = ctx.cov
    c["evaluations"] = sum(v for q, v in c.items() if q.startswith("thread_")) + c.get("executions", 0)
    c["distinct_nontrivial"] = sum(len(ctx.sets.get(x, ())) for x in ("threads", "error", "server_threads", "overlap", "part", "call"))
    ctx.need("teams of threads", c.get("teams", 0), n * 9 // 10)
    ctx.need("shared reads", c.get("shared_reads", 0), n * 20)
    ctx.need("buffers handed over", c.get("handed_over", 0), n)
    ctx.need("client threads", c.get("client_threads", 0), k * 4)
    ctx.need("executions", c.get("executions", 0), k * 100)
