import os
import fx

WRAP = ["-Wl," + ",".join("--wrap=" + f for f in ("mkstemp", "write", "close", "msgsnd", "msgrcv", "open", "read", "stat", "unlink"))]


def run(ctx):
    ctx.rule = ("one evaluation = one history of queue calls: a single process against an exact model of its queues with failing system calls, "
                "or several sending and receiving processes whose records are checked afterwards, or such processes while their queues are removed")
    ctx.assumptions = ["messages are at least as long as their header, as all callers make them",
                       "a system call failing after the receiver took a message may lose that message; it must be reported and leave no file"]
    b = fx.Build("asan")
    exe = b.build({"ipcq": {"src": [os.path.join(fx.VERIF, "harness/ipcq.cpp")], "ldflags": WRAP}})["ipcq"]
    n = ctx.n(1500, 20000)
    fx.run_cases(ctx, exe, "one", n, wall=ctx.n(150, 300))
    m = ctx.n(60, 700)
    fx.run_cases(ctx, exe, "conc", m, wall=ctx.n(200, 350), workers=3, case_cpu=60)
    k = ctx.n(60, 500)
    fx.run_cases(ctx, exe, "rm", k, wall=ctx.n(120, 200), workers=3, case_cpu=60)
    ctx.cov["distinct_nontrivial"] = len(ctx.sets.get("interleaving", ())) + len(ctx.sets.get("fault", ())) + len(ctx.sets.get("size", ()))
    c = ctx.cov
    ctx.need("messages compared by one process", c.get("received_intact", 0), n * 3)
    ctx.need("large messages of one process", c.get("sent_large", 0), n)
    ctx.need("faults", sum(v for k2, v in c.items() if k2.startswith("fault_")), n)
    ctx.need("messages between processes", c.get("conc_received", 0), m * 60)
    ctx.need("large messages between processes", c.get("conc_large", 0), m * 10)
    ctx.need("full queues met", c.get("conc_refused", 0), m)
    ctx.need("queues removed in use", k, 1)
