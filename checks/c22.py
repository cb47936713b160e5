import os, re, struct, sys, threading, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import fx, dom

SHORT, LONG, CHAR, FLOAT, DOUBLE, STRING, CARRAY, FML32 = 0, 1, 2, 3, 4, 5, 6, 10
TN = {SHORT: "short", LONG: "long", CHAR: "char", FLOAT: "float", DOUBLE: "double", STRING: "string", CARRAY: "carray", FML32: "fml32"}


class Table:
    """Fields of the application, and their ids by the documented rule (type and number)."""

    def __init__(self, r, dirname):
        self.id = {"SRVCNM": (STRING << 24) | 1}
        self.type = {"SRVCNM": STRING}
        txt = "# fields\n*base 5000\n"
        names = [("U_DO", STRING), ("U_KEY", LONG), ("U_BLOB", CARRAY)]
        for t in TN:
            for j in range(2):
                names.append(("U_%s%s" % (TN[t].upper(), "" if j == 0 else "_%d" % j), t))
        nums = r.sample(range(1, 900), len(names))
        for (n, t), k in zip(names, nums):
            txt += "%s\t%d\t%s\t-\t- %s\n" % (n, k, TN[t], "text" if r.random() < .3 else "")
            self.id[n] = (t << 24) | (5000 + k)
            self.type[n] = t
        os.makedirs(dirname)
        open(os.path.join(dirname, "udtab"), "w").write(txt)
        self.free = {t: [n for n in self.type if self.type[n] == t and n not in ("SRVCNM", "U_DO", "U_KEY", "U_BLOB")] for t in TN}
        self.name = {v: k for k, v in self.id.items()}


def esc(r, b):
    s = ""
    for c in b:
        if c < 32 or c > 126 or c == 92 or r.random() < .03:
            s += "\\%02x" % c if r.random() < .7 else "\\%02X" % c
        else:
            s += chr(c)
    return s


def value(r, tab, t, depth, big):
    """(text after the name, stored value as the service has to see it)"""
    if t == SHORT:
        v = r.choice([0, 1, -1, 32767, -32768, r.randrange(-32768, 32768)])
        return str(v), struct.pack("<h", v)
    if t == LONG:
        v = r.choice([0, -1, 2**31, -2**63, 2**63 - 1, r.randrange(-10**12, 10**12)])
        return str(v), struct.pack("<q", v)
    if t == CHAR:
        v = bytes([r.randrange(256)])
        return esc(r, v), v
    if t == FLOAT:
        v = r.choice([0.0, 1.5, -2.25, r.randrange(-2**15, 2**15) / 64.0])
        return "%f" % v, struct.pack("<f", v)
    if t == DOUBLE:
        v = r.choice([0.0, 1.5, -1e6, r.randrange(-2**40, 2**40) / 64.0])
        return "%f" % v, struct.pack("<d", v)
    n = r.choice([0, 1, 7, r.randrange(40), r.randrange(300)])
    if big and r.random() < .2:
        n = r.randrange(1000, 90000)
    if t == STRING:
        v = bytes(r.randrange(1, 256) for _ in range(n)) if r.random() < .3 else bytes(r.randrange(32, 127) for _ in range(n))
        return esc(r, v), v
    if t == CARRAY:
        v = bytes(r.randrange(256) for _ in range(n))
        return esc(r, v), v
    txt, occ = buffer(r, tab, r.choice([0, 1, 2, 5]), depth + 1, False)
    # one tab of indentation per level, the nested buffer ends with an empty line
    return "\n" + txt, canon(tab, occ)


def buffer(r, tab, n, depth, big):
    txt, occ = "", []
    types = [t for t in TN if t != FML32 or depth < 2]
    for _ in range(n):
        t = r.choice(types)
        name = r.choice(tab.free[t])
        v, b = value(r, tab, t, depth, big)
        txt += "\t" * depth + name + "\t" + v + "\n"
        occ.append((name, b))
    return txt, occ


def canon(tab, occ):
    """What the service records: ids in order, occurrences of one field in the order of the text."""
    s = ""
    for name, b in sorted(occ, key=lambda o: tab.id[o[0]]):
        s += "%d:%s;" % (tab.id[name], "{%s}" % b if tab.type[name] == FML32 else b.hex())
    return s


def parse_printed(tab, lines, depth=0):
    """Lines of the printed form -> (the same canonical text, rest)."""
    occ = []
    while lines:
        l = lines[0]
        if l == "":
            lines.pop(0)
            return canon(tab, occ), True
        if not l.startswith("\t" * depth):
            return "?" + l, False
        lines.pop(0)
        name, sep, v = l[depth:].partition("\t")
        if not sep or name not in tab.id:
            return "?" + l, False
        t = tab.type[name]
        if t == FML32:
            if v != "":
                return "?" + l, False
            b, ok = parse_printed(tab, lines, depth + 1)
            if not ok:
                return b, False
        else:
            try:
                raw = re.sub(rb"\\([0-9a-fA-F]{2})", lambda m: bytes([int(m.group(1), 16)]), v.encode("latin-1"))
                b = raw if t in (CHAR, STRING, CARRAY) else struct.pack({SHORT: "<h", LONG: "<q", FLOAT: "<f", DOUBLE: "<d"}[t],
                                                                        float(v) if t in (FLOAT, DOUBLE) else int(v))
            except (ValueError, struct.error):
                return "?" + l, False
        occ.append((name, b))
    return "?end", False


def domain(spec, r):
    rm = os.path.join(spec["dir"], "rm")
    os.makedirs(rm)
    fd = os.path.join(spec["dir"], "fields")
    tab = Table(r, fd)
    dirs, tabs = [fd, os.path.join(fx.REPO, "include")], ["udtab", "tpadm"]
    if r.random() < .5:
        dirs.reverse()
    if r.random() < .5:
        tabs.reverse()
    env = {"USYS_RM": rm, "FLDTBLDIR32": ":".join(dirs), "FIELDTBLS32": ",".join(tabs)}
    servers = [("utms", "G1", 100, "MIN=2"), ("udsrv", "G1", 10, "MIN=%d" % (1 + r.randrange(2)) + r.choice([" RQADDR=udq", ""])),
               ("TMS", "GN", 190, ""), ("sa", "GN", 20, "MIN=2 MAX=4" + r.choice([" RQADDR=a_queue_with_a_long_name", ""]))]
    d = dom.Domain(spec, groups=[("G1", 10, 'OPENINFO="USYS:rm1" CLOSEINFO="USYS:rm1"'), ("GN", 90, "")], servers=servers, env=env,
                   tab={"sa": ["S1"]}, ubb_resources="MAXACCESSERS 150\n", idle=True)
    if not d.load():
        return None, None
    d.boot()
    return d, tab


def requests(spec, nthreads=3, n=14, big=False, **kw):
    r = dom.random.Random(spec["seed"] * 11 + 3)
    d, tab = domain(spec, r)
    if d is None:
        return
    runs, lock = [], threading.Lock()

    def one(q, k):
        key = (q.randrange(1 << 20) << 20) | k
        kind = q.choice(["ok"] * 8 + ["fail"] * 3 + ["none", "failnone", "text", "nosvc", "noname", "badfield", "notab", "badhex", "mib"])
        opts = []
        if q.random() < .2:
            opts.append("-p")
        noreply = kind in ("ok", "nosvc") and q.random() < .2
        tran = not noreply and kind != "mib" and q.random() < .35
        if noreply:
            opts.append("-r")
        if tran:
            opts += ["-t", str(q.choice([30, 60, 1000]))]
        q.shuffle(opts) if "-t" not in opts else None
        svc = q.choice(["UDA", "UDB", "A_SERVICE_OF_15"])
        if kind == "nosvc":
            svc = q.choice(["NOWHERE", "UD", "UDAA", "uda"])
        if kind == "mib":
            svc = ".TMIB"
        txt, occ = buffer(q, tab, q.choice([0, 1, 3, 10, q.randrange(60)]), 0, big)
        act = {"ok": q.choice(["same", "same", "less", "more:%d" % q.choice([10, 700, 5000, 60000])]), "none": "none", "text": "text:%d" % q.choice([0, 5, 3000]),
               "fail": "fail " + q.choice(["same", "less", "more:4000"]), "failnone": "fail none"}.get(kind, "same")
        if kind == "mib":
            txt, occ = "TA_CLASS\tT_QUEUE\nTA_OPERATION\tGET\n", []
        lines = [x for x in re.split(r"(?<=\n)(?=[A-Z])", txt) if x]
        extra = ["SRVCNM\t%s\n" % svc]
        occ2 = [("SRVCNM", svc.encode())]
        if kind != "mib":
            extra += ["U_KEY\t%d\n" % key, "U_DO\t%s\n" % act]
            occ2 += [("U_KEY", struct.pack("<q", key)), ("U_DO", act.encode())]
        if kind == "noname":
            extra, occ2 = extra[1:], occ2[1:]
        for e in extra:
            lines.insert(q.randrange(len(lines) + 1), e)
        if kind == "badfield":
            lines.insert(q.randrange(len(lines) + 1), "U_NO_SUCH_FIELD\t5\n")
        if kind == "notab":
            lines.insert(q.randrange(len(lines) + 1), q.choice(["U_STRING value\n", "U_LONG\n", "U_KEY=5\n"]))
        if kind == "badhex":
            lines.insert(q.randrange(len(lines) + 1), "U_STRING\tab\\4g\n")
        text = "".join(lines) + "\n"
        f = os.path.join(d.dir, "run", "in-%d" % key)
        open(f, "w", encoding="latin-1").write(text)
        p = d.spawn("ud32", [d.exes["ud32"]] + opts, stdin=f)
        if not d.wait(p, 60):
            d.kill(p.pid)
            dom.V("ud32-hangs", "ud32 %s did not end in 60 s for\n%s" % (opts, text[:1500]))
            return
        rc = os.waitstatus_to_exitcode(p.status)
        out = open(p.out + ".out", encoding="latin-1", newline="\n").read()
        err = open(p.out + ".err", errors="replace").read()
        with lock:
            runs.append(dict(key=key, kind=kind, opts=opts, noreply=noreply, tran=tran, svc=svc, act=act, want=canon(tab, occ + occ2),
                             text=text, rc=rc, out=out, err=err))

    def lane(i):
        q = dom.random.Random(spec["seed"] * 1000 + i)
        for k in range(n):
            one(q, i * 1000 + k)

    th = [threading.Thread(target=lane, args=(i,)) for i in range(nthreads)]
    for t in th:
        t.start()
    for t in th:
        t.join()
    # requests nobody waits for
    need = {str(x["key"]) for x in runs if x["noreply"] and x["kind"] == "ok"}
    end = time.time() + 15
    while time.time() < end:
        txt = "\n".join(d.lines())
        keyhex = {k: struct.pack("<q", int(k)).hex() for k in need}
        if all(h in txt for h in keyhex.values()):
            break
        time.sleep(.05)
    queue_lines(d)
    d.shutdown()
    judge(d, tab, runs)
    d.finish()


def queue_lines(d):
    """tmadmin's printqueue against the configuration."""
    want = {".BBL": ("BBL", 1)}
    for name, g, i, par in d.servers:
        gno = dict((x[0], x[1]) for x in d.groups)[g]
        m = re.search(r"RQADDR=(\S+)", par)
        mx = re.search(r"MAX=(\d+)", par) or re.search(r"MIN=(\d+)", par)
        for j in range(int(mx.group(1)) if mx else 1):
            a = m.group(1) if m else "%d.%d" % (gno, i + j)
            want[a] = (name, want.get(a, (name, 0))[1] + 1)
    q = d.rnd
    cmds = [q.choice(["pq", "printqueue"])] + [q.choice(["pq", "printqueue", "help", "h", "", "nonsense", "pq pq pq"]) for _ in range(q.randrange(4))]
    f = os.path.join(d.dir, "run", "admin-in")
    open(f, "w").write("\n".join(cmds) + q.choice(["\n", ""]))
    rc, out = d.run("tmadmin", [], stdin=f)
    if rc != 0:
        dom.V("tmadmin-ends-%s" % rc, "tmadmin given %s ended with %s: %s" % (cmds, rc, out))
        return
    # a table per command: lines below the one of dashes up to the next prompt
    tables, cur = [], None
    for l in out.split("\n"):
        if l.startswith("---") or l.startswith("> ---"):
            cur = []
            tables.append(cur)
        elif l.startswith(">"):
            cur = None
        elif cur is not None and l.strip():
            cur.append(l.split())
    k = sum(1 for c in cmds if c in ("pq", "printqueue"))
    if len(tables) < k:
        dom.V("printqueue-missing", "tmadmin given %s printed %d tables: %s" % (cmds, len(tables), out))
    for t in tables[:k]:
        got = {}
        for row in t:
            if len(row) < 6 or not row[2].isdigit():
                dom.V("printqueue-row", "tmadmin prints %s" % row)
                continue
            if row[1] in got:
                dom.V("printqueue-twice", "queue %s twice: %s" % (row[1], out))
            got[row[1]] = (row[0], int(row[2]))
            if row[3:5] != ["0", "0"]:
                dom.V("printqueue-queued", "nothing is queued, tmadmin prints %s" % row)
        if got != want:
            dom.V("printqueue-wrong", "tmadmin prints %s, there are %s" % (got, want))
        dom.C("queue_tables")


def judge(d, tab, runs):
    seen, reply, ends = {}, {}, {}
    for l in d.lines():
        m = re.match(r"\d+ U svc=(\S+) srv=(\d+) tran=(\d) noreply=(\d) xid=(\S*) x=(.*)", l)
        if m:
            keyf = re.search(r"(?:^|;)%d:([0-9a-f]{16});" % tab.id["U_KEY"], m.group(6))
            k = struct.unpack("<q", bytes.fromhex(keyf.group(1)))[0] if keyf else None
            seen.setdefault(k, []).append(m.groups())
            continue
        m = re.match(r"\d+ P key=(\d+) (.*)", l)
        if m:
            reply[int(m.group(1))] = m.group(2)
            continue
        m = re.match(r"\d+ Q rm=\d+ op=(commit|rollback|prepare) x=(\S+) rc=(-?\d+)", l)
        if m:
            ends.setdefault(m.group(2), []).append((m.group(1), int(m.group(3))))
        m = re.match(r"\d+ V (.*)", l)
        if m:
            dom.V("service-says", m.group(1))
    for x in runs:
        what = "ud32 %s [%s, %s %s]" % (" ".join(x["opts"]), x["kind"], x["svc"], x["act"])
        def bad(key, detail):
            dom.V("ud32-" + key, "%s: %s\ninput:\n%s\nstdout:\n%s\nstderr:\n%s" % (what, detail, x["text"][:1200], x["out"][:1200], x["err"][:600]))
        kind, u = x["kind"], seen.get(x["key"], [])
        dom.C("runs")
        dom.C("runs_" + kind)
        dom.D("run", "%s/%s/%s" % (kind, "".join(x["opts"][::1])[:6], x["act"][:6]))
        if x["rc"] < 0 or x["rc"] in (98, 66):
            bad("dies", "ended with %d" % x["rc"])
            continue
        if kind in ("noname", "badfield", "notab", "badhex"):
            if u:
                bad("sends-unreadable", "sent %s" % (u,))
            if x["rc"] == 0 or not x["err"].strip():
                bad("does-not-report", "ends with %d without a word" % x["rc"])
            dom.C("refusals")
            continue
        lines = x["out"].split("\n")
        blocks = []
        ok = True
        while lines and lines != [""]:
            c, ok = parse_printed(tab, lines) if kind != "mib" else ("", bool(lines.pop(0)) or True)
            if kind == "mib":
                continue
            blocks.append(c)
            if not ok:
                bad("output-form", "cannot be read: %s" % c[:200])
                break
        if not ok:
            continue
        if kind == "mib":
            # an answer of the domain's own service: one occurrence per queue
            n = len(re.findall(r"^TA_RQADDR\t", x["out"], re.M))
            m = re.search(r"^TA_OCCURS\t(\d+)$", x["out"], re.M)
            if "-p" in x["opts"]:
                if x["out"]:
                    bad("prints", "prints in spite of -p")
            elif x["rc"] != 0 or m is None or int(m.group(1)) != n or n < 4:
                bad("tmib", "answer of .TMIB: %d queues, TA_OCCURS %s" % (n, m and m.group(1)))
            continue
        want = [x["want"]]
        sent = kind != "nosvc"
        failed = kind in ("fail", "failnone", "nosvc")
        if sent:
            if len(u) != 1:
                bad("requests", "%d requests arrived" % len(u))
                continue
            svc, srv, tran, nr, xid, got = u[0]
            if svc != x["svc"]:
                bad("service", "went to %s" % svc)
            if got != x["want"]:
                bad("request-content", "service received\n%s\nwanted\n%s" % (got[:1500], x["want"][:1500]))
            if int(tran) != x["tran"]:
                bad("transaction", "the service was called %s transaction" % ("in a" if int(tran) else "in no"))
            if int(nr) != x["noreply"]:
                bad("noreply", "TPNOREPLY is %s at the service" % nr)
            r = reply.get(x["key"], "")
            if r.startswith("x=") and not x["noreply"]:
                want.append(r[2:])
            if x["tran"] and xid:
                e = ends.get(xid, [])
                c = [o for o, rc in e if o == "commit" and rc == 0]
                rb = [o for o, rc in e if o == "rollback"]
                if failed and (c or not rb):
                    bad("failed-not-rolled-back", "the call failed, the resource manager saw %s" % e)
                if not failed and (rb or len(c) != 1):
                    bad("not-committed", "the call succeeded, the resource manager saw %s" % e)
                dom.C("transactions")
        elif u:
            bad("requests", "service %s does not exist, %s was called" % (x["svc"], u))
        if "-p" in x["opts"]:
            want = []
        if kind == "text":
            # the reply is not a fielded buffer; nothing is promised about its printing
            blocks, want = blocks[:1], want[:1]
        if blocks != want:
            i = next((j for j in range(max(len(blocks), len(want))) if blocks[j:j + 1] != want[j:j + 1]), 0)
            bad("printed-%s" % ("request" if i == 0 else "reply" if i == 1 else "more"),
                "%d buffers printed, %d wanted; number %d is\n%s\nwanted\n%s" % (len(blocks), len(want), i, str(blocks[i:i + 1])[:1000], str(want[i:i + 1])[:1000]))
        if failed and "failed" not in x["err"] and not x["err"].strip():
            bad("does-not-report", "the call failed and nothing was said")
        if not failed and (x["err"].strip() or x["rc"] != 0):
            bad("complains", "a call that succeeded ends with %d and %s" % (x["rc"], x["err"]))
        dom.C("compared")
        dom.C("bytes_compared", len(x["want"]) // 2)


def run(ctx):
    ctx.rule = ("one evaluation = one run of ud32 in a running domain (its input generated, what the service received, what was printed and what became of its "
                "transaction compared with it) or one table of tmadmin's printqueue compared with the domain")
    ctx.assumptions = ["the reply of a service that answers with something else than a fielded buffer is only required not to crash ud32",
                       "the exit status of ud32 after a call that failed is left open, that it is reported on standard error is not"]
    H = os.path.join(fx.VERIF, "harness")
    exes = dom.build(ctx, extra=[("udsrv", {"src": [os.path.join(H, "udsrv.cpp"), os.path.join(H, "xalog.cpp")], "cflags": ["-DUSYS_XA"]})], xa=True)
    k = ctx.n(10, 80)
    todo = [("requests", dict(nthreads=[3, 1, 5][i % 3], n=[16, 30, 12][i % 3], big=i % 4 == 0)) for i in range(k)]
    dom.scenarios(ctx, exes, "c22", todo, parallel=5, wall=ctx.n(300, 800))
    c = ctx.cov
    ctx.cov["evaluations"] = c.get("runs", 0) + c.get("queue_tables", 0)
    ctx.cov["distinct_nontrivial"] = len(ctx.sets.get("run", ()))
    for what, name, least in (("runs of ud32", "runs", 20), ("requests compared", "compared", 10), ("transactions", "transactions", 2),
                              ("texts refused", "refusals", 2), ("tables of queues", "queue_tables", 1)):
        ctx.need(what, c.get(name, 0), k * least)
