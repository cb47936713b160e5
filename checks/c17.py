"""C17: configurations.  A random configuration is written with random layout; the
model of what it means is kept aside and compared with what tmunloadcf gives back
(read by a parser of this file) and with the tables of a domain started from it."""
import concurrent.futures as cf
import os, random, re, shutil, stat, subprocess
import fx

UNS = ["unshare", "-Ur", "-i"]


def run1(cmd, env=None, cwd=None, timeout=60):
    e = dict(os.environ)
    e.update(fx.SANENV)
    e.update(env or {})
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=e, cwd=cwd, timeout=timeout)
    return p.returncode, p.stdout.decode("latin-1"), p.stderr.decode("latin-1")


# ---- an independent reader of the text form
def parse(text):
    sections, sec, obj = [], None, None
    toks = []
    for line in text.split("\n"):
        indented = line[:1] in " \t" and line[:1] != ""
        words = []
        i = 0
        while i < len(line):
            c = line[i]
            if c in " \t\r\f\v":
                i += 1
            elif c == "#":
                break
            elif c == '"':
                j = line.index('"', i + 1)
                words.append(("w", line[i + 1:j]))
                i = j + 1
            elif c == "=":
                words.append(("=", "="))
                i += 1
            else:
                m = re.match(r"[^\s#=]+", line[i:])
                words.append(("w", m.group(0)))
                i += m.end()
        if words:
            toks.append((indented, words))
    out = {"RESOURCES": {}, "MACHINES": [], "GROUPS": [], "SERVERS": []}
    cur = None
    for indented, w in toks:
        if w[0][1].startswith("*") and not indented:
            sec = w[0][1][1:]
            cur = None
            continue
        if sec == "RESOURCES":
            out[sec][w[0][1]] = w[1][1]
            continue
        if not (indented and cur is not None):
            cur = (w[0][1], {})
            out.setdefault(sec, []).append(cur)
            w = w[1:]
        for k in range(0, len(w), 3):
            cur[1].setdefault(w[k][1], w[k + 2][1])
    return out


class Gen:
    def __init__(self, r, d):
        self.r, self.d = r, d
        self.site = "site" if r.random() < .9 else self.full(29)

    def word(self, n=12):
        r = self.r
        return r.choice("abcXYZ") + "".join(r.choice("abcXYZ019_.-/") for _ in range(r.randrange(n)))

    def full(self, n):
        """As long as the value may be (or nearly)."""
        r = self.r
        return "z" + "".join(r.choice("abcXYZ019_./-") for _ in range(n - 1 - r.choice([0, 0, 1, 2])))

    def text(self, n=40, most=0):
        r = self.r
        if most and r.random() < .06:
            return self.full(most)
        return "".join(r.choice("abcXYZ 019_.-/:,$@#*='\\%") for _ in range(r.randrange(n)))

    def model(self):
        r = self.r
        c = {"RESOURCES": {}, "MACHINES": [], "GROUPS": [], "SERVERS": []}
        R = c["RESOURCES"]
        R["IPCKEY"] = str(r.choice([r.randrange(1, 32767), r.randrange(32768, 262143), 1]))
        nsrv = r.choice([0, 1, 2, 5, 12])
        ngrp = r.choice([1, 1, 2, 4]) if nsrv else r.choice([0, 1, 3])
        tms = 0
        for g in range(ngrp):
            no = r.choice([g + 1, 100 * (g + 1), 30000 - g])
            if c["GROUPS"] and r.random() < .4:
                # close to another one in its bits or digits
                other = int(r.choice(c["GROUPS"])[1]["GRPNO"])
                no = other + r.choice([256, 1024, 4096, 16384, 10 * other, 9 * other, 128, 512, 1, 10])
            while not 1 <= no <= 30000 or str(no) in [q["GRPNO"] for _, q in c["GROUPS"]]:
                no = r.randrange(1, 30001)
            p = {"GRPNO": str(no)}
            name = "G%d%s" % (g, self.word(8) if r.random() < .9 else self.full(27))
            if r.random() < .4:
                p["OPENINFO"] = self.text(40, 255)
            if r.random() < .3:
                p["CLOSEINFO"] = self.text(40, 255)
            if r.random() < .3:
                p["TMSNAME"] = self.word() if r.random() < .95 else self.full(78)
                if r.random() < .6:
                    p["TMSCOUNT"] = str(r.randrange(2, 11))
                tms += int(p.get("TMSCOUNT", 3))
            if r.random() < .3:
                p["LMID"] = self.site
            c["GROUPS"].append((name, p))
        total = 1 + tms
        queues = 1 + sum(1 for _, p in c["GROUPS"] if p.get("TMSNAME"))
        used = {}
        rq = {}
        for s in range(nsrv):
            g, gp = r.choice(c["GROUPS"])
            mn = r.choice([None, 1, 2, 3])
            mx = r.choice([None, 1, 2, 5])
            if mx is not None and mn is not None and mx < mn:
                mx = mn
            cnt = mx if mx is not None else (mn or 1)
            base = used.get(g, 1) + r.choice([0, 0, 3, 100])
            used[g] = base + cnt
            p = {"SRVGRP": g, "SRVID": str(base)}
            if mn is not None:
                p["MIN"] = str(mn)
            if mx is not None:
                p["MAX"] = str(mx)
            if r.random() < .6:
                p["CLOPT"] = self.text(60, 1020)
            if r.random() < .4:
                p["MINDISPATCHTHREADS"] = str(r.choice([1, 2, 9]))
            if r.random() < .4:
                p["MAXDISPATCHTHREADS"] = str(r.choice([1, 9, 1000]))
            if r.random() < .3:
                p["RQADDR"] = r.choice(list(rq)) if rq and r.random() < .5 else "rq" + (self.word(10) if r.random() < .9 else self.full(28))
                rq[p["RQADDR"]] = 1
            else:
                queues += cnt
            total += cnt
            c["SERVERS"].append((self.word() if r.random() < .95 else self.full(78), p))
        queues += len(rq)
        for k, need, hi, dflt in (("MAXSERVERS", total, 8192, 50), ("MAXQUEUES", queues, 8192, 50), ("MAXGROUPS", max(ngrp, 1), 32768, 100),
                                  ("MAXSERVICES", 1, 1048575, 100), ("MAXACCESSERS", 1, 32768, 50)):
            if need > dflt or r.random() < .5:
                R[k] = str(r.choice([need, need + 1, need + r.randrange(100)]))
                if k in ("MAXSERVICES", "MAXACCESSERS") and r.random() < .2:
                    R[k] = str(r.choice([32768, 1000] if k == "MAXACCESSERS" else [65535, 70000, 1000]))
        if int(R.get("MAXSERVICES", 0)) > 60000 and int(R.get("MAXSERVERS", 50)) > 60:
            R["MAXSERVICES"] = "1000"
        if r.random() < .5:
            R["BLOCKTIME"] = str(r.randrange(1, 200))
        if r.random() < .6:
            R["SCANUNIT"] = r.choice(["1", "5", "10", "60", "500MS", "20ms", "100Ms", "1000MS"])
        for k in ("MASTER", "MODEL", "LDBAL", "X1"):
            if r.random() < .3:
                R[k] = self.word()
        m = {"LMID": self.site, "TUXCONFIG": self.d + "/tuxconfig", "TUXDIR": self.d, "APPDIR": self.text(30, 255)}
        if r.random() < .3:
            m["ULOGPFX"] = self.text(30, 255)
        if r.random() < .2:
            m["TLOGDEVICE"] = self.d
        c["MACHINES"].append((self.word(20) if r.random() < .9 else self.full(30), m))
        return c

    def quote(self, s, key=False):
        r = self.r
        plain = re.match(r"[^\s#=\"*][^\s#=\"]*$", s) and not (s and s[0] in '"*')
        if plain and r.random() < .6:
            return s
        return '"' + s + '"'

    def eol(self):
        r = self.r
        return r.choice(["", "", "", " ", "\t ", " # c", "\t# a=b \"x", " #"]) + "\n"

    def render(self, c):
        """text, line of every object"""
        r = self.r
        out = []
        order = ["RESOURCES", "MACHINES", "GROUPS", "SERVERS"]
        if r.random() < .2:
            r.shuffle(order)

        def junk():
            while r.random() < .25:
                out.append(r.choice(["\n", "# comment\n", "  \t\n", "   # x *SERVERS\n", "#\n"]))
        ws = lambda: r.choice([" ", "\t", "  ", " \t"])
        ows = lambda: r.choice(["", "", " ", "\t"])
        for s in order:
            junk()
            if s != "RESOURCES" and not c[s] and r.random() < .5:
                continue
            out.append("*" + s + self.eol())
            if s == "RESOURCES":
                items = list(c[s].items())
                r.shuffle(items)
                for k, v in items:
                    junk()
                    out.append(ows() + k + ws() + self.quote(v) + self.eol())
                continue
            for name, p in c[s]:
                junk()
                line = self.quote(name)
                items = list(p.items())
                r.shuffle(items)
                first = True
                for k, v in items:
                    if r.random() < .3:
                        line += self.eol()
                        while r.random() < .2:
                            line += r.choice(["# between\n", "   # between\n"])
                        line += ws()
                    elif not first or line[-1] != '"' or r.random() < .9:
                        line += ws()
                    line += (k if r.random() < .9 else '"' + k + '"') + ows() + "=" + ows() + self.quote(v)
                    first = False
                out.append(line + self.eol())
        junk()
        t = "".join(out)
        return t[:-1] if r.random() < .1 and t.endswith("\n") else t


def expected(c):
    """What the configuration means."""
    R = c["RESOURCES"]
    d = {}
    d["ipckey"] = int(R["IPCKEY"])
    for k, dflt in (("MAXSERVERS", 50), ("MAXSERVICES", 100), ("MAXQUEUES", 50), ("MAXGROUPS", 100), ("MAXACCESSERS", 50)):
        d[k.lower()] = int(R.get(k, dflt))
    name, m = c["MACHINES"][0]
    su = R.get("SCANUNIT", "1000MS").lower()
    unit = int(su[:-2]) if su.endswith("ms") else int(su) * 1000
    mach = {"address": name, "lmid": m["LMID"], "tuxconfig": m["TUXCONFIG"], "tuxdir": m["TUXDIR"], "appdir": m["APPDIR"],
            "ulogpfx": m.get("ULOGPFX", ""), "tlogdevice": m.get("TLOGDEVICE", ""), "blocktime": int(R.get("BLOCKTIME", 15)) * unit}
    groups = {}
    servers = {("BBL", 0): None}
    for g, p in c["GROUPS"]:
        no = int(p["GRPNO"])
        groups[no] = {"srvgrp": g, "openinfo": p.get("OPENINFO", ""), "closeinfo": p.get("CLOSEINFO", ""), "tmsname": p.get("TMSNAME", "")}
        if p.get("TMSNAME"):
            for i in range(int(p.get("TMSCOUNT", 3))):
                servers[(no, 30001 + i)] = {"servername": p["TMSNAME"], "autostart": 1, "rqaddr": "%d.TM" % no}
    gno = {g: int(p["GRPNO"]) for g, p in c["GROUPS"]}
    for s, p in c["SERVERS"]:
        mn = int(p.get("MIN", 1))
        mx = int(p.get("MAX", mn))
        no = gno[p["SRVGRP"]]
        for i in range(mx):
            sid = int(p["SRVID"]) + i
            servers[(no, sid)] = {"servername": s, "clopt": p.get("CLOPT", ""), "autostart": int(i < mn),
                                  "minthreads": int(p.get("MINDISPATCHTHREADS", 1)), "maxthreads": int(p.get("MAXDISPATCHTHREADS", 1)),
                                  "rqaddr": p.get("RQADDR") or None}
    return d, mach, groups, servers


def damage(r, c, gen):
    """(text, what, line or None) of a configuration that no reading accepts."""
    import copy
    c = copy.deepcopy(c)
    k = r.randrange(18)
    line = None
    pick = lambda s: r.choice(c[s])[1] if c[s] else None

    def syntax(bad, what):
        # a line that has no meaning between two others, on its own line
        t = gen.render(c)
        ls = t.split("\n")
        # at the end, so that every line before is read without errors
        if not t.endswith("\n"):
            t += "\n"
        n = t.count("\n") + 1
        tail = r.choice(["", "*GROUPS\n", "# end\n"]) if "\n" not in bad else ""
        return t + bad + "\n" + tail, what, n
    if k == 0:
        return syntax("*", "section without name")
    if k == 1:
        return syntax("*GROUPS nonsense", "text after section")
    if k == 2:
        return syntax("*GROUPS\nGX GRPNO", "parameter without value")[:2] + (None,)
    if k == 3:
        t, w, n = syntax("*GROUPS\nGX GRPNO 77", "parameter without =")
        return t, w, n + 1
    if k == 4:
        t, w, n = syntax("*RESOURCES\nMASTER", "resource without value")
        return t, w, None
    if k == 5:
        t, w, n = syntax("*RESOURCES\nMASTER a b", "resource with two values")
        return t, w, n + 1
    if k == 6:
        return syntax("*SERVERS\nxx SRVGRP=\"G", "quote not closed")[:2] + (None,)
    R = c["RESOURCES"]
    if k == 7:
        del R["IPCKEY"]; what = "no IPCKEY"
    elif k == 8:
        R[r.choice(["MAXSERVERS", "MAXQUEUES", "MAXGROUPS", "MAXACCESSERS", "MAXSERVICES"])] = r.choice(["0", "-1", "1048576", "abc", "12x", "99999999999999999999"]); what = "maximum out of range"
    elif k == 9:
        R["IPCKEY"] = r.choice(["abc", "", "99999999999", "0x10"]); what = "IPCKEY not a number"
    elif k == 10:
        if r.random() < .5:
            c["MACHINES"].append(("other", {"LMID": "o", "TUXCONFIG": "x", "TUXDIR": "y", "APPDIR": "z"}))
        else:
            c["MACHINES"] = []
        what = "not one machine"
    elif k == 11:
        m = c["MACHINES"][0][1]
        x = r.choice(["LMID", "TUXCONFIG", "TUXDIR", "APPDIR"])
        if r.random() < .3:
            m["TUXCONFIG"] = m["TUXCONFIG"] + "x"
        else:
            del m[x]
        what = "machine parameter"
    elif k == 12 and c["GROUPS"]:
        p = pick("GROUPS")
        q = r.randrange(3)
        if q == 0:
            del p["GRPNO"]
        elif q == 1:
            p["GRPNO"] = r.choice(["0", "30001", "-5", "x", "7y"])
        else:
            n, g = r.choice(c["GROUPS"])
            c["GROUPS"].append(("other" if r.random() < .5 else n, {"GRPNO": g["GRPNO"] if r.random() < .5 else "29999"}))
            if c["GROUPS"][-1] == ("other", {"GRPNO": "29999"}):
                c["GROUPS"][-1] = ("other", {"GRPNO": g["GRPNO"]})
            if "MAXGROUPS" in c["RESOURCES"]:
                c["RESOURCES"]["MAXGROUPS"] = "200"
        what = "group number or name"
    elif k == 13 and c["SERVERS"]:
        p = pick("SERVERS")
        q = r.randrange(4)
        if q == 0:
            p["SRVGRP"] = "nogroup"
        elif q == 1:
            del p[r.choice(["SRVGRP", "SRVID"])]
        elif q == 2:
            p["SRVID"] = r.choice(["0", "30001", "x", "1z", "-1"])
        else:
            p["MIN"], p["MAX"] = r.choice([("5", "2"), ("0", "1"), ("1", "1001"), ("x", "2")])
        what = "server parameter"
    elif k == 14 and c["SERVERS"]:
        n, p = r.choice(c["SERVERS"])
        p2 = {"SRVGRP": p["SRVGRP"], "SRVID": p["SRVID"]}
        c["SERVERS"].append((n, p2)); what = "server twice"
        for x in ("MAXSERVERS", "MAXQUEUES"):
            c["RESOURCES"][x] = "500"
    elif k == 15 and len(c["SERVERS"]) > 0:
        R["MAXSERVERS"] = "1"; what = "more servers than MAXSERVERS"
    elif k == 16:
        n = 2000
        q = r.randrange(3)
        if q == 0 and c["GROUPS"]:
            pick("GROUPS")[r.choice(["OPENINFO", "CLOSEINFO", "TMSNAME"])] = gen.full(n)
        elif q == 1 and c["SERVERS"]:
            pick("SERVERS")[r.choice(["CLOPT", "RQADDR"])] = gen.full(n)
        else:
            c["MACHINES"][0][1][r.choice(["LMID", "APPDIR", "ULOGPFX", "TLOGDEVICE"])] = gen.full(n)
        what = "value too long"
    else:
        R["SCANUNIT"] = r.choice(["x", "MS", "10sec", "5 0"]); what = "SCANUNIT"
    return gen.render(c), what, line


def unq(s):
    return re.sub("%([0-9a-f]{2})", lambda m: chr(int(m.group(1), 16)), s)


def case(ctx, ex, n):
    r = random.Random("%d-%d-ubb" % (ctx.seed, n))
    d = os.path.join(ctx.scratch, "u%d" % n)
    os.makedirs(d)
    gen = Gen(r, d)
    c = gen.model()
    text = gen.render(c)
    ubb, tc = d + "/ubb", d + "/tuxconfig"
    env = {"TUXCONFIG": tc, "ULOGPFX": d + "/ULOG"}
    rep = "configuration:\n" + text
    info = {}

    def load(t, *opt):
        with open(ubb, "wb") as f:
            f.write(t.encode("latin-1"))
        rc, o, e = run1([ex["tmloadcf"], "-y", *opt, ubb], env=env, cwd=d)
        k = fx.san_key(o + e)
        if k:
            raise Bad("crash-tmloadcf-" + k, (o + e)[-2500:], "configuration:\n" + t)
        return rc, o + e

    old = None
    if r.random() < .5:
        # something is there already: an older configuration or no configuration at all
        old = os.urandom(r.choice([0, 10, 300]))
        open(tc, "wb").write(old)
    state = lambda: open(tc, "rb").read() if os.path.exists(tc) else None
    try:
        # -n never writes
        if r.random() < .3:
            rc, o = load(text, "-n")
            if rc != 0:
                raise Bad("valid-refused", "tmloadcf -n exit %d: %s" % (rc, o[-300:]), rep)
            if state() != old:
                raise Bad("syntax-check-wrote", "tmloadcf -n changed the configuration file", rep)
            info["n"] = 1
        # an invalid one changes nothing
        if r.random() < .5:
            t2, what, line = damage(r, c, gen)
            rc, o = load(t2, *(["-n"] if r.random() < .2 else []))
            if rc == 0:
                raise Bad("invalid-accepted-" + what.replace(" ", "-"), "tmloadcf exit 0 for a configuration with: " + what, "configuration:\n" + t2)
            if state() != old:
                raise Bad("invalid-wrote", "a refused configuration (%s) changed the configuration file" % what, "configuration:\n" + t2)
            if line is not None and str(line) not in re.findall(r"\d+", o):
                raise Bad("error-position", "error in line %d (%s), message: %s" % (line, what, o[-200:]), "configuration:\n" + t2)
            if not o.strip():
                raise Bad("error-message", "no message for: " + what, "configuration:\n" + t2)
            info["damage"] = what
        rc, o = load(text)
        if rc != 0:
            raise Bad("valid-refused", "tmloadcf exit %d: %s" % (rc, o[-300:]), rep)
        # the text comes back
        if r.random() < .5:
            os.unlink(ubb)
        rc, o, e = run1([ex["tmunloadcf"]], env=env, cwd=d)
        k = fx.san_key(e)
        if k or rc != 0:
            raise Bad("crash-tmunloadcf-%s" % k if k else "unload-failed", "exit %d %s" % (rc, e[-1500:]), rep)
        p = parse(o)
        norm = lambda x: {s: (x[s] if s == "RESOURCES" else sorted((a, sorted(b.items())) for a, b in x[s])) for s in ("RESOURCES", "MACHINES", "GROUPS", "SERVERS")}
        if norm(p) != norm(c):
            a, b = norm(p), norm(c)
            bad = [s for s in a if a[s] != b[s]]
            raise Bad("unload-differs", "section %s: %s instead of %s" % (bad[0], str(a[bad[0]])[:400], str(b[bad[0]])[:400]), rep)
        # and loads again to the same
        rc, o2 = load(o)
        if rc != 0:
            raise Bad("unloaded-refused", "tmloadcf of tmunloadcf's output: " + o2[-300:], rep)
        # the domain
        rc, o, e = run1(UNS + [ex["mibdump"]], env=env, cwd=d)
        k = fx.san_key(e)
        if k or not o.rstrip().endswith("end"):
            raise Bad("domain-start-%s" % (k or "failed"), (o + e)[-1500:], rep)
        D, M, G, S = expected(c)
        rows = {"domain": [], "machine": [], "group": [], "server": []}
        for l in o.splitlines():
            f = l.split("|")
            if f[0] in rows:
                rows[f[0]].append({x.split("=", 1)[0]: unq(x.split("=", 1)[1]) for x in f[1:] if x})
        dom, mach = rows["domain"][0], rows["machine"][0]
        for k, v in D.items():
            if int(dom[k]) != v:
                raise Bad("domain-" + k, "%s is %s instead of %d" % (k, dom[k], v), rep)
            if k.startswith("max") and int(dom["cap_" + k[3:]]) != v:
                raise Bad("capacity-" + k, "room for %s instead of %d" % (dom["cap_" + k[3:]], v), rep)
        for k, v in M.items():
            if mach[k] != str(v):
                raise Bad("machine-" + k, "%s is %r instead of %r" % (k, mach[k], v), rep)
        got = {int(x["grpno"]): x for x in rows["group"]}
        if len(got) != len(rows["group"]) or set(got) != set(G):
            raise Bad("groups", "groups %s instead of %s" % ([x["grpno"] for x in rows["group"]], sorted(G)), rep)
        for no, x in G.items():
            for k, v in x.items():
                if got[no][k] != v:
                    raise Bad("group-" + k, "group %d: %s is %r instead of %r" % (no, k, got[no][k], v), rep)
        seen = {}
        for x in rows["server"]:
            key = ("BBL", 0) if x["servername"] == "BBL" and x["grpno"] == "0" else (int(x["grpno"]), int(x["srvid"]))
            if key in seen:
                raise Bad("server-twice", str(key), rep)
            seen[key] = x
        if set(seen) != set(S):
            raise Bad("servers", "servers missing %s, extra %s" % (sorted(map(str, set(S) - set(seen)))[:5], sorted(map(str, set(seen) - set(S)))[:5]), rep)
        cnt, own = {}, {}
        for key, x in seen.items():
            cnt[x["rqaddr"]] = cnt.get(x["rqaddr"], 0) + 1
        for key, x in S.items():
            if x is None:
                continue
            for k, v in x.items():
                if k == "rqaddr" and v is None:
                    if cnt[seen[key][k]] != 1:
                        raise Bad("server-rqaddr", "server %s shares queue %s" % (key, seen[key][k]), rep)
                elif seen[key][k] != str(v):
                    raise Bad("server-" + k, "server %s: %s is %r instead of %r" % (key, k, seen[key][k], v), rep)
        for key, x in seen.items():
            if int(x["queue_servers"]) != cnt[x["rqaddr"]]:
                raise Bad("queue-servers", "queue %s counts %s servers instead of %d" % (x["rqaddr"], x["queue_servers"], cnt[x["rqaddr"]]), rep)
        info["shape"] = "%d-%d-%d" % (len(G), len(c["SERVERS"]), len(S))
        info["objects"] = len(G) + len(S) + 2
        # a configuration that cannot be written is reported
        if r.random() < .1:
            os.unlink(tc)
            os.symlink("/dev/full", tc)
            rc, o = load(text)
            if rc == 0:
                raise Bad("write-failure-unnoticed", "exit 0 although nothing could be written", rep)
            info["full"] = 1
    except Bad as b:
        return b, info
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return None, info


class Bad(Exception):
    def __init__(self, key, detail, rep):
        self.a = (key, detail, rep)


def run(ctx):
    ctx.rule = ("one evaluation = one random configuration in random layout: loaded, unloaded and read back, loaded again, and a domain started from it whose tables are "
                "compared with the model; half the cases first try a damaged variant over an existing file")
    ctx.assumptions = ["values fit the fixed sizes of the tables", "MIN, MAX, MAXSERVERS etc. have the defaults of the documented configuration file"]
    b = fx.Build("asan")
    ex = b.build({"tmloadcf": {"src": b.prog_sources("tmloadcf")}, "tmunloadcf": {"src": b.prog_sources("tmunloadcf")},
                  "mibdump": {"src": [os.path.join(fx.VERIF, "harness/mibdump.cpp")]}})
    global UNS
    if run1(UNS + ["true"])[0] != 0:
        UNS = []
    n = ctx.n(1200, 20000)
    with cf.ThreadPoolExecutor(fx.NCPU) as pool:
        for bad, info in pool.map(lambda i: case(ctx, ex, i), range(n)):
            ctx.count("evaluations")
            if bad:
                ctx.violation(*bad.a)
            for k in ("n", "full"):
                ctx.count("syntax_checks" if k == "n" else "write_failures", info.get(k, 0))
            ctx.count("objects_compared", info.get("objects", 0))
            if "damage" in info:
                ctx.count("refused")
                ctx.distinct("damage", info["damage"])
            if "shape" in info:
                ctx.distinct("shape", info["shape"])
    ctx.cov["distinct_nontrivial"] = len(ctx.sets.get("shape", ())) + len(ctx.sets.get("damage", ()))
    ctx.sample("groups-servers lines-servers shapes: " + ", ".join(sorted(ctx.sets.get("shape", ()))[:20]))
    ctx.need("objects compared", ctx.cov.get("objects_compared", 0), n * 3)
    ctx.need("refused configurations", ctx.cov.get("refused", 0), n // 4)
    ctx.need("kinds of damage", len(ctx.sets.get("damage", ())), 12)
