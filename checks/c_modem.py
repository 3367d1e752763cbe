"""C12-C17: the modem against spec/Modem.tla.  Runs of the real Modem class under a controlled scheduler are
validated by TLC as behaviours of the specification (spec/TraceModem.tla)."""
import json, os, re
import gen, vf

CFG = "CONSTANTS ALP_MAX = 3 T_LOG = 4 T_REBOOT = 5\n"
INV = "INVARIANTS OneDestination InOrder Lists NoCallbackBeforeConnect Results NothingLeft NoneMissing\n"


class Scn:
    """building blocks of scenarios"""
    def __init__(self, c):
        self.c, self.r = c, c.rng
        self.A = gen.Alp(c.layouts(), c.rng, maxdata=10, maxlen=4000)
        self.n = 0

    def cmd(self, tag, n=None):
        r = self.r
        for _ in range(50):
            c = self.A.cmd(ops=[1, 1, 4, 9, 17] if n != 0 else None, n=r.choice([0, 1, 1, 2]) if n is None else n, status=False, tag="none")
            c.update(tag=[tag], kind="req", send=1)
            if len(self.A.octets(c)) < 250: return c
        return {"tag": [tag], "kind": "req", "send": 1, "done": 0, "err": 0, "status": [], "actions": []}

    def exec(self, tag, to=10000, **kw):
        o = {"k": "exec", "cmd": self.cmd(tag, 0 if self.r.random() < 0.6 else None), "to": to}
        if to and self.r.random() < 0.3: o["how"] = "pos"
        if to == 10000 and self.r.random() < 0.3: o["how"] = "default"
        if to == 0 and self.r.random() < 0.5: o["how"] = "async"
        o.update(kw)
        return o

    def frame(self, p, typ=1):
        self.n += 1
        return gen.frame(p, typ, self.n % 256)

    def payload(self, head):
        """a tag response (or nothing) and some actions"""
        r = self.r
        if r.random() < 0.6: return head
        for _ in range(30):
            c = self.A.cmd(ops=[1, 32, 32, 33], n=r.choice([1, 1, 2]), tag="none", status=r.random() < 0.3)
            p = self.A.octets(c)
            if len(p) < 250: return head + p if r.random() < 0.8 else p + head
        return head

    def resp(self, tag, done, e=0): return self.frame(self.payload([35 + 128 * done + 64 * e, tag]), self.r.choice([1, 1, 1, 1, 1, 2, 3]))
    def other(self, tags=()):
        """a message that belongs to nobody waiting: another tag, no tag, log, reboot, unknown type, noise"""
        r = self.r
        x = r.randrange(9)
        if x < 3:
            t = r.choice([t for t in (0, 1, 2, 3, 4, 99, 254, 255, r.randrange(256)) if t not in tags])
            return self.resp(t, r.randint(0, 1), r.randint(0, 1))
        if x == 3: return self.frame(self.payload([]))
        if x == 4: return self.frame([r.randrange(256)], 5)
        if x == 5: return self.frame([r.choice([0xC0, 0, 65, 66, 255]) for _ in range(r.randint(0, 6))], 4)
        if x == 6: return self.frame([35 + 128 * r.randint(0, 1), r.randrange(256)], r.choice([6, 7, 200, 255]))
        if x == 7: return self.frame(self.payload([52 + 128 * r.randint(0, 1), r.randrange(256)]))
        return [r.choice([0xC0, 0, 1, 5, 255]) for _ in range(r.randint(1, 6))]

    def bad(self, tags):
        """damaged or undecodable frames"""
        r = self.r
        f = self.resp(r.choice(list(tags) or [1]), r.randint(0, 1))
        x = r.randrange(5)
        if x == 0: f[r.randrange(len(f))] ^= 1 << r.randrange(8); return f
        if x == 1: return f[:r.randrange(1, len(f))]
        if x == 2: return self.frame([r.randrange(256) for _ in range(r.randint(0, 5))], r.choice([1, 1, 2, 5]))
        if x == 3: return self.frame([32, 64, 0, 9, 1, 2])
        return self.frame([])


def rx(octets, **g): return {"o": "rx", "b": octets, "g": g} if g else {"o": "rx", "b": octets}


def req(r, callers, env, raw=0, cb=0, rb=0, **kw):
    q = {"cfg": {"raw": raw, "cb": cb, "rb": rb}, "seed": r.randrange(1 << 30), "mean": r.choice([2, 3, 5, 8, 12, 20, 40, 80, 160]),
         "callers": callers, "env": env}
    if r.random() < 0.15: q["chunk"] = r.choice([1, 2, 5])
    q.update(kw)
    return q


def systematic(c, bases, limit):
    """every base scenario without preemption, and with one preemption at every point of every thread"""
    bases = [dict(b, mean=0, pre=[], chunk=0, points=1) for b in bases]
    res = c.jython("modemp.py", bases, classes=c.java())
    alls = []
    for b, x in zip(bases, res):
        for t, ks in sorted(x.get("points", {}).items()):
            alls.append([dict(b, pre=[[t, k]], points=0) for k in ks])
    out = list(bases)
    total = sum(len(a) for a in alls)
    for a in alls:
        if total > limit:
            k = max(20, int(len(a) * limit / total))
            if k < len(a): a = [a[i] for i in sorted(c.rng.sample(range(len(a)), k))]
        out += a
    c.cov["preemption_points_enumerated"] = total
    return out


def trace_of(q, x): return {"cfg": q["cfg"], "ev": x["ev"]}


def accepted(c, traces):
    p = c.write_nd("trace-%d" % c.counts.get("tlc", 0), traces)
    r = c.tlc("TraceModem", "INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nINVARIANT WindowOwned\n" + CFG, env={"TRACE": p})
    c.states += r["distinct"]; c.transitions += r["generated"]
    return {int(x) - 1 for x in re.findall(r'<<\s*"OK",\s*(\d+)\s*>>', r["out"])}


def where(c, traces):
    """how far the specification can follow each run"""
    p = c.write_nd("trace-%d" % c.counts.get("tlc", 0), traces)
    r = c.tlc("TraceModem", "INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n" + CFG, env={"TRACE": p, "DEBUG": "1"})
    far = {}
    for t, j in re.findall(r'<<\s*"AT",\s*(\d+),\s*(\d+)\s*>>', r["out"]): far[int(t) - 1] = max(far.get(int(t) - 1, 0), int(j))
    return far


def run(c, reqs):
    c.rng.shuffle(reqs)
    res = c.jython("modemp.py", reqs, classes=c.java(), idle=60)
    c.log("code done:", len(reqs), "runs")
    runs = [(q, x) for q, x in zip(reqs, res) if "skipped" not in x]
    suspects = [(q, x) for q, x in runs if "ev" not in x]
    good = [(q, x) for q, x in runs if "ev" in x]
    ok = accepted(c, [trace_of(q, x) for q, x in good]) if good else set()
    suspects += [good[i] for i in range(len(good)) if i not in ok]
    if suspects:
        # a rejected run counts when it is rejected again: nothing outside the schedule may decide the verdict
        c.log(len(suspects), "runs rejected; repeating")
        again = [q for q, _ in suspects[:16]]
        confirmed = []
        for _ in range(2):
            ys = c.jython("modemp.py", again, classes=c.java(), timeout=250, idle=40)
            live = [(q, y) for q, y in zip(again, ys) if "ev" in y]
            ok2 = accepted(c, [trace_of(q, y) for q, y in live]) if live else set()
            confirmed += [(q, y) for i, (q, y) in enumerate(live) if i not in ok2]
            confirmed += [(q, y) for q, y in zip(again, ys) if "dead" in y and any(q is s and "dead" in x for s, x in suspects)]
            if confirmed: break
        c.cov["rejected_once"] = len(suspects)
        if os.environ.get("VF_KEEP"): json.dump(suspects, open("/tmp/w/suspects-%s.json" % c.pid, "w"))
        if confirmed:
            live = [(q, y) for q, y in confirmed if "ev" in y][:8]
            far = where(c, [trace_of(q, y) for q, y in live]) if live else {}
            for i, (q, y) in enumerate(live):
                j = far.get(i, 1) - 1
                e = y["ev"][j] if j < len(y["ev"]) else {}
                c.violation("%s event not allowed by the specification" % e.get("e"), {"at": j, "event": e, "request": q, "run": y["ev"]})
            for q, y in confirmed:
                if "dead" in y: c.violation("does not end", {"request": q, "why": y["dead"]})
    c.cov["traces_validated_against_impl"] = c.cov["evaluations"] = len(good)
    c.cov["events"] = sum(len(x["ev"]) for _, x in good)
    c.cov["distinct_nontrivial"] = len({json.dumps([[{k: v for k, v in e.items() if k not in ("v",)} for e in x["ev"]], q["cfg"]], sort_keys=True) for q, x in good})
    for q, x in good[:3]: c.sample({"callers": q["callers"], "cfg": q["cfg"], "events": [e["e"] for e in x["ev"]][:60]})
    return good


def mc(c):
    n, k = (2, 1)
    c.model("MC_Modem", "INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n" + CFG + INV, env={"NMSG": n, "NCALL": k})
    if c.thorough:
        for n, k in ((2, 2), (3, 1)): c.model("MC_Modem", "INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n" + CFG + INV, env={"NMSG": n, "NCALL": k})
    c.log("model checked")


def finals(S, tag, own=(1, 0)):
    return S.resp(tag, *own)


def execution(S, tag, gate, late=True):
    """what the environment does for one synchronous execution"""
    r = S.r
    env = []
    for _ in range(r.choice([0, 0, 1, 2])): env.append(rx(S.other((tag,)) if r.random() < 0.5 else S.resp(tag, r.randint(0, 1))))   # stale
    seq = []
    for _ in range(r.choice([0, 0, 1, 2, 3])): seq.append(S.resp(tag, 0, r.randint(0, 1)))
    for _ in range(r.choice([0, 0, 1, 2])): seq.insert(r.randint(0, len(seq)), S.other((tag,)))
    seq.append(S.resp(tag, 1, r.choice([0, 0, 1])))
    if late:
        for _ in range(r.choice([0, 0, 1, 2])): seq.append(r.choice([S.resp(tag, r.randint(0, 1)), S.other((tag,))]))
    if r.random() < 0.3: seq = [sum(seq, [])]
    for i, b in enumerate(seq):
        g = dict(gate) if i == 0 or r.random() < 0.5 else {}
        if r.random() < 0.15: g["d"] = r.choice([1, 49, 50, 51, 400, 2000])
        env.append(rx(b, **g))
    return env


def c12(c):
    S, r = Scn(c), c.rng
    mc(c)
    def scenario():
        tags = [r.randrange(256) for _ in range(r.choice([1, 2, 3]))]
        n = r.choice([1, 1, 2, 3])
        ops, env = [], []
        for i in range(n):
            t = r.choice(tags)
            ops.append(S.exec(t, r.choice([10000, 10000, 3000, 1000])))
            if r.random() < 0.15: ops.append({"k": "sleep", "d": r.choice([10, 60, 1000])})
            env += execution(S, t, {"w": i + 1})
        callers = [ops]
        if r.random() < 0.3:
            callers.append([S.exec(r.choice([9, 8] + tags), 0) for _ in range(r.choice([1, 2]))])
        if r.random() < 0.2: callers.append([{"k": "connect", "check": 0}])
        return req(r, callers, env, cb=int(r.random() < 0.4), rb=int(r.random() < 0.3))
    base = []
    for i in range(12 if c.thorough else 4):
        t = r.choice([5, 6])
        base.append(req(r, [[S.exec(t, 300), S.exec(r.choice([t, 7]), 200)]], [rx(S.resp(t, 1)), rx(S.resp(t, 0), w=1), rx(S.resp(99, 1)), rx(S.resp(t, 1)), rx(S.resp(t, i % 2)), rx(S.resp(t, 1), w=2), rx(S.resp(7, 1))]))
    reqs = systematic(c, base, 6000 if c.thorough else 600)
    reqs += [scenario() for _ in range(6000 if c.thorough else 600)]
    run(c, reqs)


def look(l=None, clr=0.5, r=None): return {"k": "clr" if r.random() < clr else "get", "l": l or r.choice(["unsol", "unsol", "reb"])}


def c13(c):
    S, r = Scn(c), c.rng
    mc(c)
    def stream(tags, n):
        env = []
        for _ in range(n):
            x = r.random()
            b = S.other(()) if x < 0.6 else S.resp(r.choice(tags), r.randint(0, 1)) if x < 0.9 else S.bad(tags)
            if r.random() < 0.3: b = b + S.other(())
            g = {}
            if r.random() < 0.2: g["d"] = r.choice([1, 30, 60, 500])
            if r.random() < 0.15: g["b"] = 1
            if r.random() < 0.15 and len(b) > 3:
                k = r.randrange(1, len(b)); env.append(rx(b[:k], **g)); b, g = b[k:], {}
            env.append(rx(b, **g))
        return env
    def scenario(raw=None):
        tags = [r.randrange(256) for _ in range(2)]
        raw = int(r.random() < 0.2) if raw is None else raw
        callers = []
        if r.random() < 0.6: callers.append([S.exec(r.choice(tags), r.choice([0, 200, 400])) for _ in range(r.choice([1, 2]))])
        if r.random() < 0.5: callers.append([{"k": "sleep", "d": r.choice([5, 60])}] * r.randint(0, 1) + [{"k": "connect", "check": 0}])
        if r.random() < 0.5: callers.append([x for _ in range(r.choice([1, 2])) for x in ([{"k": "sleep", "d": r.choice([5, 50])}] * r.randint(0, 1) + [look(r=r)])])
        return req(r, callers, stream(tags, r.choice([2, 3, 4, 6])), raw=raw, cb=r.randint(0, 1), rb=r.randint(0, 1))
    base = []
    for i in range(12 if c.thorough else 4):
        base.append(req(r, [[{"k": "connect", "check": 0}], [S.exec(5, 100)], [look("unsol", 1, r), look("reb", 1, r)]],
                        [rx(S.other()), rx(S.frame([35, 5])), rx(S.frame([3], 5)), rx(S.frame([163, 5]), b=2), rx(S.frame([163, 9])), rx(S.frame([35, 9])), rx(S.other())], cb=i % 2, rb=i // 2 % 2))
    reqs = systematic(c, base, 6000 if c.thorough else 500)
    reqs += [scenario() for _ in range(7000 if c.thorough else 650)]
    run(c, reqs)


def c14(c):
    S, r = Scn(c), c.rng
    mc(c)
    def scenario():
        tags = [r.randrange(256) for _ in range(r.choice([1, 2, 3]))]
        ops, env = [], []
        n = r.choice([1, 2, 2, 3])
        for i in range(n):
            t = r.choice(tags)
            to = r.choice([0, 20, 50, 120, 200, 500, 1000, 1300, 1700])
            ops.append(S.exec(t, to))
            if r.random() < 0.3: ops.append({"k": "sleep", "d": r.choice([10, 60, 300])})
            if r.random() < 0.2: env.append({"o": "wfail", "g": {"r": i}})
            for _ in range(r.choice([0, 1, 1, 2, 3])):
                b = S.resp(t, r.choice([0, 0, 1, 1]), r.choice([0, 0, 1])) if r.random() < 0.65 else S.other((t,)) if r.random() < 0.7 else S.bad([t])
                g = {}
                x = r.random()
                if x < 0.35: g["r"] = i + 1                                   # after it ended
                elif x < 0.7: g["b"] = i + 1; g["d"] = max(1, to + r.choice([-60, -51, -50, -49, -1, 0, 1, 49, 51, 60, 400]))   # about the time it ends
                else: g["b"] = i + 1
                env.append(rx(b, **g))
        callers = [ops]
        if r.random() < 0.25: callers.append([S.exec(r.choice(tags), 0) for _ in range(r.choice([1, 2]))])
        return req(r, callers, env, cb=int(r.random() < 0.2))
    base = []
    for i in range(16 if c.thorough else 5):
        env = [rx(S.frame([35, 5]), w=1), rx(S.frame([163, 5]), t=[99, 100, 101, 150, 40][i % 5]), rx(S.frame([35, 5])), rx(S.frame([163, 6]), b=2), rx(S.frame([35, 6]), r=2)]
        if i % 4 == 3: env.insert(0, {"o": "wfail"})
        base.append(req(r, [[S.exec(5, 100), S.exec(6, 50)] if i % 2 else [S.exec(5, 100), S.exec(9, 0), S.exec(6, 50)]], env))
    reqs = systematic(c, base, 6000 if c.thorough else 600)
    reqs += [scenario() for _ in range(7000 if c.thorough else 650)]
    run(c, reqs)


def c15(c):
    S, r = Scn(c), c.rng
    mc(c)
    def scenario(threads, per):
        callers = []
        for k in range(threads):
            ops = []
            for i in range(per):
                ops.append(S.exec(r.randrange(256), 0))
                if r.random() < 0.1: ops.append({"k": "sleep", "d": r.choice([1, 50])})
            callers.append(ops)
        sync = r.random() < 0.6
        if sync: callers[0].insert(r.randint(0, len(callers[0])), S.exec(7, r.choice([30, 100])))
        if not sync and r.random() < 0.3: callers.append([{"k": "connect", "check": 1}])
        env = [rx(S.other() if r.random() < 0.6 else S.resp(7, r.randint(0, 1)), w=r.randint(0, threads * per)) for _ in range(r.choice([0, 1, 2, 3]))]
        if r.random() < 0.1: env.append({"o": "wfail", "g": {"w": r.randint(0, threads * per)}})
        return req(r, callers, env, raw=int(r.random() < 0.15))
    base = []
    for i in range(8 if c.thorough else 3):
        base.append(req(r, [[S.exec(1, 0), S.exec(2, 0)], [S.exec(3, 0), S.exec(4, [0, 50][i % 2])], [S.exec(5, 0)]], [rx(S.frame([163, 4]), w=1)]))
    reqs = systematic(c, base, 5000 if c.thorough else 500)
    # two preemptions, one in each of two threads
    for b in base:
        for _ in range(500 if c.thorough else 60):
            k, l = r.sample(["c1", "c2", "c3"], 2)
            reqs.append(dict(b, mean=0, chunk=0, pre=[[k, r.randint(1, 60)], [l, r.randint(1, 60)]]))
    reqs += [scenario(r.choice([2, 2, 3, 4]), r.choice([1, 2, 3])) for _ in range(5000 if c.thorough else 500)]
    for _ in range(40 if c.thorough else 8): reqs.append(dict(scenario(r.choice([2, 3]), 130), mean=r.choice([20, 40]), chunk=0))    # the number wraps around
    run(c, reqs)


def c16(c):
    S, r = Scn(c), c.rng
    mc(c)
    def junk():
        x = r.random()
        if x < 0.5: return S.bad([1, 2])
        if x < 0.7: return [r.randrange(256) for _ in range(r.randint(1, 20))]
        f = S.frame([35, 1]); return f[:r.randrange(1, len(f))]
    def scenario():
        env, callers = [], []
        for _ in range(r.choice([2, 3, 4, 5])):
            x = r.random()
            g = {"d": r.choice([1, 60, 1000, 6000])} if r.random() < 0.4 else {}
            if x < 0.35: env.append(rx(S.other(), **g))
            elif x < 0.6: env.append(rx(junk(), **g))
            elif x < 0.8:
                b = S.other()
                k = r.randrange(1, max(2, len(b)))
                env.append(rx(b[:k], **g)); env.append(rx(b[k:] if r.random() < 0.8 else S.other()))
            else:
                env.append({"o": "fail", "of": r.choice([0, 0, 1, 2, 5]), "g": g})
                if r.random() < 0.7: env.append(rx(S.other(), d=r.choice([1, 4000, 7000, 40000])))
        env.append(rx(S.other() + S.frame([35, 77]) + S.frame([9], 5), d=r.choice([1, 100, 30000])))
        stops = r.random() < 0.4
        if stops:
            ops = []
            for _ in range(r.choice([1, 1, 2])): ops += [{"k": "until", "g": {"e": r.randint(0, len(env) - 1)}}, {"k": "stop"}] + [{"k": "sleep", "d": r.choice([1, 1000])}] * r.randint(0, 1) + [{"k": "start"}]
            callers.append(ops)
        if r.random() < 0.4: callers.append([S.exec(77, r.choice([0, 100, 8000]))])
        if r.random() < 0.3: callers.append([{"k": "connect", "check": 0}])
        return req(r, callers, env, raw=int(r.random() < 0.15), cb=r.randint(0, 1), rb=r.randint(0, 1))
    base = []
    for i in range(8 if c.thorough else 4):
        f = S.frame([163, 9]) + S.frame([1], 5)
        k = r.randrange(1, len(f))
        if i % 2: base.append(req(r, [[{"k": "until", "g": {"e": 1}}, {"k": "stop"}, {"k": "start"}]], [rx(f[:k]), rx(f[k:]), rx(S.frame([35, 8]), d=10)]))
        else: base.append(req(r, [[S.exec(9, 400)]], [rx(f[:k]), {"o": "fail", "of": i // 2}, rx(f[k:]), rx(S.frame([2], 5) + S.frame([35, 8]), d=20000)]))
    reqs = systematic(c, base, 4000 if c.thorough else 400)
    reqs += [scenario() for _ in range(8000 if c.thorough else 800)]
    # the reader survives whatever octets come
    A = S.A
    for _ in range(2000 if c.thorough else 150):
        env = []
        for _ in range(3):
            x = r.random()
            p = [r.randrange(256) for _ in range(r.randint(0, 8))] if x < 0.5 else gen.mutate(r, A.octets(A.cmd(), r))[:255]
            env.append(rx(S.frame(p, r.choice([1, 1, 1, 2, 4, 5]))))
        env.append(rx(S.frame([35, 1])))
        reqs.append(req(r, [], env, raw=int(r.random() < 0.1)))
    run(c, reqs)


def fileret(fid, data, off=0, length=None):
    return [32, fid] + gen.elen(off) + gen.elen(len(data) if length is None else length) + data


def c17(c):
    S, r = Scn(c), c.rng
    mc(c)
    def uid(): return r.choice([[0] * 8, [0] * 7 + [1], [255] * 8, [0, 0, 0xAB, 0, 0, 0, 0, 0xCD]] + [[r.randrange(256) for _ in range(8)]] * 6)
    def fw(): return [r.randrange(256) for _ in range(4)] + [r.choice([32, 48, 65, 97, 122, 0, 127, r.randrange(128)]) for _ in range(13)]
    def content():
        """the actions of a response"""
        u, f = fileret(0, uid()), fileret(2, fw())
        x = r.randrange(16)
        if x < 5: return r.choice([u + f, f + u])
        if x == 5: return u
        if x == 6: return f
        if x == 7: return []
        if x == 8: return u + fileret(r.choice([1, 3, 0x42]), fw()) 
        if x == 9: return fileret(1, uid()) + f
        if x == 10: return [34, 0, 2, 1] + u + f if r.random() < 0.5 else u + fileret(0x40, [1, 2, 3]) + f
        if x == 11: return u + [1, 2, 0, 17] + f if r.random() < 0.5 else u + [1, 2, 0, 17]      # a request among the responses
        if x == 12: return fileret(3, fw()) + u
        if x == 13: return u + f + fileret(1, [1, 2, 3])
        if x == 14: return [0x62, 1, 0] + u + f
        return fileret(0, uid()[:r.randint(0, 7)]) + (f if r.random() < 0.5 else [])              # odd length: only harmlessness
    def attempt(i, cond):
        env = []
        for _ in range(r.choice([0, 0, 1])): env.append(rx(S.other() if r.random() < 0.5 else S.frame(content())))
        x = r.random()
        if x < 0.75:
            done = 1 if r.random() < 0.85 else 0
            if r.random() < 0.1: env.append({"o": "resp", "p": [35, -1], "ty": 1, "n": r.randrange(256), "g": cond})
            env.append({"o": "resp", "p": [35 + 128 * done + 64 * int(r.random() < 0.1), -1] + content(), "ty": 1, "n": r.randrange(256), "g": dict(cond, **({"d": r.choice([1, 500, 9900, 9999, 10001, 10100])} if r.random() < 0.3 else {}))})
        elif x < 0.85: env.append(rx(S.frame([163, r.randrange(256)] + content()), **cond))     # most likely not its tag
        elif x < 0.93: env.append(rx(S.frame(content()), **cond))                               # untagged
        return env
    def scenario():
        raw = int(r.random() < 0.15)
        ops, env = [], []
        n = r.choice([1, 1, 2, 3])
        for i in range(n):
            chk = int(r.random() < 0.85)
            ops.append({"k": "connect", "check": chk, "bare": r.randint(0, 1)})
            if r.random() < 0.1: env.append({"o": "wfail", "g": {"r": i}})
            if chk: env += attempt(i, {"w": i + 1, "r": i})
            if r.random() < 0.3: env.append(rx(S.other(), r=i + 1))
        return req(r, [ops], env, raw=raw, cb=r.randint(0, 1), rb=r.randint(0, 1))
    base = []
    for i in range(8 if c.thorough else 3):
        p = [163, -1] + [fileret(0, uid()) + fileret(2, fw()), fileret(2, fw()), fileret(2, fw()) + fileret(0, uid())][i % 3]
        base.append(req(r, [[{"k": "connect", "check": 1, "bare": 1}]], [rx(S.frame([163, 9])), {"o": "resp", "p": p, "ty": 1, "n": 5, "g": {"w": 1}}, rx(S.frame([35, 8])), rx(S.frame([35, 7]), r=1)], cb=1))
    reqs = systematic(c, base, 4000 if c.thorough else 350)
    reqs += [scenario() for _ in range(8000 if c.thorough else 750)]
    run(c, reqs)


# ---------------------------------------------------------------------------------------- C29
def c29(c):
    """the MQTT gateway: a modem in raw mode whose callback publishes"""
    S, r = Scn(c), c.rng
    mc(c)
    def payload():
        x = r.random()
        if x < 0.4: return [r.randrange(256) for _ in range(r.choice([0, 1, 2, 3, 5, 8, 20, 60, 255]))]
        if x < 0.5: return [r.choice([0, 255, 0xC0, 10, 13, 123, 125])] * r.randint(1, 9)
        return S.payload([35 + 64 * r.randrange(4), r.randrange(256)])
    def message():
        x = r.random()
        if x < 0.55: return S.frame(payload(), r.choice([1, 1, 1, 2, 3]))
        if x < 0.65: return S.frame([r.randrange(256)], 5)
        if x < 0.75: return S.frame(payload(), 4)
        if x < 0.8: return S.frame(payload(), r.choice([6, 7, 100, 255]))
        return S.bad([1, 2])
    def gateway(callers, env, **kw):
        dev = r.choice(["gw1", "0", "a/b", "43373134003e0041", "x y"])
        tpl = r.choice([None, None, "/gw/{}", "{}", "/d7/{}/up", "plain"])
        dash = r.random() < 0.5
        argv = ["-di" if dash else "--device-id", dev] + ([] if tpl is None else ["-t" if dash else "--topic", tpl]) + r.choice([[], ["-v"], ["-b", "broker"], ["-d", "/dev/x", "-r", "9600"]])
        q = req(r, [[{"k": "gateway", "argv": argv}]] + callers, env, raw=1, cb=1, rb=0, topic=(tpl or "/gw/{}").format(dev))
        if r.random() < 0.2: q["later"] = 1
        q.update(kw)
        return q
    def scenario():
        env = [{"o": "nop", "g": {"r": 1}}]
        for _ in range(r.choice([1, 2, 4, 8])):
            x = r.random()
            b = message()
            if r.random() < 0.3: b = b + message()
            if x < 0.1: env.append({"o": "fail", "of": r.choice([0, 1, 3])}); env.append(rx(b, d=r.choice([1, 6000, 40000])))
            elif x < 0.2: env += [{"o": "pfail"}, rx(b)]
            elif x < 0.5 and len(b) > 3:
                k = r.randrange(1, len(b)); env += [rx(b[:k]), rx(b[k:], **({"d": r.choice([1, 500])} if r.random() < 0.3 else {}))]
            else: env.append(rx(b))
        callers = []
        if r.random() < 0.15: callers.append([{"k": "until", "g": {"r": 1}}, {"k": "until", "g": {"e": r.randint(1, len(env) - 1)}}, {"k": "stop"}, {"k": "start"}])
        if r.random() < 0.15: callers.append([{"k": "until", "g": {"r": 1}}, S.exec(r.randrange(256), 0)])
        return gateway(callers, env)
    base = [gateway([], [{"o": "nop", "g": {"r": 1}}, rx(message()), {"o": "fail", "of": 0}, rx(S.frame([1, 2, 0], 1), d=20000), rx(message() + message())]) for _ in range(4)]
    reqs = systematic(c, base, 3000 if c.thorough else 150)
    reqs += [scenario() for _ in range(5000 if c.thorough else 600)]
    run(c, reqs)
