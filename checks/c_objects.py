"""C26: objects and parsers living at the same time are independent."""
import json
import gen
import c_serial
from c_alp import single
from c_struct import L, PAD, fg_frame

DEFAULTS = ["nop", "read", "write", "return", "returnat", "phystatus3", "phystatus2s", "fgctrl", "ct", "addressee", "qos", "configuration", "chstatus",
            "subband", "subprofile", "perm", "len", "offset", "uid", "factory", "engmode", "vid", "phystatus", "dllconfig", "dllstatus", "seckey", "rootkey", "userkey"]


class Histories:
    def __init__(self, c):
        self.x = L(c); self.r = c.rng
        self.A = self.x.alp
        self.addable = [op for op in self.A.PLAIN_ENC if op not in (35, 52, 34)]

    def create(self, live):
        r, x, A = self.r, self.x, self.A
        k = r.randrange(20)
        if k < 3: return {"op": "bare", "tag": r.choice([-1, r.randrange(256)])}
        if k < 6:
            cmd = A.cmd(tag="req", status=None if r.random() < 0.3 else False)
            fix = r.randint(0, 1)
            return {"op": "cmd", "cmd": cmd, "gen": int(fix == 0 or r.random() < 0.8), "fix": fix, "via": "ctor" if cmd["status"] else r.choice(["ctor", "add", "tagaction"]) if fix else r.choice(["ctor", "add"]), "stpos": r.randrange(4)}
        if k < 8:                                            # several commands made from one list
            s = r.choice(self.shares)
            return {"op": "cmd", "cmd": dict(s["cmd"], tag=[r.randrange(256)], send=1), "gen": 1, "fix": r.randint(0, 1), "share": s["share"]}
        if k < 9: return self.factory()
        if k < 11: return {"op": "pcmd", "b": A.octets(A.cmd(status=None if r.random() < 0.3 else False), r)}
        if k < 12:
            f = fg_frame(x, tag=None)
            g = int(f["cmd"]["kind"] == "req")
            f["cmd"] = dict(f["cmd"], kind="req" if g else "none", done=0, err=0)
            if not g: f["cmd"].update(tag=[], send=1)
            return {"op": "fg", "f": f, "gen": g}
        if k < 13: return {"op": "sys"}
        if k < 16: return {"op": "dflt", "name": r.choice(DEFAULTS)}
        t, n, items = r.choice(x.all())
        while n == "ifconf": t, n, items = r.choice(x.all())
        toks = x.s.tokens(items)
        if k < 18: return {"op": "build", "t": t, "n": n, "toks": toks, "spec": 0}
        return {"op": "parse", "t": t, "n": n, "b": gen.encode(items, toks, r) + PAD.get(n, [])}

    def factory(self):
        r = self.r
        a = {"f": r.choice(["read", "write", "return"]), "fid": r.randrange(256), "off": r.choice([0, 0, 5]), "len": r.choice([1, 8, 300]),
             "data": [r.randrange(256) for _ in range(r.randrange(6))], "fwd": [["f.iface", [0xD7]]] if r.random() < 0.4 else [], "hdr": []}
        fix = int(a["f"] == "return" and r.random() < 0.5)
        if a["f"] == "return": a["fwd"] = []
        return {"op": "fact", "a": a, "fix": fix, "cmd": {"tag": [r.randrange(256)]}}

    def history(self, n):
        r = self.r
        self.shares = [{"share": k, "cmd": self.A.cmd(ops=self.addable, n=r.choice([0, 1, 2]), status=False, tag="req")} for k in range(2)]
        ops, live, cmds, nxt = [], [], [], 0
        for _ in range(n):
            y = r.random()
            if not live or (y < 0.5 and len(live) < 12):
                nxt += 1
                o = dict(self.create(live), o=nxt)
                ops.append(o); live.append(nxt)
                if o["op"] in ("cmd", "bare", "fact", "pcmd"): cmds.append(nxt)
            elif y < 0.75 and cmds:
                op = r.choice(self.addable)
                ops.append({"op": "add", "o": r.choice(cmds), "toks": self.A.action(op), "how": r.randint(0, 1)})
                t = ops[-1]
                if t["how"] == 1 and op in (50, 51) and dict((n, v) for n, v in t["toks"])["resp"] != [0]: t["how"] = 0
            elif y < 0.93: ops.append({"op": "look", "o": r.choice(live), "how": r.randrange(10)})
            else:
                k = r.choice(live)
                live.remove(k)
                if k in cmds: cmds.remove(k)
                ops.append({"op": "drop", "o": k})
        return {"ops": ops}


def c26(c):
    c.model("MC_Objects", "INIT Init\nNEXT Next\nCONSTANT Depth = %d\nINVARIANT AllValid\nPROPERTIES Independent Appends\nCHECK_DEADLOCK FALSE\n" % (5 if c.thorough else 3))
    H = Histories(c); r = c.rng
    reqs = [H.history(n) for n in ([r.randint(4, 40) for _ in range(2500)] + [200] * 20 if c.thorough else [r.randint(4, 30) for _ in range(220)] + [80] * 4)]
    for d in DEFAULTS:                                        # every default object twice, with everything else in between
        ops = [{"op": "dflt", "name": d, "o": 1}] + [dict(H.history(12)["ops"][0], o=2)]
        names = r.sample(DEFAULTS, 6)
        ops += [{"op": "dflt", "name": n, "o": 3 + i} for i, n in enumerate(names)]
        ops += [{"op": "look", "o": 1, "how": h} for h in r.sample(range(10), 3)]
        ops += [{"op": "dflt", "name": d, "o": 20}]
        reqs.append({"ops": ops})
    c.log("histories", len(reqs), "operations", sum(len(q["ops"]) for q in reqs))
    res = c.jython("objp.py", reqs)
    c.log("code done")
    traces = []
    for q, x in zip(reqs, res):
        if "skipped" in x: continue
        if "dead" in x: traces.append({"ops": [], "dead": x["dead"]}); continue
        traces.append({"ops": [dict(o, r=y) for o, y in zip(q["ops"], x["rs"])]})
    c.judge_traces("TraceObjects", traces)
    c.cov["evaluations"] = sum(len(t["ops"]) for t in traces)
    c.cov["distinct_nontrivial"] = len({json.dumps(t, sort_keys=True) for t in traces if len([1 for o in t["ops"] if o["op"] == "add"]) > 0})
    c.cov["traces_validated_against_impl"] = len(traces)
    for t in traces[:3]: c.sample([[o["op"], o["o"]] for o in t["ops"]][:30])
    # several serial parsers used alternately
    S = c_serial.Streams(c)
    reqs = []
    for _ in range(400 if c.thorough else 60):
        hs = []
        for _ in range(r.choice([2, 2, 3, 4])):
            raw = int(r.random() < 0.25)
            ops = []
            for ch in c_serial.cuts(r, S.stream(r.choice([1, 2, 4])), r.choice(["random", "random", "octets"]))[:60]:
                ops.append({"k": "f", "b": ch})
                if r.random() < 0.15: ops.append({"k": "b", "cmd": S.A.cmd(n=r.choice([0, 1, 2]), status=False, tag="req")})
            hs.append({"raw": raw, "ops": ops})
        order = [i for i, h in enumerate(hs) for _ in h["ops"]]
        r.shuffle(order)
        reqs.append({"k": "multi", "hs": hs, "order": order})
    res = c.jython("serialp.py", reqs)
    traces = []
    for q, x in zip(reqs, res):
        if "skipped" in x: continue
        for i, h in enumerate(q["hs"]):
            if "dead" in x: traces.append({"raw": h["raw"], "ops": [dict(o, r={}) for o in h["ops"]], "dead": x["dead"]})
            else: traces.append({"raw": h["raw"], "ops": [dict(o, r=y) for o, y in zip(h["ops"], x["hs"][i])]})
    c.judge_traces("TraceSerial", [t for t in traces if t["ops"]], c_serial.INV)
    c.cov["parsers"] = len(traces)
    c.log("parsers done")
    c.assumptions.append("the program does not assign to attributes of objects itself, nor change a list after passing it to a constructor")
