"""C01-C04: the ALP codec against spec/Alp.tla."""
import gen

def key(x):
    import json
    return json.dumps(x, sort_keys=True)


def finish(c, events, nontrivial):
    c.cov["evaluations"] = len(events)
    c.cov["distinct_nontrivial"] = len({key({k: v for k, v in e.items() if k != "r"}) for e in events if nontrivial(e)})
    for e in events:
        if nontrivial(e): c.sample(e)


def run(c, reqs, script="codec.py"):
    res = c.jython(script, reqs)
    ev = []
    for q, r in zip(reqs, res):
        if "skipped" in r: continue
        q = dict(q); q["r"] = r
        ev.append(q)
    return ev


def single(A, toks, **kw):
    c = {"tag": [A.rng.randrange(256)], "kind": "req", "send": 1, "done": 0, "err": 0, "status": [], "actions": [toks]}
    c.update(kw)
    return c


def enc_reqs(c, A, n):
    r = c.rng
    reqs = []
    for op in A.PLAIN_ENC:
        for t in gen.sweep(A.s, A.ops[op], dense=c.thorough):
            reqs.append({"k": "enc", "cmd": single(A, fixup(A, t)), "gen": 1, "fix": 1, "via": r.choice(["ctor", "ctor", "add"]), "drop": r.randint(0, 1)})
    for _ in range(n):
        cmd = A.cmd(ops=A.PLAIN_ENC, status=False, tag="req")
        cmd["actions"] = [fixup(A, t) for t in cmd["actions"]]
        q = {"k": "enc", "cmd": cmd, "gen": int(r.random() < 0.8), "fix": int(r.random() < 0.8), "via": r.choice(["ctor", "add", "tagaction"]),
             "drop": r.randint(0, 1), "tagpos": r.randrange(8)}
        if q["via"] == "tagaction": q["fix"] = 1
        if not q["gen"]: q["fix"] = 1
        reqs.append(q)
    for _ in range(256):   # every tag
        t = len(reqs) % 256
        reqs.append({"k": "enc", "cmd": dict(A.cmd(ops=[1], n=1, status=False, tag="req"), tag=[t]), "gen": 1, "fix": 1, "via": r.choice(["ctor", "tagaction"])})
    return reqs


def fixup(A, t):
    """requests the public constructors can express: an indirect forward carries an addressee iff overload is set (layout), fine as is"""
    return t


def fact_reqs(c, A, n):
    r = c.rng
    out = []
    S = A.s
    hdr = [it for it in A.ops[17] if it.get("n") not in ("group", "resp", "op", "fid")]
    for _ in range(n):
        f = r.choice(["read", "write", "return", "readhdr", "writehdr", "create"])
        a = {"f": f, "fid": r.choice([0, 1, 32, 64, 127, 128, 192, 255, r.randrange(256)]), "off": 0, "len": 0, "data": [], "hdr": [], "fwd": [], "expl": r.randint(0, 1)}
        if f in ("read", "write", "return"): a["off"] = r.choice([0, 0, S.value({"k": "L", "n": "x"})])
        if f == "read": a["len"] = S.value({"k": "L", "n": "x"})
        if f in ("write", "return"): a["data"] = S.octets(r.choice([0, 1, 2, 8, 63, 64, 65, r.randint(0, 60)]))
        if f in ("writehdr", "create"): a["hdr"] = S.tokens(hdr)
        x = r.random()
        if x < 0.55:
            fw = S.tokens(A.ops[50])
            a["fwd"] = [t for t in fw if t[0].startswith("f.")]
        elif x < 0.7: a["fwd"] = [["f.iface", [0xD7]]]
        fix = int(f == "return" and r.random() < 0.5)
        out.append({"k": "fact", "a": a, "fix": fix, "cmd": {"tag": [r.choice([0, 1, 255, r.randrange(256)])]}})
    return out


def c01(c):
    A = gen.Alp(c.layouts(), c.rng, maxdata=70)
    n = 15000 if c.thorough else 1200
    reqs = enc_reqs(c, A, n) + fact_reqs(c, A, n // 2)
    # long contents
    for ln in [255, 256, 300, 1000] + ([16383, 16384, 20000] if c.thorough else [16384]):
        for op in (4, 32):
            A.s.maxdata = 1 << 20
            A.s.force = {"len": ln}
            reqs.append({"k": "enc", "cmd": single(A, A.action(op)), "gen": 1, "fix": 1, "via": "ctor"})
            A.s.force = {}
    A.s.maxdata = 70
    c.log("requests", len(reqs))
    ev = run(c, reqs)
    c.log("code done")
    c.judge("TraceCodec", ev)
    finish(c, ev, lambda e: e["r"].get("out"))


def dec_reqs(c, A, n, big=True):
    r = c.rng
    reqs = []
    def add(cmd, b):
        q = {"k": "dec", "b": b}
        if r.random() < 0.15: q["tail"] = [r.randrange(256) for _ in range(r.randint(1, 12))]
        reqs.append(q)
    for op in A.PLAIN_DEC:
        for t in gen.sweep(A.s, A.ops[op], dense=c.thorough):
            add(None, A.enc_action(t, r if r.random() < 0.4 else None))
    for t in gen.sweep(A.s, A.status, dense=c.thorough):
        cmd = A.cmd(n=r.choice([0, 1]), status=False)
        cmd["status"] = [["iface", [0xD7]]] + t
        add(cmd, A.octets(cmd, r))
    for tag in range(256):
        for kind in ((0, 0, 0), (1, 0, 0), (0, 1, 0)) if not c.thorough else ((0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 1, 1), (0, 0, 1)):
            cmd = A.cmd(n=r.choice([0, 1]), tag="resp" if r.random() < 0.7 else "req")
            cmd["tag"] = [tag]
            if cmd["kind"] == "resp": cmd["done"], cmd["err"] = kind[1], r.randint(0, 1)
            add(cmd, A.octets(cmd, r))
    for _ in range(n):
        cmd = A.cmd()
        add(cmd, A.octets(cmd, r))
    if big:
        for ln in [255, 256, 300] + ([16383, 16384, 20000] if c.thorough else [2000]):
            A.s.maxdata = 1 << 20
            A.s.force = {"len": ln}
            add(None, A.enc_action(A.action(r.choice([4, 32]))))
            A.s.force = {}
        A.s.maxdata = 70
    return reqs


def c02(c):
    A = gen.Alp(c.layouts(), c.rng, maxdata=70)
    reqs = dec_reqs(c, A, 12000 if c.thorough else 1000)
    c.log("requests", len(reqs))
    ev = run(c, reqs)
    c.log("code done")
    c.judge("TraceCodec", ev)
    finish(c, ev, lambda e: e["r"].get("ok") == 1)


def illegal(A, r):
    """octets with exactly one illegal field value"""
    out = []
    for op in A.PLAIN_DEC + ["status"]:
        items = A.ops[op] if op != "status" else A.status
        for it in gen.walk(items):
            if it["k"] != "u" or it.get("range") or it["n"] in ("op",): continue
            bad = [v for v in range(1 << it["w"]) if v not in set(it["vals"])]
            if not bad: continue
            good = it["vals"]
            picks = bad if len(bad) <= 16 else r.sample(bad, 16)
            for v in picks:
                flags = [i["n"] for i in items if i["k"] == "u" and i["w"] == 1 and i["n"] != it["n"]][:3]
                for k in range(max(2, 1 << len(flags))):
                    # make the field present, then overwrite it; with all values of the flags
                    for _try in range(200):
                        A.s.force = {n: k >> j & 1 for j, n in enumerate(flags) if k >> j & 1 in [i for i in items if i.get("n") == n][0]["vals"]}
                        t = A.s.tokens(items)
                        A.s.force = {}
                        if any(x[0] == it["n"] for x in t): break
                    else: continue
                    t = [[n, [v]] if n == it["n"] else [n, x] for n, x in t]
                    out.append(encode_bad(A, op, items, t))
    # a request tag with bit 6 set, unsupported status forms, every opcode
    for b in range(256):
        out.append([b] + [r.randrange(256) for _ in range(r.choice([0, 1, 3, 20]))])
        op = b & 63
        rest = A.enc_action(A.action(op))[1:] if op in A.PLAIN_DEC else A.enc_status(A.ifstatus())[1:] if op == 34 else [r.randrange(256)]
        out += [[b] + rest, [32, 64, 0, 1, 7, b] + rest, [b] + rest + [32, 64, 0, 1, 7]]
        out.append([0x62, b, 0])
        out.append([0x62, b, 20] + [r.randrange(256) for _ in range(20)])
        out.append([32, 64, 0, 1, 7, b])
    return out


def encode_bad(A, op, items, t):
    b = gen.encode(items, t)
    if op == "status": return [0x62, 0xD7, len(b)] + b
    return b


def c03(c):
    A = gen.Alp(c.layouts(), c.rng, maxdata=12)
    r = c.rng
    bs = illegal(A, r)
    n = 6000 if c.thorough else 350
    for _ in range(n):
        cmd = A.cmd(n=r.choice([0, 1, 1, 2, 3]))
        b = A.octets(cmd, r)
        if len(b) <= 60 or c.thorough:
            for k in (range(len(b)) if r.random() < (0.3 if c.thorough else 0.12) else [r.randrange(len(b) + 1)]): bs.append(b[:k])
        for _ in range(4): bs.append(gen.mutate(r, b))
        x = r.random()
        if x < 0.3:   # second tag / status
            t2 = r.choice([[52, 1], [180, 2], [35, 3], [163, 3], [227, 4]])
            bs.append(b + t2 if r.random() < 0.5 else t2 + b)
        elif x < 0.5:
            st = A.enc_status(A.ifstatus(), r)
            bs.append(b + st if r.random() < 0.5 else st + b)
        bs.append([r.randrange(256) for _ in range(r.choice([1, 2, 3, 5, 9, 17]))])
    reqs = [{"k": "dec", "b": b} for b in bs]
    c.log("requests", len(reqs))
    ev = run(c, reqs)
    c.log("code done")
    c.judge("TraceCodec", ev)
    finish(c, ev, lambda e: e["r"].get("ok") == 0)
    c.cov["accepted_and_compared"] = sum(1 for e in ev if e["r"].get("ok") == 1)


def c04(c):
    A = gen.Alp(c.layouts(), c.rng, maxdata=70)
    r = c.rng
    reqs = []
    for op in A.PLAIN_DEC:
        for t in gen.sweep(A.s, A.ops[op], dense=c.thorough):
            if r.random() < 0.5 or c.thorough: reqs.append({"k": "rt", "cmd": single(A, t), "gen": 1, "fix": 1, "via": "ctor"})
            else: reqs.append({"k": "rtb", "b": A.enc_action(t, r)})
    for t in gen.sweep(A.s, A.status):
        cmd = A.cmd(n=1, status=False, tag="req"); cmd["status"] = [["iface", [0xD7]]] + t
        reqs.append({"k": "rt", "cmd": cmd, "gen": 1, "fix": 1, "via": "ctor", "stpos": r.randrange(4)})
    for _ in range(8000 if c.thorough else 700):
        cmd = A.cmd(tag="req")
        via = "tagaction" if cmd["status"] == [] and r.random() < 0.5 else "ctor"
        reqs.append({"k": "rt", "cmd": cmd, "gen": 1, "fix": 1, "via": via, "stpos": r.randrange(4)})
        cmd = A.cmd(status=None if r.random() < 0.3 else False)
        reqs.append({"k": "rtb", "b": A.octets(cmd, r)})
    c.log("requests", len(reqs))
    ev = run(c, reqs)
    c.log("code done")
    c.judge("TraceCodec", ev)
    finish(c, ev, lambda e: e["r"].get("ok") == 1)
    c.assumptions.append("commands with an interface status do not round trip on this tree (known finding, the emitted octets are checked exactly)")


def c28(c):
    A = gen.Alp(c.layouts(), c.rng, maxdata=40)
    r = c.rng
    reqs = []
    def built(cmd, via="ctor", fix=1): reqs.append({"k": "jsonc", "cmd": cmd, "gen": 1, "fix": fix, "via": via, "stpos": r.randrange(4)})
    def octets(cmd): reqs.append({"k": "jsonb", "b": A.octets(cmd, r)})
    for op in sorted(set(A.PLAIN_ENC) | set(A.PLAIN_DEC)):
        for t in gen.sweep(A.s, A.ops[op], dense=c.thorough):
            if op in A.PLAIN_ENC and (r.random() < 0.5 or op not in A.PLAIN_DEC): built(single(A, t))
            if op in A.PLAIN_DEC and r.random() < 0.5: reqs.append({"k": "jsonb", "b": A.enc_action(t, r)})
    for t in gen.sweep(A.s, A.status):
        cmd = A.cmd(n=1, status=False, tag="req"); cmd["status"] = [["iface", [0xD7]]] + t
        built(cmd)
        octets(dict(cmd, kind=r.choice(["req", "none"])))
    for _ in range(6000 if c.thorough else 500):
        cmd = A.cmd(tag="req", status=None if r.random() < 0.5 else False)
        built(cmd, r.choice(["ctor", "add"]) if cmd["status"] == [] else "ctor", int(r.random() < 0.8))
        octets(A.cmd(status=None if r.random() < 0.5 else False))
    c.log("requests", len(reqs))
    ev = run(c, reqs)
    c.log("code done")
    c.judge("TraceCodec", ev)
    import c_struct
    ev += c_struct.stored(c)
    finish(c, ev, lambda e: e["r"].get("exc") == "" and e["r"].get("packed"))
