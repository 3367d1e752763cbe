"""C18-C25, C27: frames, structures, system files, value ranges, compressed time, channel text, registry."""
import gen
from c_alp import run, finish, key

PAD = {"engmode": [0, 0]}


class L:
    """the exported layouts, with a sampler"""
    def __init__(self, c):
        x = c.layouts()
        self.files, self.structs = dict(x["files"]), dict(x["structs"])
        self.fg, self.np, self.tp, self.bg = x["fgHead"], x["npHead"], x["tpHead"], x["bg"]
        self.alp = gen.Alp(x, c.rng, maxdata=24)
        self.s, self.rng = self.alp.s, c.rng

    def all(self):
        return [("file", n, l) for n, l in sorted(self.files.items())] + [("struct", n, l) for n, l in sorted(self.structs.items())]


def illegal_tokens(x, items, name_ok=lambda it: True):
    """token lists with one field at a value its layout excludes although it fits the width"""
    for it in gen.walk(items):
        if it["k"] not in ("u", "s") or it.get("range") or not name_ok(it): continue
        lo, hi = (0, (1 << it["w"]) - 1) if it["k"] == "u" else (-128, 127)
        bad = [v for v in range(lo, hi + 1) if v not in set(it["vals"])]
        for v in (bad if len(bad) <= 12 else [bad[0], bad[-1]] + x.rng.sample(bad, 10)):
            t = having(x, items, it["n"])
            if t: yield it, [[n, [v]] if n == it["n"] else [n, y] for n, y in t]


def having(x, items, name, width=None):
    for _ in range(300):
        t = x.s.tokens(items)
        if any(n == name and (width is None or len(v) == width) for n, v in t): return t
    return None


# ---------------------------------------------------------------------------------------- C20, C21
def c20(c):
    x = L(c); r = c.rng
    reqs = []
    def add(t, n, b, tail=True):
        q = {"k": "sdec", "t": t, "n": n, "b": b, "tail": []}
        if tail and t == "struct" and r.random() < 0.2: q["tail"] = [r.randrange(256) for _ in range(r.randint(1, 9))]
        reqs.append(q)
    for t, n, items in x.all():
        if n == "ifconf": continue
        pad = lambda: PAD.get(n, []) if r.random() < 0.7 else [r.randrange(256) for _ in PAD.get(n, [])]
        for toks in gen.sweep(x.s, items, dense=c.thorough and n not in ("access", "accessprofile")):
            add(t, n, gen.encode(items, toks, r if r.random() < 0.5 else None) + pad())
        for _ in range(300 if c.thorough else 25):
            b = gen.encode(items, x.s.tokens(items), r) + pad()
            add(t, n, b)
            for k in (range(len(b)) if len(b) < 24 or c.thorough else r.sample(range(len(b)), 12)) if r.random() < 0.25 else [r.randrange(len(b) + 1)]: add(t, n, b[:k], tail=False)
            add(t, n, gen.mutate(r, b))
            add(t, n, [r.randrange(256) for _ in range(len(b))])
        for it, toks in illegal_tokens(x, items): add(t, n, gen.encode(items, toks) + pad())
    for k in [0, 1, 15, 85, 255]:                       # long channel lists
        body = [r.randrange(256) for _ in range(12)] + [3, 232, k]
        for _ in range(k): body += [r.choice([0, 2, 3, 4]) * 32 + r.randint(0, 1) * 16 + r.randint(0, 3), r.randrange(256), r.randrange(256)]
        add("file", "phystatus", body)
        add("file", "phystatus", body[:-1], tail=False)
    c.log("requests", len(reqs))
    ev = run(c, reqs, "structp.py")
    c.log("code done")
    c.judge("TraceStruct", ev)
    finish(c, ev, lambda e: e["r"].get("ok") == 1)


def c21(c):
    x = L(c); r = c.rng
    reqs = []
    def add(t, n, toks):
        q = {"k": "senc", "t": t, "n": n, "toks": toks, "smp": 0}
        if n == "access": q["spec"] = r.randint(0, 14)
        if n == "firmware": q["strip"] = r.randint(0, 1)
        if n == "factory" and r.random() < 0.3: q["smp"] = r.randint(2, 256)
        reqs.append(q)
    for t, n, items in x.all():
        for toks in gen.sweep(x.s, items, dense=c.thorough and n not in ("access", "accessprofile")): add(t, n, toks)
        for _ in range(600 if c.thorough else 40): add(t, n, x.s.tokens(items))
    x.s.force = {}
    for smp in range(2, 257):
        reqs.append({"k": "senc", "t": "file", "n": "factory", "toks": x.s.tokens(x.files["factory"]), "smp": smp})
    for k in [1, 15, 85, 255]:
        toks = [["up", [0, 0, 0, k]], ["rx", [0, 0, 1, 0]], ["tx", [255, 255, 255, 255]], ["duty", [1000]], ["n", [k]]]
        for j in range(k):
            p = "c%d" % (j + 1)
            toks += [[p + ".band", [r.choice([0, 2, 3, 4])]], [p + ".bw", [r.randint(0, 1)]], [p + ".index", [r.randint(0, 1039)]], [p + ".nf", [r.randrange(256)]]]
        add("file", "phystatus", toks)
    for _ in range(20):                                   # short names are padded
        toks = x.s.tokens(x.files["firmware"])
        k, m = r.randint(0, 6), r.randint(0, 7)
        toks = [[n, [32]] if (n.startswith("app") and int(n[3:]) > k) or (n.startswith("sha") and int(n[3:]) > m) else [n, v] for n, v in toks]
        reqs.append({"k": "senc", "t": "file", "n": "firmware", "toks": toks, "smp": 0, "strip": 1})
    c.log("requests", len(reqs))
    ev = run(c, reqs, "structp.py")
    c.log("code done")
    c.judge("TraceStruct", ev)
    finish(c, ev, lambda e: e["r"].get("out"))


# ---------------------------------------------------------------------------------------- C22
BIG = [2 ** 31 - 1, -2 ** 31 + 1, 70000, 1 << 20, -70000]


def outside(it, r):
    """values about the limits of a field, inside and outside"""
    k = it["k"]
    if k in ("u", "s"):
        lo, hi = (it["vals"] if it.get("range") else (min(it["vals"]), max(it["vals"])))
        out = [lo - 1, hi + 1, hi + 2, -1, -2, -128, 2 * hi + 1, 256, 65536 if hi > 255 else 257, r.choice(BIG), r.randint(hi + 1, hi + 1000), r.randint(-1000, lo - 1)]
        if k == "u" and not it.get("range"):
            out += [v for v in range(min(1 << it["w"], 256)) if v not in set(it["vals"])][:16]
        return [[v] for v in dict.fromkeys(out)], [[lo], [hi]]
    if k == "L": return [[-1], [1 << 30], [(1 << 30) + 1], [2 ** 31 - 1], [-64], [-2 ** 30]], [[0], [(1 << 30) - 1], [1 << 22], [63], [64]]
    if k in ("w", "le"):
        n = it["c"]
        return [[1] + [0] * n, [255] * (n + 1), [1, 0] + [0] * n, [-1], [-128], [1] + [r.randrange(256) for _ in range(n)]], [[0] * n, [255] * n]
    return [], []


def limits(x, items, names=lambda it: True):
    seen = set()
    for it in gen.walk(items):
        wide = it["c"] if it["k"] in ("w", "le") else None
        if it["k"] == "D" or not names(it) or (it["n"], wide) in seen: continue
        seen.add((it["n"], wide))
        bad, good = outside(it, x.rng)
        for v in bad:
            t = having(x, items, it["n"], wide)
            if t: yield [[n, v] if n == it["n"] else [n, y] for n, y in t]
        for v in good:
            if wide is None: x.s.force = {it["n"]: v[0]}
            t = having(x, items, it["n"], wide)
            x.s.force = {}
            if t: yield t if wide is None else [[n, v] if n == it["n"] else [n, y] for n, y in t]


KINDS = ["none", "text", "half", "list", "dict", "empty", "char", "unicode", "object", "enum", "class"]


def kinds(x, items, names):
    seen = set()
    lens = {it["ln"] for it in gen.walk(items) if it["k"] == "D"}
    for it in gen.walk(items):
        if it["n"] in seen | lens or not names(it): continue
        seen.add(it["n"])
        for k in KINDS:
            if it["k"] == "D": x.s.force = {it["ln"]: 3}
            t = having(x, items, it["n"])
            x.s.force = {}
            if t and (it["n"], k) != ("rssism", "half"): yield {"toks": t, "wrong": [it["n"], k if it["k"] != "D" else "elem." + k]}


def c22(c):
    x = L(c); r = c.rng
    reqs = []
    rounds = 6 if c.thorough else 1
    for _ in range(rounds):
        for t, n, items in x.all():
            def ok(it):
                if n == "factory" and it["n"] == "rssism": return False        # stored through the number of samples
                if n == "phystatus" and it["n"] == "n": return False
                if n in ("ifconf",) and it["n"] == "f.iface": return False
                if n in ("access", "accessprofile") and it["n"].split(".")[1] in ("sp2", "sp3", "sb2", "sb3", "sb4", "sb5", "sb6", "sb7") and not c.thorough: return False
                return True
            for toks in limits(x, items, ok): reqs.append({"k": "slim", "t": t, "n": n, "toks": toks, "smp": r.randint(2, 256) if n == "factory" else 0})
        for op in gen.Alp.PLAIN_ENC:
            items = x.alp.ops[op]
            lens = {it["ln"] for it in gen.walk(items) if it["k"] == "D"}
            ok = lambda it: it["n"] not in lens and it["n"] not in ("op", "rfu7", "rfu6", "f.iface", "q.type", "q.mask")
            for toks in limits(x, items, ok): reqs.append({"k": "alim", "toks": toks})
            for it in gen.walk(items):
                if it["k"] != "D": continue
                for v in (256, -1, 1000, 70000):
                    x.s.force = {it["ln"]: 3}
                    t = x.s.tokens(items)
                    x.s.force = {}
                    d = [r.randrange(256) for _ in range(3)]; d[r.randrange(3)] = v
                    reqs.append({"k": "alim", "toks": [[n, d] if n == it["n"] else [n, y] for n, y in t]})
        f = [it for it in gen.walk(x.alp.ops[50]) if it["n"] == "f.iface"]
        for v in (4, 5, 100, 214, 216, 255, 256, -1): reqs.append({"k": "alim", "toks": [["rfu7", [0]], ["resp", [0]], ["op", [50]], ["f.iface", [v]]]})
        q = [t for t in x.s.tokens(x.alp.ops[9])]
        for v in (5, 6, 8, -1, 100): reqs.append({"k": "alim", "toks": [[n, [v]] if n == "q.type" else [n, y] for n, y in q]})
    # values of another kind than a number
    for t, n, items in x.all():
        for q in kinds(x, items, lambda it: not (n == "firmware" and it["n"][:3] in ("app", "sha"))):
            reqs.append(dict(q, k="slim", t=t, n=n, smp=2 if n == "factory" else 0))
    for op in gen.Alp.PLAIN_ENC:
        for q in kinds(x, x.alp.ops[op], lambda it: it["n"] not in ("op", "rfu7", "rfu6", "f.iface")): reqs.append(dict(q, k="alim"))
    for name in ("application_name", "git_sha1"):
        for k in KINDS:
            if k not in ("text", "empty", "char", "unicode"): reqs.append({"k": "slim", "t": "file", "n": "firmware", "smp": 0, "toks": [], "name": [name, k], "wrong": ["", k]})
    for k in KINDS:
        for how in range(3):
            if k != "none" or how == 1: reqs.append({"k": "tlim", "tag": r.randrange(256), "how": how, "wrong": k})
    for part, items in (("head", x.fg), ("np", x.np), ("tp", x.tp), ("crc", [])):
        for n in {it["n"] for it in gen.walk(items)} | ({"crc"} if part == "crc" else set()):
            for k in KINDS:
                if (n, k) == ("agc", "none"): continue              # means: the default
                for _try in range(200):
                    f = fg_frame(x, ops=[1, 4])
                    if part == "crc" or any(m == n for m, _ in f[part]): break
                else: continue
                reqs.append({"k": "fglim", "f": f, "gen": 0, "wrong": [part, n, ("elem." if n in ("target", "origin") else "") + k]})
    for q in kinds(x, x.bg, lambda it: True): reqs.append(dict(q, k="bglim"))
    # identifier and id type
    ct, short, long_, toolong = [["x.nbid.exp", [3]], ["x.nbid.mant", [7]]], [["x.id", [1, 2]]], [["x.id", [1, 2, 3, 4, 5, 6, 7, 8]]], [["x.id", [1] + [0] * 8]]
    for idt in range(6):
        for ident in ([], ct, short, long_, toolong, [["x.id", [1, 0, 0]]], [["x.id", [-1]]], [["x.id", [0, 0]]], [["x.id", [0] * 8]]):
            if idt == 2 and ident and ident[0][0] == "x.id" and len(ident[0][1]) < 8 and ident[0][1] != [-1]: continue   # same number, shorter notation
            if idt == 3 and ident == [["x.id", [0] * 8]]: continue
            reqs.append({"k": "slim", "t": "struct", "n": "addressee", "smp": 0, "toks": [["x.idtype", [idt]], ["x.nls", [0]], ["x.ac", [1]]] + ident})
    # numbers of list elements
    for n in ("access", "accessprofile"):
        t = x.s.tokens((x.files if n == "access" else x.structs)[n])
        for sps, sbs in ((3, 8), (5, 8), (0, 8), (4, 9), (4, 12)):
            toks = t[:3]
            for k in range(sps): toks = toks + [["ap.sp%d.bitmap" % (k + 1), [k]], ["ap.sp%d.period.exp" % (k + 1), [1]], ["ap.sp%d.period.mant" % (k + 1), [1]]]
            for k in range(sbs): toks = toks + [["ap.sb%d.%s" % (k + 1, m), [1]] for m in ("start", "end", "eirp", "cca", "duty")]
            reqs.append({"k": "slim", "t": "file" if n == "access" else "struct", "n": n, "smp": 0, "toks": toks})
    for n in (-1, 256, 255):
        toks = [["up", [0] * 4], ["rx", [0] * 4], ["tx", [0] * 4], ["duty", [0]], ["n", [n]]]
        for k in range(max(n, 0)): toks += [["c%d.%s" % (k + 1, m), [v]] for m, v in (("band", 3), ("bw", 0), ("index", 5), ("nf", 9))]
        reqs.append({"k": "slim", "t": "file", "n": "phystatus", "smp": 0, "toks": toks})
    for kind, k in (("app", 7), ("sha", 8)):
        t = x.s.tokens(x.files["firmware"])
        at = max(i for i, y in enumerate(t) if y[0].startswith(kind)) + 1
        reqs.append({"k": "slim", "t": "file", "n": "firmware", "smp": 0, "toks": t[:at] + [["%s%d" % (kind, k), [65]]] + t[at:]})
    # tags
    for v in [-1, 0, 1, 128, 255, 256, 257, 65536, -256, 2 ** 31 - 1]:
        for how in range(3): reqs.append({"k": "tlim", "tag": v, "how": how})
    # frames
    for _ in range(rounds):
        for part, items in (("head", x.fg), ("np", x.np), ("tp", x.tp)):
            for it in gen.walk(items):
                if it["n"] in ("hop", "nls", "acknv", "ackrec", "target", "origin", "noorigin"): continue
                bad, good = outside(it, r)
                for v, w in [(v, 0) for v in bad] + [(v, 1) for v in good]:
                    if w and (it["n"].endswith("type") or "?" in it["n"] or it["n"] in ("ackreq", "start")): continue
                    f = None
                    for _try in range(200):
                        f = fg_frame(x, ops=[1, 4])
                        if any(n == it["n"] for n, _ in f[part]): break
                    else: continue
                    f[part] = [[n, v] if n == it["n"] else [n, y] for n, y in f[part]]
                    reqs.append({"k": "fglim", "f": f, "gen": 0})
        for v in (-1, 65536, 0, 65535, 2 ** 31 - 1):
            f = fg_frame(x, ops=[1]); f["crc"] = [v]
            reqs.append({"k": "fglim", "f": f, "gen": 0})
        for part, nm, sel in (("head", "target", {"idtype": 2}), ("np", "origin", {"oidtype": 3, "noorigin": 0})):
            for v in (256, -1, 255):
                f = fg_frame(x, ops=[1], force=sel)
                f[part] = [[n, y[:-1] + [v]] if n == nm else [n, y] for n, y in f[part]]
                reqs.append({"k": "fglim", "f": f, "gen": 0})
        for toks in limits(x, x.bg): reqs.append({"k": "bglim", "toks": toks})
    c.log("requests", len(reqs))
    ev = run(c, reqs, "structp.py")
    c.log("code done")
    c.judge("TraceStruct", ev)
    finish(c, ev, lambda e: e["r"].get("acc") == 0)
    c.cov["accepted"] = sum(1 for e in ev if e["r"].get("acc") == 1)


# ---------------------------------------------------------------------------------------- C18, C19
def fg_frame(x, ops=None, force=None, status=False, tag="none"):
    s = x.s
    while True:
        cmd = x.alp.cmd(ops=ops, status=status, tag=tag)
        s.force = dict(force or {})
        head = s.tokens(x.fg)
        if "noorigin" not in s.force: s.force["noorigin"] = x.rng.randint(0, 1)
        if s.force["noorigin"] == 0 and "oidtype" not in s.force: s.force["oidtype"] = x.rng.choice([2, 3])
        np = s.tokens(x.np)
        tp = s.tokens(x.tp)
        s.force = {}
        n = len(gen.encode(x.fg, head)) + len(gen.encode(x.np, np)) + len(gen.encode(x.tp, tp)) + len(x.alp.octets(cmd)) + 2
        if n <= 256: break
    if not (force and "length" in force): head[0] = ["length", [n - 1]]
    return {"head": head, "np": np, "tp": tp, "cmd": cmd, "crc": [x.rng.choice([0, 1, 65535, 256, x.rng.randrange(65536)])]}


def fg_octets(x, f, rng=None):
    """octets of a frame with a correct length octet"""
    cmd = x.alp.octets(f["cmd"], rng)
    rest = gen.encode(x.np, f["np"], rng) + gen.encode(x.tp, f["tp"], rng) + cmd + [f["crc"][0] >> 8, f["crc"][0] & 255]
    h = gen.encode(x.fg, f["head"], rng)
    n = len(h) + len(rest) - 1
    if n > 255: return None
    return [n] + h[1:] + rest


def fg_sweep(x, dense):
    """every field of every layer at each of its interesting values"""
    for items in (x.fg, x.np, x.tp):
        for it in gen.walk(items):
            if it["n"] == "length": continue
            for v in gen.interesting(it, dense):
                for _ in range(30):
                    force = {it["n"]: v}
                    if it["n"] == "oidtype": force["noorigin"] = 0 if v in (2, 3) else 1
                    f = fg_frame(x, force=force, tag="none" if x.rng.random() < 0.6 else None)
                    if any(n == it["n"] and y == (v if isinstance(v, list) else [v]) for n, y in f["head"] + f["np"] + f["tp"]):
                        yield f
                        break


def flag_combinations(x):
    for k in range(64):
        force = {"start": k & 1, "tl?": k >> 1 & 1, "te?": k >> 2 & 1, "ackreq": k >> 3 & 1, "agc?": k >> 4 & 1, "noorigin": k >> 5}
        for idt in range(4):
            g = dict(force, idtype=idt)
            g["oidtype"] = [0, 1, 2, 3][idt] if g["noorigin"] else 2 + idt % 2
            yield fg_frame(x, force=g, ops=[1, 4, 32, 33], tag="none")


def c18(c):
    x = L(c); r = c.rng
    reqs = []
    def add(b):
        if b is not None: reqs.append({"k": "fgdec", "b": b, "how": r.randint(0, 1)})
    fs = list(flag_combinations(x)) + list(fg_sweep(x, c.thorough))
    for _ in range(3000 if c.thorough else 300): fs.append(fg_frame(x, status=None, tag=None))
    for f in fs: add(fg_octets(x, f, r if r.random() < 0.5 else None))
    good = [q["b"] for q in reqs]
    for b in r.sample(good, len(good) if c.thorough else 60):
        for k in (range(len(b)) if c.thorough or r.random() < 0.2 else [r.randrange(len(b)), len(b) - 1]): add(b[:k])
        add(b + [r.randrange(256) for _ in range(r.randint(1, 5))])
        for _ in range(3): add(gen.mutate(r, b))
    for _ in range(200 if c.thorough else 12):              # what is not supported
        for what in ("hop", "nls", "acknv", "ackrec", "origin", "op"):
            f = fg_frame(x)
            if what == "hop": f["np"] = [[n, [1]] if n == "hop" else [n, v] for n, v in f["np"]]
            if what == "nls": f["np"] = [[n, [r.randint(1, 15)]] if n == "nls" else [n, v] for n, v in f["np"]]
            if what in ("acknv", "ackrec"): f["tp"] = [[n, [1]] if n == what else [n, v] for n, v in f["tp"]]
            if what == "origin": f["np"] = [[n, [r.randint(0, 1)]] if n == "oidtype" else [n, [0]] if n == "noorigin" else [n, v] for n, v in f["np"] if n != "origin"]
            b = fg_octets(x, f)
            if b is None: continue
            if what == "acknv":                              # with a template that looks right
                t = dict((n, v) for n, v in f["tp"])["trans"][0]
                k = len(b) - 2 - len(x.alp.octets(f["cmd"]))
                b2 = [b[0] + 2] + b[1:k] + [t, t] + b[k:]
                if b2[0] < 256: add(b2)
            add(b)
    for toks in gen.sweep(x.s, x.bg, dense=True):
        b = gen.encode(x.bg, toks)
        reqs.append({"k": "bgdec", "b": b, "how": r.randint(0, 1)})
        if r.random() < 0.3: reqs.append({"k": "bgdec", "b": b[:r.randrange(len(b))]})
    for _ in range(600 if c.thorough else 100): reqs.append({"k": "bgdec", "b": [r.randrange(256) for _ in range(r.choice([6, 6, 6, 5, 7, 10]))]})
    c.log("requests", len(reqs))
    ev = run(c, reqs, "structp.py")
    c.log("code done")
    c.judge("TraceStruct", ev)
    finish(c, ev, lambda e: e["r"].get("frame") == 1)


def c31(c):
    """frames in pieces"""
    x = L(c); r = c.rng
    c.model("MC_FrameStream", "INIT Init\nNEXT Next\nINVARIANT InvNotLost InvOnceInOrder InvKept InvWaits\nCHECK_DEADLOCK FALSE\n")
    pool = [o for o in (fg_octets(x, f, r if r.random() < 0.5 else None) for f in [fg_frame(x, status=None, tag=None) for _ in range(2000 if c.thorough else 300)] + list(flag_combinations(x))) if o]
    short = sorted(pool, key=len)[:40]
    def filled(total):                 # a frame of so many octets
        f = fg_frame(x, status=None, tag=None)
        k = x.alp.cmd(n=0, status=False, tag=None)
        for n in range(total, 60, -1):
            a = [["group", [0]], ["resp", [0]], ["op", [4]], ["o.fid", [64]], ["o.off", [0]], ["len", [n]], ["data", [r.choice([0, 192, 255, n]) for _ in range(n)]]]
            o = fg_octets(x, dict(f, cmd=dict(k, actions=[a])))
            if o and len(o) <= total: return o
    long_ = [filled(n) for n in [256, 255, 254] + [r.randint(200, 256) for _ in range(200 if c.thorough else 20)]]
    reqs = []
    def cut(s, cuts): return [s[a:b] for a, b in zip([0] + cuts, cuts + [len(s)])]
    def add(fg, pieces): reqs.append({"k": "stream", "fg": fg, "ops": [{"b": p, "how": r.randint(0, 1)} for p in pieces]})
    def bg(): return gen.encode(x.bg, x.s.tokens(x.bg))
    # every way to cut a short frame into two or three, with the beginning of another one behind it
    for s in r.sample(short, 20 if c.thorough else 4):
        for k in range(1, len(s)): add(1, [s[:k], s[k:], []])
        for k in range(1, len(s)):
            m = r.randrange(k, len(s) + 1); add(1, [s[:k], s[k:m], s[m:]])
        t = r.choice(short)
        for k in range(len(t) + 1): add(1, [s + t[:k], t[k:], [], []])
        add(1, [[o] for o in s + t])
    for s in long_:                    # long frames, also the longest there are
        for k in r.sample(range(1, len(s)), 3) + [len(s) - 1, len(s) - 2]: add(1, [s[:k], s[k:], []])
        k = r.randrange(1, len(s))
        add(1, [s[:k]] + [[o] for o in s[k:]] if len(s) - k < 60 else [s[:k]] + cut(s[k:], sorted(r.sample(range(1, len(s) - k), 5))))
    c.cov["longest_frame"] = max([len(s) for s in long_] or [0])
    for k in range(7): add(0, [bg()[:k], bg(), bg(), [], [], []])
    for _ in range(8000 if c.thorough else 700):
        fg = int(r.random() < 0.75)
        s = []
        n = r.randint(1, 6)
        for _ in range(n): s += (r.choice(short if r.random() < 0.5 else pool) if fg else bg())
        if r.random() < 0.2: s = s[:r.randrange(len(s))]
        if r.random() < 0.1: s += [r.randrange(256) for _ in range(r.randint(1, 9))]       # whatever it is
        cuts = sorted(r.randrange(len(s) + 1) for _ in range(r.choice([0, 1, 2, 3, 6, 12, 30])))
        ps = cut(s, cuts)
        for _ in range(r.choice([0, 1, n])): ps.append([])
        if r.random() < 0.1: ps = [[]] + ps
        add(fg, ps)
    c.log("requests", len(reqs))
    ev = []
    for q, res in zip(reqs, c.jython("structp.py", reqs)):
        if isinstance(res, dict):
            if "skipped" in res: continue
            res = []
        for o, z in zip(q["ops"], res): o["r"] = z
        ev.append(q)
    c.log("code done")
    c.judge_traces("TraceFrames", ev)
    c.cov["evaluations"] = sum(len(e["ops"]) for e in ev)
    good = [e for e in ev if sum(len(o["r"]["frames"]) for o in e["ops"] if "r" in o) > 1]
    c.cov["distinct_nontrivial"] = len({key(e) for e in good})
    for e in good[:3]: c.sample(e)


def c19(c):
    x = L(c); r = c.rng
    reqs = []
    fs = list(flag_combinations(x)) + list(fg_sweep(x, c.thorough))
    for _ in range(3000 if c.thorough else 350): fs.append(fg_frame(x, tag=None))
    for f in fs:
        if r.random() < 0.5:
            b = fg_octets(x, f, r if r.random() < 0.5 else None)
            if b is not None: reqs.append({"k": "fgrt", "b": b})
        else:
            gentag = int(f["cmd"]["kind"] == "req")
            f["cmd"] = dict(f["cmd"], kind="req" if gentag else "none", done=0, err=0)
            if not gentag: f["cmd"].update(tag=[], send=1)
            f["cmd"]["kind"] = "req" if gentag else "none"
            n = len(gen.encode(x.fg, f["head"])) + len(gen.encode(x.np, f["np"])) + len(gen.encode(x.tp, f["tp"])) + len(x.alp.octets(f["cmd"])) + 2
            if n > 256: continue
            if r.random() < 0.9: f["head"][0] = ["length", [n - 1]]
            reqs.append({"k": "fgbuild", "f": f, "gen": gentag})
    for toks in gen.sweep(x.s, x.bg, dense=True):
        if r.random() < 0.5: reqs.append({"k": "bgrt", "b": gen.encode(x.bg, toks)})
        else: reqs.append({"k": "bgbuild", "toks": toks})
    c.log("requests", len(reqs))
    ev = run(c, reqs, "structp.py")
    c.log("code done")
    c.judge("TraceStruct", ev)
    finish(c, ev, lambda e: e["r"].get("frame") == 1)
    c.assumptions.append("frames whose command carries an interface status are not serialised here (finding of C04)")


# ---------------------------------------------------------------------------------------- C23, C24
TOP = 4 ** 7 * 31


def c23(c):
    r = c.rng
    m = c.model("MC_CompressedTime", "INIT Init\nNEXT Next\nCONSTANT Step = %d\nINVARIANTS InRange Rounds Exact Minimal Refused\nCHECK_DEADLOCK FALSE\n" % (1 if c.thorough else 37))
    reqs = [{"k": "ctv", "exp": e, "mant": n} for e in range(8) for n in range(32)]
    def batch(a, step, n, up): reqs.append({"k": "ct", "from": a, "step": step, "n": n, "up": up, "expl": r.randint(0, 1)})
    for up in (0, 1):
        if c.thorough:
            for a in range(0, TOP + 1, 4096): batch(a, 1, min(4096, TOP + 40 - a), up)
        else:
            batch(0, 1, 700, up)
            for e in range(8):
                batch(max(0, 31 * 4 ** e - 40), 1, 80, up)                  # about the limits of an exponent
                for n in range(8, 32, 1 if e < 3 else 3): batch(max(0, n * 4 ** e - 2), 1, 5, up)
                batch(r.randrange(4 ** e), 4 ** e, 31, up)
            for _ in range(60): batch(r.randrange(TOP), r.choice([1, 2, 3, 1021, 4096, 8191]), 40, up)
        batch(TOP - 5, 1, 20, up)
        batch(TOP + 1, 99991, 30, up)
        batch(2 ** 20, 2 ** 20, 30, up)
    ev = run(c, reqs, "structp.py")
    c.log("code done")
    c.judge("TraceStruct", ev)
    finish(c, ev, lambda e: e["k"] == "ct" or e["r"].get("exc") == "")
    c.cov["durations"] = sum(e["n"] for e in ev if e["k"] == "ct")


def c24(c):
    r = c.rng
    c.model("MC_ChannelText", "INIT Init\nNEXT Next\nCONSTANT Step = %d\nINVARIANTS Reads Prefix\nCHECK_DEADLOCK FALSE\n" % (1 if c.thorough else 61))
    heads = [[b, k, m] for b in (2, 3, 4) for k in range(4) for m in (0, 2, 3)]
    idx = [0, 1, 5, 9, 10, 11, 19, 99, 100, 101, 109, 110, 999, 1000, 1001, 9999, 10000, 12345, 32767, 32768, 65534, 65535]
    reqs = []
    for h in heads:
        reqs.append({"k": "text", "ch": h})
        for n in idx + [r.randrange(65536) for _ in range(400 if c.thorough else 6)]: reqs.append({"k": "text", "ch": h + [n]})
    if c.thorough:
        for n in range(0, 65536): reqs.append({"k": "text", "ch": heads[n % len(heads)] + [n]})
    B, K, M = ["433", "868", "915"], "LRNH", "PFC"
    texts = []
    for _ in range(4000 if c.thorough else 500):
        h = r.choice(B) + r.choice(K) + r.choice(M)
        t = h + str(r.choice(idx)).zfill(r.choice([0, 3, 3, 5]))
        x = r.randrange(12)
        if x == 0: t = t[:r.randrange(len(t))]
        elif x == 1: i = r.randrange(len(t)); t = t[:i] + chr(r.randint(33, 126)) + t[i + 1:]
        elif x == 2: t = t.lower()
        elif x == 3: t = h + str(r.choice([65536, 65537, 70000, 99999, 1 << 20, 131071, 10 ** 8]))
        elif x == 4: t = r.choice(["000", "443", "866", "86", "8688", "43", "4330", "  8"]) + t[3:]
        elif x == 5: t = t[:3] + r.choice("ABCDEFGIJKMOQSTUVWXYZlrnh0") + t[4:]
        elif x == 6: t = t[:4] + r.choice("ABDEGHIJKLMNOQRSTUVWXYZpfc0") + t[5:]
        elif x == 7: t = t + r.choice(["x", ".", ".0", "L", "e3", "0x1"])
        elif x == 8: t = h + r.choice(["0x10", "1e3", "1.0", "--1", "abc", "\u00b2", "12a", "_1", "1_0"])
        elif x == 9: t = h + "%03d" % r.randrange(65536)
        texts.append((t, r.randint(0, 1) if len(t) <= 5 else 1))
    for b in ["433", "868", "915", "000", "916", "433.", "", "4"]:
        for k in "LRNHXlP ":
            for m in "PFCRXp ":
                texts.append((b + k + m, 0)); texts.append((b + k + m + "012", 1))
    for v in range(5): reqs.append({"k": "modew", "v": v})
    names = ["OFF", "CONT_TX", "TRANSIENT_TX", "PER_RX", "PER_TX"]
    for n in names + [n.lower() for n in names] + [n[:-1] for n in names] + [n + r.choice("_X 0") for n in names] + ["", "ON", "PER", "TX", "RX", "PER_TX_RX", "0", "1", "CONT-TX", "CONT_RX",
              "ENGINEERING_MODE_MODE_OFF", " OFF", "None"]: reqs.append({"k": "moder", "s": n})
    for p, vs in (("class", range(4)), ("coding", (0, 2, 3))):
        for v in vs: reqs.append({"k": "partw", "p": p, "v": v})
        for ch in range(256): reqs.append({"k": "partr", "p": p, "s": [ch]})
        for t in ("", "PP", "LL", "LP", "RN", "FE", "PN9"): reqs.append({"k": "partr", "p": p, "s": [ord(z) for z in t]})
    for t in B + ["434", "867", "916", "33", "4333", "", "86", "BAND_868", "86 8", "0868", "000", "2", "3"]: reqs.append({"k": "partr", "p": "band", "s": [ord(z) for z in t]})
    for t, i in texts:
        if all(ord(ch) < 256 for ch in t): reqs.append({"k": "read", "s": [ord(ch) for ch in t], "idx": i, "uni": r.randint(0, 1)})
    c.log("requests", len(reqs))
    ev = run(c, reqs, "structp.py")
    c.log("code done")
    c.judge("TraceStruct", ev)
    finish(c, ev, lambda e: e["r"].get("ok") == 1 or e["r"].get("back", -1) != -1)


# ---------------------------------------------------------------------------------------- C25, C27
FID = {"uid": [0], "factory": [1], "firmware": [2], "engmode": [5], "vid": [6], "phystatus": [9], "dllconfig": [10], "dllstatus": [11], "seckey": [14],
       "rootkey": [24], "userkey": [25], "access": list(range(32, 47))}
SIZE = [8, 56, 17, 19, 9, 9, 3, 0, 9, 45, 7, 16, 1, 5, 16, 4, 20, 1, 6, 10, 0, 0, 0, 1, 40, 40, 0, 0, 0, 0, 0, 0] + [65] * 15


def c25(c):
    x = L(c); r = c.rng
    reqs = []
    via = lambda: r.choice(["ctor", "ctor", "parse", "factory"])
    def add(fid, off, data): reqs.append({"k": "ret", "fid": fid, "off": off, "data": data, "via": via()})
    rounds = 40 if c.thorough else 5
    for n, items in sorted(x.files.items()):
        for fid in (FID[n] if c.thorough or len(FID[n]) == 1 else [32, 33, 39, 46, r.choice(FID[n])]):
            for _ in range(rounds):
                b = gen.encode(items, x.s.tokens(items), r) + PAD.get(n, [])
                add(fid, 0, b)
                add(fid, r.choice([1, 2, 63, 64, 65535, len(b)]), b)
                add(fid, 0, b + [r.randrange(256) for _ in range(r.choice([1, 1, 2, 40]))])
                add(fid, 0, b[:r.randrange(len(b))])
                add(fid, 0, gen.mutate(r, b))
                add(fid, 0, [r.randrange(256) for _ in range(SIZE[fid])])
                add(r.choice(range(64)), 0, b)
            for it, toks in illegal_tokens(x, items):
                if r.random() < 0.4 or c.thorough: add(fid, 0, gen.encode(items, toks) + PAD.get(n, []))
        if n not in ("access", "factory") or c.thorough:
            for toks in gen.sweep(x.s, items):
                if r.random() < (1 if c.thorough else 0.25): add(r.choice(FID[n]), 0, gen.encode(items, toks, r) + PAD.get(n, []))
    for fid in range(256):
        n = SIZE[fid] if fid < len(SIZE) else r.choice([0, 1, 8, 17, 65])
        for ln in {0, n, n + 1, max(0, n - 1)}: add(fid, 0, [r.choice([0, 0, r.randrange(128)]) for _ in range(ln)])
        add(fid, r.choice([1, 5, 300]), [0] * n)
    for k in range(0, 14):                                  # channel lists up to and beyond the file
        b = [0] * 12 + [0, 100, k] + [0x60, 5, 80] * k
        add(9, 0, b); add(9, 0, b + [0]); add(9, 0, b[:-1])
    c.log("requests", len(reqs))
    ev = run(c, reqs, "structp.py")
    c.log("code done")
    c.judge("TraceStruct", ev)
    finish(c, ev, lambda e: e["r"].get("rec") == 1)
    c.cov["not_interpreted"] = sum(1 for e in ev if e["r"].get("rec") == 0)


def c27(c):
    x = L(c); r = c.rng
    reqs = [{"k": "reg"}]
    layout = {f: n for n, fs in FID.items() for f in fs}
    def fwd():
        y = r.random()
        if y < 0.4: return []
        if y < 0.5: return [["f.iface", [0xD7]]]
        return [t for t in x.s.tokens(x.alp.ops[50]) if t[0].startswith("f.")]
    for fid in range(47):
        for _ in range(12 if c.thorough else 4):
            reqs.append({"k": "sys", "op": "read", "fid": fid, "size": SIZE[fid], "layout": "", "toks": [], "content": [], "fwd": fwd(), "reg": 1})
        n = layout.get(fid)
        for _ in range(60 if c.thorough else 8):
            if n:
                toks = x.s.tokens(x.files[n])
                for op in ("read", "write"):
                    reqs.append({"k": "sys", "op": op, "fid": fid, "size": SIZE[fid], "layout": n, "toks": toks, "content": [], "fwd": fwd()})
            else:
                d = [r.randrange(256) for _ in range(SIZE[fid])]
                for op in ("read", "write"):
                    reqs.append({"k": "sys", "op": op, "fid": fid, "size": SIZE[fid], "layout": "", "toks": [], "content": d, "fwd": fwd()})
        if not n: reqs.append({"k": "sys", "op": "write", "fid": fid, "size": SIZE[fid], "layout": "", "toks": [], "content": [0] * SIZE[fid], "fwd": fwd(), "reg": 1})
    for fid in (64, 200, 255):
        d = [r.randrange(256) for _ in range(r.choice([0, 1, 63, 64, 100]))]
        for op in ("read", "write"): reqs.append({"k": "sys", "op": op, "fid": fid, "size": len(d), "layout": "", "toks": [], "content": d, "fwd": fwd()})
    c.log("requests", len(reqs))
    ev = run(c, reqs, "structp.py")
    c.log("code done")
    c.judge("TraceStruct", ev)
    finish(c, ev, lambda e: e["r"].get("exc", "") == "")


# ---------------------------------------------------------------------------------------- C28, what is not a command
def stored(c):
    x = L(c); r = c.rng
    reqs = []
    for t, n, items in x.all():
        sw = gen.sweep(x.s, items)
        for toks in (sw if c.thorough else [y for y in sw if r.random() < 0.25]) + [x.s.tokens(items) for _ in range(200 if c.thorough else 12)]:
            reqs.append({"k": "sjson", "t": t, "n": n, "toks": toks})
    for _ in range(1500 if c.thorough else 60):
        b = fg_octets(x, fg_frame(x, tag=None))
        if b: reqs.append({"k": "fgjson", "b": b})
    ev = run(c, reqs, "structp.py")
    c.judge("TraceStruct", ev)
    return ev
