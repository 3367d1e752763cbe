"""Input generation.  Everything is sampled from the layouts exported by the specification; nothing here is
trusted: the specification judges every case, a mistake here only costs coverage."""

def walk(items, prefix=""):
    """all leaf field descriptors of a layout (conditional ones included)"""
    for it in items:
        if it["k"] == "if": yield from walk(it["sub"])
        elif it["k"] == "rep":
            for s in it["subs"]: yield from walk(s)
        elif "n" in it: yield it


def bounds(it):
    v = it["vals"]
    if it.get("range"): return [v[0], v[1]]
    return v


def interesting(it, dense=False):
    """candidate values of a field, boundaries and single bits first"""
    k = it["k"]
    if k in ("u", "s"):
        vals = it["vals"]
        if it.get("range"):
            lo, hi = vals
            s = {lo, lo + 1, hi, hi - 1, (lo + hi) // 2}
            w = hi.bit_length()
            for b in range(w): s |= {1 << b, hi ^ (1 << b)}
            s |= {0x1234 & hi, 0xABCD & hi, 9, 10, 99, 100, 999, 1000, 0xC0, 0xC000 & hi}
            return sorted(x for x in s if lo <= x <= hi)
        if dense or len(vals) <= 16: return sorted(vals)
        lo, hi = min(vals), max(vals)
        s = {lo, lo + 1, hi, hi - 1, 0, 1, 2, 4, 8, 16, 32, 64, 127, 128, 192, 255, 254, 170, 85, -1, -2, 63, 65, 48, 13, 10}
        return sorted(x for x in s if x in set(vals))
    if k == "L":
        return [0, 1, 2, 3, 10, 62, 63, 64, 65, 127, 128, 192, 255, 256, 257, 511, 512, 4096, 16382, 16383, 16384, 16385, 65535, 65536, 65537,
                1 << 20, 4194302, 4194303, 4194304, 4194305, 16777215, 16777216, 0x12345678, (1 << 30) - 2, (1 << 30) - 1]
    if k in ("w", "le"):
        c = it["c"]
        out = [[0] * c, [255] * c, [1] + [0] * (c - 1), [0] * (c - 1) + [1], [128] + [0] * (c - 1), [127] + [255] * (c - 1),
               [0] * (c - 1) + [128], list(range(1, c + 1)), [255] + [0] * (c - 1), [0] * (c - 1) + [255], [192] * c]
        for i in range(c):
            v = [0] * c; v[i] = 0x5A; out.append(v)
        return out
    return []


class Sampler:
    def __init__(self, rng, maxdata=40, maxlen=None):
        self.rng, self.maxdata, self.maxlen = rng, maxdata, maxlen
        self.force = {}

    def value(self, it):
        r = self.rng
        k = it["k"]
        if it["n"] in self.force and not (k in ("w", "le") and len(self.force[it["n"]]) != it["c"]): return self.force[it["n"]]
        if k in ("u", "s"):
            if it.get("range"):
                lo, hi = it["vals"]
                if r.random() < 0.5: return r.choice(interesting(it))
                return r.randint(lo, hi)
            if len(it["vals"]) > 16 and r.random() < 0.5: return r.choice(interesting(it))
            return r.choice(it["vals"])
        if k == "L":
            x = r.random()
            c = interesting(it)
            if self.maxlen is not None: c = [v for v in c if v <= self.maxlen]
            if x < 0.6: return r.choice(c)
            v = r.randrange(1 << r.choice([4, 6, 8, 14, 16, 22, 24, 30]))
            return v if self.maxlen is None or v <= self.maxlen else r.randint(0, self.maxlen)
        if k in ("w", "le"):
            x = r.random()
            if x < 0.3: return list(r.choice(interesting(it)))
            if x < 0.5: return [r.choice([0, 0, 255, 128, 127, 1, 192]) for _ in range(it["c"])]
            return [r.randrange(256) for _ in range(it["c"])]
        raise AssertionError(k)

    def octets(self, n):
        r = self.rng
        x = r.random()
        if x < 0.1: return [r.choice([0, 255, 192, 32, 35, 98])] * n
        return [r.choice([0xC0, 0, 255, r.randrange(256), r.randrange(256), r.randrange(256)]) for _ in range(n)]

    def tokens(self, items):
        toks, env = [], {}
        self._tok(items, toks, env)
        return toks

    def _tok(self, items, toks, env):
        datalen = {it["ln"] for it in items if it["k"] == "D"}
        for it in items:
            k = it["k"]
            if k == "r": continue
            if k == "D":
                d = self.force.get(it["n"])
                if d is None or len(d) != env[it["ln"]]: d = self.octets(env[it["ln"]])
                toks.append([it["n"], d])
            elif k == "if":
                if env[it["n"]] in it["vals"]: self._tok(it["sub"], toks, env)
            elif k == "rep":
                for s in it["subs"][:env[it["n"]]]: self._tok(s, toks, env)
            elif k in ("forbid", "unspec"):
                toks.append(["!", [0]])
            else:
                v = self.value(it)
                if it["n"] in datalen and it["n"] not in self.force:
                    v = self.rng.choice([0, 1, 2, 3, 4, 5, 8, 9, 16, 31, 62, 63, 64, 65, 100, self.rng.randint(0, 40)])
                    v = min(v, self.maxdata)
                if it["n"] == "n" and any(x["k"] == "rep" for x in items) and it["n"] not in self.force:
                    v = self.rng.randint(0, 4)
                env[it["n"]] = v
                toks.append([it["n"], list(v) if isinstance(v, list) else [v]])


def elen(v, size=None):
    m = 1 if v <= 63 else 2 if v <= 16383 else 3 if v <= 4194303 else 4
    size = max(m, size or m)
    out = [(v >> (8 * (size - 1 - i))) & 255 for i in range(size)]
    out[0] |= (size - 1) << 6
    return out


def encode(items, toks, rng=None):
    """octets of a token list; with rng: random reserved bits and longer length codings"""
    bits = []
    d = {}
    for n, v in toks: d.setdefault(n, v)
    def put(v, w): bits.extend((v >> (w - 1 - i)) & 1 for i in range(w))
    def go(items):
        for it in items:
            k = it["k"]
            if k == "r": put(rng.randrange(1 << it["w"]) if rng and rng.random() < 0.3 else 0, it["w"])
            elif k == "u": put(d[it["n"]][0], it["w"])
            elif k == "s": put(d[it["n"]][0] & 255, 8)
            elif k == "L":
                for o in elen(d[it["n"]][0], rng.randint(1, 4) if rng and rng.random() < 0.25 else None): put(o, 8)
            elif k in ("w", "D"):
                for o in d[it["n"]]: put(o, 8)
            elif k == "le":
                for o in reversed(d[it["n"]]): put(o, 8)
            elif k == "if":
                if d[it["n"]][0] in it["vals"]: go(it["sub"])
            elif k == "rep":
                for s in it["subs"][:d[it["n"]][0]]: go(s)
    go(items)
    while len(bits) % 8: bits.append(0)
    return [int("".join(map(str, bits[i:i + 8])), 2) for i in range(0, len(bits), 8)]


def sweep(sampler, items, dense=False, extra_force=None):
    """token lists in which every field takes each of its interesting values at least once"""
    leaves = []
    def cond(items, path):
        for it in items:
            if it["k"] == "if": cond(it["sub"], path + [(it["n"], it["vals"])])
            elif it["k"] == "rep":
                for j, s in enumerate(it["subs"]): cond(s, path + [(it["n"], list(range(j + 1, 5)))])
            elif "n" in it and it["k"] != "D": leaves.append((it, path))
    cond(items, [])
    datalens = {it["ln"] for it in walk(items) if it["k"] == "D"}
    for it, path in leaves:
        n = it["n"]
        vals = interesting(it, dense)
        if it["k"] == "L" and n in datalens: vals = [v for v in vals if v <= sampler.maxdata]
        if it["k"] == "L" and sampler.maxlen is not None: vals = [v for v in vals if v <= sampler.maxlen]
        if any(x["k"] == "rep" and x["n"] == n for x in items): vals = [v for v in vals if v <= 4]
        for v in vals:
            sampler.force = {m: sampler.rng.choice(vs) for m, vs in path}
            if extra_force: sampler.force.update(extra_force)
            sampler.force[n] = v
            yield sampler.tokens(items)
    sampler.force = {}


FILE_ID = {"uid": 0, "factory": 1, "firmware": 2, "engmode": 5, "vid": 6, "phystatus": 9, "dllconfig": 10, "dllstatus": 11, "seckey": 14, "rootkey": 24, "userkey": 25, "access": 32}


class Alp:
    def __init__(self, layouts, rng, maxdata=64, maxlen=None):
        self.ops = {op: l for op, l in layouts["actions"]}
        self.status = layouts["status"]
        self.rng = rng
        self.s = Sampler(rng, maxdata, maxlen)
        self.files = {FILE_ID[n]: l for n, l in layouts["files"] if n in FILE_ID}

    PLAIN_ENC = [0, 1, 2, 4, 6, 9, 17, 32, 33, 50, 51]
    PLAIN_DEC = [1, 4, 9, 17, 32, 33, 50, 51]

    def action(self, op):
        if op in (4, 32) and self.rng.random() < 0.25 and not self.s.force: return self.content(op)
        return self.s.tokens(self.ops[op])

    def content(self, op):
        """the (nearly) complete content of a system file"""
        r, s = self.rng, self.s
        fid = r.choice(sorted(self.files))
        old, s.force = s.force, {}
        b = encode(self.files[fid], s.tokens(self.files[fid]))
        x = r.random()
        if x < 0.1: b = b[:-1]
        elif x < 0.3 and fid == 5: b = b + [0, 0]
        if x > 0.85 and fid == 0x20: fid = r.randint(0x20, 0x2E)
        s.force = {"o.fid": fid, "o.off": 0 if r.random() < 0.9 else 1, "len": len(b), "data": b}
        t = s.tokens(self.ops[op])
        s.force = old
        return t

    def ifstatus(self):
        if self.rng.random() < 0.25: return [["iface", [self.rng.choice([1, 0xD7])]]]
        return [["iface", [0xD7]]] + self.s.tokens(self.status)

    def cmd(self, ops=None, n=None, status=None, tag=None):
        r = self.rng
        ops = ops or self.PLAIN_DEC
        n = r.choice([0, 1, 1, 1, 2, 2, 3, 4, 6]) if n is None else n
        c = {"tag": [], "kind": "none", "send": 1, "done": 0, "err": 0, "status": [], "actions": [self.action(r.choice(ops)) for _ in range(n)]}
        tag = r.choice(["none", "req", "resp", "resp"]) if tag is None else tag
        if tag != "none":
            c["tag"] = [r.choice([0, 1, 63, 64, 127, 128, 192, 255, r.randrange(256)])]
            c["kind"] = tag
            if tag == "req": c["send"] = r.randint(0, 1)
            else: c["done"], c["err"] = r.choice([(0, 0), (1, 0), (1, 1), (0, 1)])
        if status or (status is None and r.random() < 0.3): c["status"] = self.ifstatus()
        return c

    def enc_action(self, toks, rng=None):
        op = dict((t[0], t[1]) for t in toks)["op"][0]
        return encode(self.ops[op], toks, rng)

    def enc_status(self, st, rng=None):
        body = encode(self.status, st[1:], rng) if len(st) > 1 else []
        return [0x62, st[0][1][0], len(body)] + body

    def parts(self, c, rng=None):
        p = [self.enc_action(a, rng) for a in c["actions"]]
        return p

    def octets(self, c, rng=None):
        """octets of a command as a node would send it; tag and status may stand anywhere"""
        p = self.parts(c, rng)
        if c["status"]:
            p.insert(rng.randint(0, len(p)) if rng and rng.random() < 0.3 else 0, self.enc_status(c["status"], rng))
        if c["kind"] == "req": t = [c["send"] * 128 + 52, c["tag"][0]]
        elif c["kind"] == "resp": t = [c["done"] * 128 + c["err"] * 64 + 35, c["tag"][0]]
        else: t = None
        if t: p.insert(rng.randint(0, len(p)) if rng and rng.random() < 0.2 else 0, t)
        return [x for a in p for x in a]


def mutate(rng, b):
    """one small change of an octet string"""
    b = list(b)
    x = rng.randrange(6)
    if x == 0 and b: return b[:rng.randrange(len(b))]
    if x == 1 and b: i = rng.randrange(len(b)); b[i] ^= 1 << rng.randrange(8); return b
    if x == 2 and b: i = rng.randrange(len(b)); b[i] = rng.randrange(256); return b
    if x == 3: i = rng.randint(0, len(b)); return b[:i] + [rng.randrange(256)] + b[i:]
    if x == 4 and b: i = rng.randrange(len(b)); return b[:i] + b[i + 1:]
    return b + [rng.randrange(256) for _ in range(rng.randint(1, 4))]


def crc(b):
    c = 0xFFFF
    for x in b:
        c ^= x << 8
        for _ in range(8): c = ((c << 1) ^ 0x1021 if c & 0x8000 else c << 1) & 0xFFFF
    return c


def frame(payload, typ=1, counter=1, version=0, sync=0xC0, length=None, crcv=None):
    v = crc(payload) if crcv is None else crcv
    return [sync, version, counter, typ, len(payload) if length is None else length, v >> 8, v & 255] + list(payload)
