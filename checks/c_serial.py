"""C05-C11: the serial interface against spec/Serial.tla."""
import json
import gen

MC = ("INIT Init\nNEXT Next\nINVARIANTS InvConservation InvIndependent InvUnspec InvRecovers Bounded PrefixBuffered\n"
      "PROPERTY Progress\nCHECK_DEADLOCK FALSE\n")
INV = "INVARIANTS InvBounded InvPrefix\n"


class Streams:
    def __init__(self, c):
        self.c, self.r = c, c.rng
        self.A = gen.Alp(c.layouts(), c.rng, maxdata=24, maxlen=70000)

    def payload(self, limit=255):
        r = self.r
        x = r.random()
        if x < 0.1: return []
        for _ in range(50):
            c = self.A.cmd(n=r.choice([0, 1, 1, 1, 2, 3]))
            p = self.A.octets(c, r if r.random() < 0.3 else None)
            if len(p) <= limit: return p
        return [35, 1]

    def octets(self, n):
        r = self.r
        pool = r.choice([[0xC0], [0xC0, 0], [0xC0, 0, 1, 2, 5, 7], list(range(256)), list(range(256))])
        return [r.choice(pool) for _ in range(n)]

    def frame(self, counter=None, typ=None, limit=255):
        """an intact frame with a deliverable payload"""
        r = self.r
        t = r.choice([1, 1, 1, 1, 2, 3, 4, 5, 0, 6, 7, 255, r.randrange(256)]) if typ is None else typ
        if t == 4: p = self.octets(r.choice([0, 1, 2, 5, 20, 255 if limit >= 255 else 9]))
        elif t == 5: p = [r.choice([0, 1, 5, 255])] + self.octets(r.choice([0, 0, 1, 4]))
        else: p = self.payload(limit)
        return gen.frame(p, t, r.randrange(256) if counter is None else counter)

    def piece(self):
        r = self.r
        x = r.randrange(16)
        if x < 6: return self.frame()
        f = self.frame(limit=60)
        if x == 6: f[r.choice([5, 6])] ^= 1 << r.randrange(8); return f                      # checksum
        if x == 7: i = r.randrange(len(f)); f[i] ^= 1 << r.randrange(8); return f            # any bit
        if x == 8: return f[:r.randrange(len(f))]                                              # truncated
        if x == 9: return gen.frame(self.octets(r.randint(1, 12)), r.choice([1, 1, 2, 3, 5, 9]))  # intact, payload arbitrary
        if x == 10: return gen.frame([], r.choice([1, 5, 5, 4]))                               # empty payloads
        if x == 11: return self.octets(r.choice([1, 1, 2, 3, 7, 30]))
        if x == 12: return gen.frame(f, 4, crcv=r.randrange(65536)) if r.random() < 0.6 else gen.frame(f, 4)   # nested
        if x == 13: return [0xC0, 0, r.randrange(256), r.choice([1, 4, 5]), r.choice([0, 1, 3, 20, 200, 255]), r.randrange(256), r.randrange(256)]
        if x == 14: return gen.frame(self.payload(80), 1, version=r.choice([1, 2, 0xC0]), sync=r.choice([0xC0, 0xC1]))
        return gen.frame(gen.mutate(r, self.payload(60)), 1)

    def stream(self, n=None):
        return [o for _ in range(n or self.r.choice([1, 2, 3, 4, 5, 8])) for o in self.piece()]


def cuts(r, b, style):
    if not b: return []
    if style == "one": return [b]
    if style == "octets": return [[x] for x in b]
    out, i = [], 0
    big = r.choice([2, 4, 8, 30, 100])
    while i < len(b):
        n = r.randint(1, big); out.append(b[i:i + n]); i += n
    return out


def feeds(chunks): return [{"k": "f", "b": x} for x in chunks]


def run(c, reqs):
    """replay on the real parser, then have the specification judge the histories"""
    res = c.jython("serialp.py", reqs)
    traces = []
    for q, r in zip(reqs, res):
        if "skipped" in r: continue
        if "dead" in r:
            traces.append({"raw": q["raw"], "ops": [dict(o, r={}) for o in q["ops"]], "dead": r["dead"]})
            continue
        traces.append({"raw": q["raw"], "ops": [dict(o, r=x) for o, x in zip(q["ops"], r["rs"])]})
        if r.get("loop"): traces.append({"raw": q["raw"], "ops": r["loop"]})
    c.log("code done:", len(traces), "histories")
    c.judge_traces("TraceSerial", [t for t in traces if t["ops"]], INV)
    c.cov["traces_validated_against_impl"] = c.cov.get("traces_validated_against_impl", 0) + len(traces)
    calls = [o for t in traces for o in t["ops"]]
    c.cov["evaluations"] = c.cov.get("evaluations", 0) + len(calls)
    c.cov["messages_delivered"] = c.cov.get("messages_delivered", 0) + sum(len(o["r"].get("msgs", [])) for o in calls)
    c.cov["octets_skipped"] = c.cov.get("octets_skipped", 0) + sum(max(0, o["r"].get("skipped", 0)) for o in calls)
    c.cov["distinct_nontrivial"] = c.cov.get("distinct_nontrivial", 0) + len({json.dumps([t["raw"], [o.get("b") for o in t["ops"]]]) for t in traces})
    for t in traces[:3]: c.sample({"raw": t["raw"], "ops": t["ops"][:3]})
    return traces


def hist(raw, chunks, how=0): return {"k": "h", "raw": raw, "ops": feeds(chunks), "how": how}


def mc(c, frags):
    out = c.path("streams.json")
    c.model("MC_Serial", MC, env={"MAXFRAG": frags, "OUT": out})
    c.log("model checked")
    return json.load(open(out))


def bulk(c, S, n, pieces=False):
    """long streams, delivered in one call, in big pieces, and in small ones"""
    r, reqs = c.rng, []
    for k in range(n):
        s = S.stream(r.choice([20, 60])) if pieces else [o for _ in range(r.choice([20, 60])) for o in S.frame()]
        raw = int(k % 3 == 2)
        reqs.append(hist(raw, [s], k % 3))
        big = r.choice([256, 300, 600, 1024])
        reqs.append(hist(raw, [s[i:i + big] for i in range(0, len(s), big)]))
        reqs.append(hist(raw, cuts(r, s, "some")))
    c.cov["longest_call_octets"] = max(len(o["b"]) for q in reqs for o in q["ops"])
    return reqs


def c05(c):
    S, r = Streams(c), c.rng
    reqs = []
    for _ in range(14000 if c.thorough else 1300):
        reqs.append(hist(int(r.random() < 0.2), cuts(r, S.stream(), r.choice(["one", "one", "some"])), r.choice([0, 1, 2])))
    for t in range(256):       # every type, every counter, every length
        reqs.append(hist(0, [S.frame(typ=t, counter=255 - t)]))
        reqs.append(hist(0, [gen.frame(S.octets(t), 4, t) + S.frame()]))
        reqs.append(hist(1, [gen.frame(S.octets(255 - t), 1, t) + S.frame()]))
    for s in mc(c, 2): reqs.append(hist(r.randint(0, 1), [s]))
    reqs += bulk(c, S, 60 if c.thorough else 6)
    run(c, reqs)


def c06(c):
    S, r = Streams(c), c.rng
    reqs = []
    streams = mc(c, 3 if c.thorough else 2)
    r.shuffle(streams)
    budget = 30000 if c.thorough else 4200
    for s in sorted(streams[:2000], key=len):
        n = len(s) - 1
        lim = 12 if c.thorough else 9
        masks = range(1 << n) if n <= lim else [0, (1 << n) - 1] + [r.randrange(1 << n) for _ in range(6)]
        raw = r.randint(0, 1)
        for m in masks:
            ch, cur = [], [s[0]]
            for i in range(n):
                if m >> i & 1: ch.append(cur); cur = []
                cur.append(s[i + 1])
            ch.append(cur)
            reqs.append(hist(raw, ch))
        if len(reqs) > budget: break
    for _ in range(1200 if c.thorough else 90):
        s = S.stream(r.choice([2, 3, 4]))
        raw = r.randint(0, 1)
        for st in ("one", "octets", "some", "some", "some"): reqs.append(hist(raw, cuts(r, s, st), r.choice([0, 1])))
    reqs += bulk(c, S, 60 if c.thorough else 8, True)
    c.cov["all_chunkings_up_to_octets"] = 13 if c.thorough else 10
    run(c, reqs)


def c07(c):
    S, r = Streams(c), c.rng
    mc(c, 3 if c.thorough else 2)
    reqs = []
    for _ in range(12000 if c.thorough else 1200):
        b = []
        for _ in range(r.choice([1, 2, 3, 4])): b += S.octets(r.choice([1, 2, 3, 8, 40])) if r.random() < 0.5 else S.piece()
        if r.random() < 0.3: b = gen.mutate(r, b)
        reqs.append(hist(r.randint(0, 1), cuts(r, b, r.choice(["one", "some", "some", "octets"])) + ([[]] if r.random() < 0.2 else []), r.choice([0, 1, 2])))
    for op in range(256):     # intact frames whose payload starts with every octet
        for n in (0, 1, 4, 24):
            reqs.append(hist(0, [gen.frame([op] + S.octets(n), 1)]))
    for n in (1000, 5000):    # long garbage, then an intact frame
        for pool in ([0], [0xC0], [0xC0, 0], [0xC0, 0, 1, 4, 7, 255]):
            b = [r.choice(pool) for _ in range(n)]
            reqs.append(hist(0, cuts(r, b, "some") + [[0] * 262] + [S.frame()]))
    reqs += bulk(c, S, 60 if c.thorough else 6, True)
    run(c, reqs)


def c08(c):
    r = c.rng
    S = Streams(c)
    c.model("MC_Crc", "INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nINVARIANTS Agrees OneBit TwoBits OddBits Injective Affine Check\n")
    c.log("model checked")
    ms = []
    for n in range(256):
        ms.append([0] * n); ms.append([255] * n); ms.append(S.octets(n)); ms.append([r.randrange(256) for _ in range(n)])
    for n in ([255] if not c.thorough else [255, 254, 128, 100, 17]):
        for b in range(8 * n): m = [0] * n; m[b // 8] = 1 << (b % 8); ms.append(m)
    for a in range(256): ms.append([a]); ms.append([a, 255 - a])
    ms.append([ord(x) for x in "123456789"])
    reqs = [{"k": "crc", "ms": ms[i:i + 40]} for i in range(0, len(ms), 40)]
    res = c.jython("serialp.py", reqs)
    c.judge("TraceCrc", [dict(q, r=x) for q, x in zip(reqs, res) if "skipped" not in x])
    c.cov["checksums_compared"] = len(ms)
    # damaged frames are skipped, the frame behind them is delivered
    hs = []
    good = gen.frame([35, 9], 1, 1)
    def wrong(p, typ, v):     # a checksum with a value of its own
        f = gen.frame(p, typ, r.randrange(256), crcv=v)
        hs.append(hist(r.randint(0, 1), [f + [0] * 262 + good]))
    for _ in range(200 if c.thorough else 25):
        typ = r.choice([1, 4, 5])
        p = S.octets(r.choice([1, 2, 5, 30, 255])) if typ != 1 else S.payload(200)
        v = gen.crc(p)
        for w in (0, 0xFFFF, v ^ 0xFFFF, (v & 255) << 8 | v >> 8, v ^ 0xFF, v & 0xFF00, v & 0xFF, gen.crc([0xC0, 0, 1, typ, len(p)] + p), gen.crc(p[:-1]), 0x1D0F):
            if w != v: wrong(p, typ, w)
    # checksums with few bits set, of which one, two or three are lost
    light = []
    while len(light) < (300 if c.thorough else 40):
        p = [r.randrange(256) for _ in range(r.choice([2, 3, 6]))]
        b = bin(gen.crc(p)).count("1")
        if 1 <= b <= 3 or b >= 13: light.append(p)
    for p in light:
        for typ in (4, 5):
            wrong(p, typ, 0 if bin(gen.crc(p)).count("1") < 8 else 0xFFFF)
    def damaged(p, typ, bits):
        f = gen.frame(p, typ, r.randrange(256))
        for b in bits:
            o = b // 8
            f[7 + o if o < len(p) else 5 + o - len(p)] ^= 128 >> (b % 8)
        hs.append(hist(r.randint(0, 1), [f + [0] * 262 + good] if r.random() < 0.5 else cuts(r, f + [0] * 262 + good, "some")))
    for p, typ in (([35, 7], 1), ([], 1), ([1, 2, 3, 4], 4), ([3], 5)):
        nb = 8 * (len(p) + 2)
        for i in range(nb): damaged(p, typ, [i])
        for i in range(nb):
            for j in range(i): damaged(p, typ, [i, j]) if r.random() < (1 if c.thorough else 0.3) else None
    for _ in range(6000 if c.thorough else 500):
        n = r.choice([0, 1, 2, 5, 20, 100, 255, r.randrange(256)])
        typ = r.choice([1, 4, 5])
        p = S.octets(n) if typ != 1 else S.payload(200)
        nb = 8 * (len(p) + 2)
        x = r.random()
        if x < 0.6: damaged(p, typ, r.sample(range(nb), r.choice([1, 2, 3])))
        else:
            w = r.randint(1, min(16, nb)); s = r.randint(0, nb - w)
            bits = {s, s + w - 1} | {s + k for k in range(w) if r.random() < 0.5}
            damaged(p, typ, sorted(bits))
    run(c, hs)


def c09(c):
    S, r = Streams(c), c.rng
    reqs = []
    def cmd(n=None): return S.A.cmd(ops=S.A.PLAIN_DEC, n=n, status=False, tag="req")
    def b(n=None): return {"k": "b", "cmd": cmd(n)}
    for L in ([600, 300, 270, 260] if not c.thorough else [3000, 1500, 800, 600, 530, 515, 300, 280]):
        reqs.append({"k": "h", "raw": 0, "ops": [b(r.choice([0, 1])) for _ in range(L)], "loop": [r.randint(1, 40) for _ in range(7)]})
        ops = []
        for _ in range(L):     # interleaved with receptions
            ops.append(b(0))
            if r.random() < 0.5: ops.append({"k": "f", "b": r.choice([S.frame(), gen.frame([35, 1], 1, len(ops) % 256), S.octets(3), S.piece()])})
        reqs.append({"k": "h", "raw": r.randint(0, 1), "ops": ops})
    for _ in range(3000 if c.thorough else 400):
        ops = []
        for _ in range(r.choice([1, 3, 6])):
            x = r.random()
            if x < 0.75: ops.append(b())
            elif x < 0.8:    # around and beyond the largest payload
                n = r.choice([240, 245, 246, 247, 248, 249, 250, 251, 252, 260])
                a = [["group", [0]], ["resp", [0]], ["op", [4]], ["o.fid", [64]], ["o.off", [0]], ["len", [n]], ["data", S.octets(n)]]
                ops.append({"k": "b", "cmd": dict(cmd(0), actions=[a])})
            else: ops.append({"k": "f", "b": S.piece() or [0]})
        reqs.append({"k": "h", "raw": 0, "ops": ops, "loop": [r.randint(1, 60) for _ in range(3)]})
    for n in range(236, 252):
        a = [["group", [0]], ["resp", [0]], ["op", [4]], ["o.fid", [64]], ["o.off", [0]], ["len", [n]], ["data", S.octets(n)]]
        reqs.append({"k": "h", "raw": 0, "ops": [b(), {"k": "b", "cmd": dict(cmd(0), actions=[a])}, b()], "loop": [300]})
    run(c, reqs)


def c10(c):
    S, r = Streams(c), c.rng
    reqs = []
    short = [[35, 7], [], [163, 1]]
    def fr(n): return gen.frame(r.choice(short), r.choice([1, 1, 2, 3]), n % 256) if r.random() < 0.8 else gen.frame([n % 256], r.choice([4, 5]), n % 256)
    # all short counter histories over the critical values
    vals = [0, 1, 2, 3, 127, 128, 254, 255]
    for a in vals:
        reqs.append(hist(0, [fr(a)]))
        for b in vals:
            for d in vals: reqs.append(hist(r.randint(0, 1), [fr(a), fr(b), fr(d)] if r.random() < 0.5 else [fr(a) + fr(b) + fr(d)]))
    if c.thorough:
        for a in range(256):
            for b in range(256): reqs.append(hist(0, [gen.frame([35, 1], 1, a), gen.frame([35, 1], 1, b)]))
    else:
        for a in range(256):
            for b in ((a + 1) % 256, a, (a + 2) % 256): reqs.append(hist(0, [gen.frame([35, 1], 1, a) + gen.frame([35, 1], 1, b)]))
    for _ in range(200 if c.thorough else 12):     # long histories with losses, duplicates, resets
        n, b = 1, []
        for _ in range(r.choice([300, 600])):
            x = r.random()
            if x < 0.03: n += r.choice([1, 2, 5, 255, 100])
            elif x < 0.05: n -= 1
            elif x < 0.06: n = r.choice([0, 1])
            b += fr(n); n += 1
        reqs.append(hist(0, cuts(r, b, r.choice(["one", "some"])) if len(b) < 3000 else [b[i:i + 400] for i in range(0, len(b), 400)]))
    for _ in range(4000 if c.thorough else 300):
        n, b = r.choice([0, 1, 250, 255]), []
        for _ in range(r.randint(1, 8)):
            b += S.frame(counter=n % 256, limit=30); n += r.choice([1, 1, 1, 2, 0, 255])
        reqs.append(hist(r.randint(0, 1), cuts(r, b, r.choice(["one", "some", "octets"]))))
    run(c, reqs)


def c11(c):
    S, r = Streams(c), c.rng
    mc(c, 2)
    reqs = []
    for n in range(256): reqs.append(hist(1, [gen.frame(S.octets(n), r.choice([0, 1, 2, 3, 4, 6]), n)]))
    for t in range(256): reqs.append(hist(1, [gen.frame([r.randrange(256) for _ in range(5)], t, t)]))
    for v in range(256): reqs.append(hist(v % 2, [gen.frame([v], 5, v) + gen.frame([v, 0, 192], 5, v)]))
    for v in range(256): reqs.append(hist(v % 2, [gen.frame([v] * 3, 4, v)]))
    for _ in range(12000 if c.thorough else 900):
        b = S.stream()
        for raw in ((1,) if r.random() < 0.7 else (0, 1)): reqs.append(hist(raw, cuts(r, b, r.choice(["one", "some", "octets"])), r.choice([0, 1, 2])))
    run(c, reqs)


LINK = "INIT Init\nNEXT Next\nINVARIANTS Refines Ordered Conserved Bounded\nCHECK_DEADLOCK FALSE\n"


def c32(c):
    S, r = Streams(c), c.rng
    c.model("MC_Link", LINK, env={"MAXSEND": 3 if c.thorough else 2})
    c.log("model checked")
    big = gen.Alp(c.layouts(), r, maxdata=120, maxlen=70000)

    def cmd():
        A = r.choice([S.A, S.A, big])
        x = r.random()
        if x < 0.15: return S.A.cmd(ops=S.A.PLAIN_DEC, n=0, status=False, tag="req")
        for _ in range(30):
            v = A.cmd(ops=A.PLAIN_DEC, n=r.choice([1, 1, 1, 2, 4]), status=False, tag="req")
            if len(A.octets(v)) <= 250: return v
        return S.A.cmd(ops=S.A.PLAIN_DEC, n=0, status=False, tag="req")

    def send(side, loss, harm):
        x = r.random()
        return {"k": "s", "side": side, "cmd": cmd(), "fate": 0 if x < loss else 2 if x < loss + harm else 1, "flip": r.randrange(4096)}

    reqs = []
    def history(n, duplex, loss, harm, sizes, wait):
        ops = []
        for _ in range(n):
            side = r.randint(0, 1) if duplex else 0
            ops.append(send(side, loss, harm))
            while r.random() > wait: ops.append({"k": "d", "side": r.randint(0, 1) if duplex else 1, "n": r.choice(sizes)})
        reqs.append({"k": "link", "raw": [int(r.random() < 0.15), int(r.random() < 0.15)], "ops": ops})
    for _ in range(4000 if c.thorough else 450):
        history(r.choice([1, 2, 3, 5, 9]), r.random() < 0.5, r.choice([0, 0, 0.2, 0.5]), r.choice([0, 0, 0.2, 0.5]),
                r.choice([[1], [1, 2, 3], [7, 8], [300], [1, 5, 20, 100]]), r.choice([0.2, 0.5, 0.9]))
    for k in range(40 if c.thorough else 6):      # the numbers wrap around, in both directions
        history(r.choice([300, 560]), k % 2 == 1, (0.05, 0, 0.3)[k % 3], (0, 0, 0.1, 0.05)[k % 4], [5, 30, 300], 0.4)
    traces = []
    for q, x in zip(reqs, c.jython("serialp.py", reqs)):
        if "skipped" in x: continue
        traces.append({"raw": q["raw"], "ops": [{"k": "dead"}] if "dead" in x else x["ops"]})
    c.log("code done:", len(traces), "histories")
    c.judge_traces("TraceLink", traces)
    ops = [o for t in traces for o in t["ops"]]
    c.cov["traces_validated_against_impl"] = len(traces)
    c.cov["evaluations"] = len(ops)
    c.cov["frames"] = {n: sum(1 for o in ops if o["k"] == "s" and o["fate"] == k) for k, n in enumerate(("lost", "intact", "damaged"))}
    c.cov["messages_delivered"] = sum(len(o["r"]["msgs"]) for o in ops if o["k"] == "d")
    c.cov["distinct_nontrivial"] = len({json.dumps(t["ops"][0].get("wire")) + str(len(t["ops"])) for t in traces if any(o["k"] == "d" and o["r"]["msgs"] for o in t["ops"])})
    for t in traces[:3]: c.sample({"raw": t["raw"], "ops": t["ops"][:3]})
