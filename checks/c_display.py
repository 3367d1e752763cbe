"""C30: texts, dictionaries and comparison of objects against spec/Display.tla."""
import gen, c_struct
from c_alp import run, finish

COMPARED = {"len", "chheader", "perm", "prop", "fileheader"}


def c30(c):
    x = c_struct.L(c); r = c.rng
    lay = c.layouts()
    labels = {n: [l[0] for l in ls] for n, ls in lay["labels"]}
    reqs = []
    def family(t, n, vs):
        vs = vs + [r.choice(vs)]            # the same value once more
        r.shuffle(vs)
        reqs.append({"k": "fam", "t": t, "n": n, "vs": vs, "labels": labels.get("act" if t == "act" else n, []), "cmp": int(t == "struct" and n in COMPARED), "twin": r.randint(0, 1)})
    def walk(t, n, items, force=None, dense=False):
        """for every field a family that varies it"""
        for it in gen.walk(items):
            if it["k"] in ("D",) or "n" not in it: continue
            base = None
            for _ in range(60):
                x.s.force = dict(force or {})
                base = x.s.tokens(items)
                if any(m == it["n"] for m, _ in base): break
            else: continue
            width = len([v for m, v in base if m == it["n"]][0])
            vs = [base]
            cand = gen.interesting(it, dense)
            reps = [z for z in flat(items) if z["k"] == "rep" and z["n"] == it["n"]]
            if reps: cand = [v for v in cand if v <= len(reps[0]["subs"])]
            if any(z["k"] == "D" and z["ln"] == it["n"] for z in flat(items)): cand = [0, 1, 2, 5, 63, 64, 100]
            for v in r.sample(cand, min(len(cand), 9 if dense else 5)):
                v = v if isinstance(v, list) else [v]
                y = [[m, v if m == it["n"] else w] for m, w in base]
                if len(v) == width and gen_ok(x, items, it, y): vs.append(y)
                else:
                    x.s.force = dict(force or {}); x.s.force[it["n"]] = v[0] if len(v) == 1 else v
                    z = x.s.tokens(items)
                    if any(m == it["n"] for m, _ in z): vs.append(z)
            x.s.force = {}
            family(t, n, vs)
    rounds = 4 if c.thorough else 1
    for _ in range(rounds):
        for t, n, items in x.all():
            if n in ("access", "accessprofile") and _ > 0: continue
            walk(t, n, items, dense=c.thorough)
            for _ in range(6 if c.thorough else 2): family(t, n, [x.s.tokens(items) for _ in range(r.randint(2, 8))])
        for op, items in sorted(x.alp.ops.items()):
            if op in (35, 52): continue
            walk("act", str(op), items)
        for _ in range(60 if c.thorough else 25):
            cmds = [x.alp.cmd() for _ in range(r.randint(1, 3))]
            for k in list(cmds):
                y = dict(k); y["tag"] = [(k["tag"][0] + 1) % 256] if k["tag"] else [3]
                if not k["tag"]: y["kind"] = "resp"
                cmds.append(y)
                if k["kind"] == "resp": cmds += [dict(k, done=a, err=b) for a in (0, 1) for b in (0, 1)]
                if k["actions"]: cmds += [dict(k, actions=k["actions"] + [k["actions"][0]]), dict(k, actions=[k["actions"][-1]] + k["actions"] + [k["actions"][-1]])]
                if len(k["actions"]) > 1: cmds += [dict(k, actions=k["actions"][1:]), dict(k, actions=k["actions"][::-1])]
                if k["status"]: cmds.append(dict(k, status=[]))
            if len(cmds) > 14: cmds = r.sample(cmds, 14)
            family("cmd", "", [x.alp.octets(k) for k in cmds])
        fr = list(c_struct.fg_sweep(x, False))
        r.shuffle(fr)
        for k in range(0, min(len(fr), 400 if c.thorough else 120), 4):
            vs = [o for o in (c_struct.fg_octets(x, f) for f in fr[k:k + 4]) if o]
            if vs: family("fg", "", vs)
    c.log("families", len(reqs))
    ev = run(c, reqs, "dispp.py")
    c.log("code done")
    c.judge("TraceDisplay", ev)
    finish(c, ev, lambda e: e["r"].get("exc") == "")


def gen_ok(x, items, it, y):
    """the changed field decides about others"""
    if any(z["k"] in ("if", "rep") and z["n"] == it["n"] for z in flat(items)): return False
    return not any(z["k"] == "D" and z["ln"] == it["n"] for z in flat(items))


def flat(items):
    for z in items:
        yield z
        if z["k"] == "if":
            for w in flat(z["sub"]): yield w
        elif z["k"] == "rep":
            for s in z["subs"]:
                for w in flat(s): yield w
