# Drives the real serial parser: histories of parse and build calls.
import drvlib
from drvlib import err
import sys, os
import d7model as M
import codec
from d7a.serial_modem_interface.parser import Parser
from d7a.alp.command import Command
from d7a.support.Crc import calculate_crc

FAIL = (Exception,)

def p_msg(m):
  if isinstance(m, Command):
    try: return {"t": "cmd", "v": M.p_cmd(m), "odd": ""}
    except FAIL as e: return {"t": "cmd", "v": codec.NOCMD, "odd": err(e)}
  if isinstance(m, bool): return {"t": "?", "v": 0, "odd": "bool"}
  if isinstance(m, (int, long)): return {"t": "reboot", "v": int(m), "odd": ""}
  if isinstance(m, (str, bytearray)): return {"t": "octets", "v": [int(x) for x in bytearray(m)], "odd": ""}
  return {"t": "?", "v": 0, "odd": type(m).__name__}

def chunk(b, how):
  if how == 1: return str(bytearray(b))
  if how == 2: return list(b)
  return bytearray(b)

def feed(p, b, how=0):
  r = {"exc": "", "shape": "", "types": [], "msgs": [], "parsed": -1, "left": -1, "skipped": -1, "nerr": -1, "ec": -1}
  try:
    types, cmds, info = p.parse(chunk(b, how))
  except FAIL as e:
    r["exc"] = err(e)
    return r
  try:
    r["types"] = [int(x) for x in types]
    r["msgs"] = [p_msg(m) for m in cmds]
    r["parsed"] = int(info["parsed"])
    r["left"] = int(info["buffer"])
    r["skipped"] = sum(int(e["skipped"]) for e in info["errors"])
    r["nerr"] = len(info["errors"])
    r["ec"] = int(p.error_counter)
  except FAIL as e:
    r["shape"] = err(e)
  return r

def build(p, cmd):
  r = {"exc": "", "out": []}
  try:
    c = codec.build({"cmd": cmd, "gen": 1, "fix": 1, "via": "ctor"})
    if len(list(c)) > 255: pass
    r["out"] = [int(x) for x in bytearray(p.build_serial_frame(c))]
  except FAIL as e: r["exc"] = err(e)
  return r

def flip(f, bit):
  b = list(f)
  n = len(f) - 7
  o = bit // 8
  k = 7 + o if o < n else 5 + o - n
  b[k] ^= 128 >> (bit % 8)
  return b

def link(q):
  """two parsers joined by a lossy line in each direction"""
  ps = [Parser(x == 1) for x in q["raw"]]
  line = [[], []]        # what is under way to parser 0 and 1
  ops = []
  def deliver(side, n):
    b = line[side][:n]
    if not b: return
    del line[side][:n]
    ops.append({"k": "d", "side": side + 1, "n": len(b), "r": feed(ps[side], b)})
  for o in q["ops"]:
    if o["k"] == "d": deliver(o["side"], o["n"])
    else:
      r = build(ps[o["side"]], o["cmd"])
      f, fate, bit = r["out"], o["fate"], o["flip"]
      if fate == 2:
        if len(f) < 7: fate = 0
        else:
          bit %= 8 * (len(f) - 5)
          if 0xC0 in flip(f, bit)[1:]: fate = 0     # damage that looks like another frame: lost instead
      wire = [] if fate == 0 else f if fate == 1 else flip(f, bit)
      line[1 - o["side"]] += wire
      ops.append({"k": "s", "side": o["side"] + 1, "cmd": o["cmd"], "fate": fate, "flip": bit, "wire": wire, "r": r})
  for side in (0, 1): deliver(side, len(line[side]))
  return {"ops": ops}

def handle(q):
  if q["k"] == "link": return link(q)
  if q["k"] == "crc":
    out = []
    for m in q["ms"]:
      try:
        h, l = calculate_crc(bytes(bytearray(m)))
        out.append([int(h), int(l)])
      except FAIL as e: out.append([-1, -1])
    return {"crc": out}
  if q["k"] == "multi":   # several parsers used alternately
    ps = [Parser(h["raw"] == 1) for h in q["hs"]]
    rs = [[] for _ in ps]
    for j in q["order"]:
      o = q["hs"][j]["ops"][len(rs[j])]
      rs[j].append(feed(ps[j], o["b"]) if o["k"] == "f" else build(ps[j], o["cmd"]))
    return {"hs": rs}
  p = Parser(True) if q["raw"] else (Parser() if q.get("how", 0) == 0 else Parser(skip_alp_parsing=False))
  rs = []
  wire = []
  for o in q["ops"]:
    if o["k"] == "f": rs.append(feed(p, o["b"], q.get("how", 0)))
    else:
      x = build(p, o["cmd"])
      wire.extend(x["out"])
      rs.append(x)
  r = {"rs": rs}
  if q.get("loop"):   # what was built, received by another parser
    p2 = Parser(q["raw"] == 1)
    ops, i, j = [], 0, 0
    while i < len(wire):
      n = q["loop"][j % len(q["loop"])]; j += 1
      ops.append({"k": "f", "b": wire[i:i + n], "r": feed(p2, wire[i:i + n])})
      i += n
    r["loop"] = ops
  return r

if __name__ == "__main__": drvlib.loop(handle)
