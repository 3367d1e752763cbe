# Drives the real ALP encoder/decoder.
import inspect
import json
import jsonpickle
import drvlib
from drvlib import err
from bitstring import ConstBitStream
from d7a.alp.parser import Parser
import d7model as M
from d7model import *
from enum import Enum

FAIL = (Exception,)

def as_octets(obj):
  """(octets, only integers?)"""
  l = list(obj)
  ints = 1
  for x in l:
    if isinstance(x, bool) or not isinstance(x, (int, long)) or not 0 <= x <= 255: ints = 0
  return ([int(x) if isinstance(x, (int, long)) else -1 for x in l], ints)

def encode(c, r):
  out, ints = as_octets(c)
  r["out"], r["ints"] = out, ints
  r["again"] = as_octets(c)[0]
  r["packed"] = [int(x) for x in bytearray(c)]

def decode(octets, r, sfx="", tail=()):
  s = ConstBitStream(bytes=bytearray(list(octets) + list(tail)))
  try:
    c = Parser().parse(s, len(octets))
  except FAIL as e:
    r["ok" + sfx] = 0
    r["why" + sfx] = err(e)
    return None
  r["ok" + sfx] = 1
  r["pos"] = int(s.pos)
  try:
    r["cmd" + sfx] = M.p_cmd(c)
    st = c.get_d7asp_interface_status()
    r["d7st"] = [] if st is None else [["iface", [0xD7]]] + M.p_spstatus("st", st)
  except FAIL as e:
    r["odd"] = err(e)
  return c

NOCMD = {"tag": [], "send": 1, "done": 0, "err": [], "status": [], "actions": []}

def build(q):
  cmd = q["cmd"]
  via = q.get("via", "ctor")
  acts = [M.mk_action(t) for t in cmd["actions"]]
  if cmd["status"]: acts.insert(q.get("stpos", 0) % (len(acts) + 1), M.mk_ifstatus(cmd["status"]))
  kw = {}
  if not q["gen"]: kw["generate_tag_request_action"] = False
  if via == "ctor":
    if q["fix"]: kw["tag_id"] = cmd["tag"][0]
    if not cmd["send"]: kw["send_tag_response_when_completed"] = False
    return Command(actions=acts, **kw)
  if via == "tagaction":
    t = TagRequestAction(respond_when_completed=bool(cmd["send"]), operation=TagRequest(operand=TagId(cmd["tag"][0])))
    acts.insert(q.get("tagpos", 0) % (len(acts) + 1), t)
    return Command(actions=acts, **kw)
  if via == "add":
    if q["fix"]: kw["tag_id"] = cmd["tag"][0]
    if not cmd["send"]: kw["send_tag_response_when_completed"] = False
    c = Command(**kw)
    for toks in cmd["actions"]:
      t = M.T(toks)
      op = t.v("op")
      if op == 50 and t.v("resp") == 0:
        iface, cfg = M.mk_ifcfg(t, "f")
        c.add_forward_action(interface_type=iface, interface_configuration=cfg)
      elif op == 51 and t.v("resp") == 0:
        over = M.mk_addressee(t, "a") if t.has("a.idtype") else None
        if not t.boo("overload") and q.get("drop"): over = Addressee(id_type=IdType.VID, id=7)
        c.add_indirect_forward_action(interface_file_id=t.v("ifile"), overload=t.boo("overload"), overload_configuration=over)
      else:
        c.add_action(M.mk_action(toks))
    return c
  raise ValueError(via)

def factory(q):
  a = q["a"]
  kw = {}
  if a["fwd"]:
    t = M.T(a["fwd"])
    if len(a["fwd"]) == 1:
      kw["interface_type"] = InterfaceType(t.v("f.iface"))
    else:
      kw["interface_type"], kw["interface_configuration"] = M.mk_ifcfg(t, "f")
  f = a["f"]
  if f == "read":
    if a["off"] or a.get("expl"): kw["offset"] = a["off"]
    return Command.create_with_read_file_action(a["fid"], a["len"], **kw)
  if f == "write":
    if a["off"] or a.get("expl"): kw["offset"] = a["off"]
    return Command.create_with_write_file_action(a["fid"], list(a["data"]), **kw)
  if f == "return":
    if a["off"] or a.get("expl"): kw["offset"] = a["off"]
    if q["fix"]: kw["tag_id"] = q["cmd"]["tag"][0]
    return Command.create_with_return_file_data_action(a["fid"], list(a["data"]), **kw)
  if f == "readhdr": return Command.create_with_read_file_header(a["fid"], **kw)
  h = M.mk_fileheader(M.T(a["hdr"]), "h")
  if f == "writehdr": return Command.create_with_write_file_header(a["fid"], h, **kw)
  if f == "create": return Command.create_with_create_new_file(a["fid"], h, **kw)
  raise ValueError(f)

def members(o, path=(), seen=None, depth=0):
  """all enumeration members reachable from an object, by path"""
  if seen is None: seen = []
  if isinstance(o, Enum): seen.append((path, o))
  elif depth < 12:
    if isinstance(o, (list, tuple)):
      for k, x in enumerate(o): members(x, path + (k,), seen, depth + 1)
    elif hasattr(o, "__dict__") and not inspect.isclass(o):
      for k in sorted(vars(o)): members(vars(o)[k], path + (k,), seen, depth + 1)
  return seen

def stored(q, r):
  c = build(q) if q["k"] == "jsonc" else Parser().parse(ConstBitStream(bytes=bytearray(q["b"])), len(q["b"]))
  before = as_octets(c)[0]
  r["cmd"] = M.p_cmd(c)
  t = jsonpickle.encode(c)
  json.loads(t)
  r["again"] = as_octets(c)[0]
  x = jsonpickle.decode(t)
  if type(x) is not type(c): raise Odd("comes back as " + type(x).__name__)
  r["out"], r["packed"] = before, as_octets(x)[0]
  r["cmd2"] = M.p_cmd(x)
  r["ints"] = 1 if M.p_cmd(c) == r["cmd"] else 0
  a, b = members(c), members(x)
  r["ok"] = 1 if [p for p, _ in a] == [p for p, _ in b] and all(m is n for (_, m), (_, n) in zip(a, b)) else 0
  st = x.get_d7asp_interface_status()
  r["d7st"] = [] if st is None else [["iface", [0xD7]]] + M.p_spstatus("st", st)
  r["str"] = 1 if isinstance(str(x), str) else 0

def handle(q):
  k = q["k"]
  r = {"exc": "", "odd": "", "tag": [], "out": [], "again": [], "packed": [], "ints": 0, "ok": 0, "ok2": 0, "pos": -1, "str": 0,
       "cmd": NOCMD, "cmd2": NOCMD, "d7st": []}
  if k in ("enc", "fact", "rt"):
    try:
      c = build(q) if k != "fact" else factory(q)
      r["tag"] = [] if c.tag_id is None else [int(c.tag_id)]
      encode(c, r)
    except FAIL as e:
      r["exc"] = err(e)
      return r
    if k == "rt": decode(r["out"], r) if r["ints"] else None
    return r
  if k == "dec":
    c = decode(q["b"], r, tail=q.get("tail", ()))
    if c is not None:
      try:
        if str(c) and isinstance(c.describe_actions(), str): r["str"] = 1
      except FAIL as e: r["odd2"] = err(e)
    return r
  if k == "rtb":
    c = decode(q["b"], r)
    if c is None: return r
    r["odd"] = ""
    try: encode(c, r)
    except FAIL as e:
      r["exc"] = err(e)
      return r
    if r["ints"]: decode(r["out"], r, "2")
    return r
  if k in ("jsonc", "jsonb"):
    try: stored(q, r)
    except FAIL as e: r["exc"] = err(e)
    return r
  raise ValueError(k)

if __name__ == "__main__": drvlib.loop(handle)
