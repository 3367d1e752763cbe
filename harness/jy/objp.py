# Histories of operations on many objects living at the same time: after every operation the octets and
# field values of every live object are observed; those that are new or not what they were are reported.
import copy
import json
import pickle
import jsonpickle
import drvlib
from drvlib import err
from bitstring import ConstBitStream
import d7model as M
import codec
import structp
from d7model import *
from d7a.alp.parser import Parser as AlpParser
from d7a.phy.channel_status_identifier import ChannelStatusIdentifier
from d7a.system_files.system_files import SystemFiles

FAIL = (Exception,)
SHARED = [ChannelStatusIdentifier(channel_band=ChannelBand.BAND_868, channel_index=7)]

# what is built leaving everything to the defaults
DEFAULTS = {
  "nop": ("act", "", lambda: RegularAction()),
  "read": ("act", "", lambda: RegularAction(operation=ReadFileData(operand=DataRequest(length=5)))),
  "write": ("act", "", lambda: RegularAction(operation=WriteFileData(operand=Data()))),
  "return": ("act", "", lambda: RegularAction(operation=ReturnFileData(operand=Data(data=[1, 2])))),
  "returnat": ("act", "", lambda: RegularAction(operation=ReturnFileData(operand=Data(data=[9], offset=Offset(id=66))))),
  "phystatus3": ("file", "phystatus", lambda: M.FILE["phystatus"][0](channel_status_list_length=3)),
  "phystatus2s": ("file", "phystatus", lambda: M.FILE["phystatus"][0](channel_status_list_length=2, channel_status_identifier=SHARED)),
  "fgctrl": ("struct", "fgctrl", lambda: M.STRUCT["fgctrl"][1](IdType.VID)),
}
for n in ("ct", "addressee", "qos", "configuration", "chstatus", "subband", "subprofile", "perm", "len", "offset"):
  DEFAULTS[n] = ("struct", n, M.STRUCT[n][1])
for n in ("uid", "factory", "engmode", "vid", "phystatus", "dllconfig", "dllstatus", "seckey", "rootkey", "userkey"):
  DEFAULTS[n] = ("file", n, M.FILE[n][0])

class Obj(object):
  def __init__(self, t, n, o): self.t, self.n, self.o, self.seen = t, n, o, None

  def observe(self):
    r = {"odd": "", "out": [], "v": []}
    try:
      o = self.o
      if self.t == "sys":
        r["v"] = [[int(k.value), int(f.id), int(f.length)] for k, f in sorted(o.files.items(), key=lambda x: x[0].value)]
        return r
      r["out"] = codec.as_octets(o)[0]
      if self.t == "cmd": r["v"] = M.p_cmd(o)
      elif self.t == "act": r["v"] = M.p_action(o)
      elif self.t == "fg":
        f = {}
        structp.p_frame(o, f)
        r["v"] = f
      elif self.n != "ifconf": r["v"] = structp.project({"t": self.t, "n": self.n}, o)
    except FAIL as e: r["odd"] = err(e)
    return r

def look(o, how):
  x = o.o
  if how == 0: str(x)
  elif how == 1: list(x) if hasattr(x, "__iter__") else None
  elif how == 2: bytearray(x) if hasattr(x, "__iter__") else None
  elif how == 3: x.as_dict() if hasattr(x, "as_dict") else repr(x)
  elif how == 4: x.describe_actions() if hasattr(x, "describe_actions") else repr(x)
  elif how == 5: jsonpickle.decode(jsonpickle.encode(x))
  elif how == 6: x.validate() if hasattr(x, "validate") else None
  elif how == 7: x == x, x != o
  elif how == 8: x.get_d7asp_interface_status() if hasattr(x, "get_d7asp_interface_status") else None
  elif how == 9: copy.copy(x)

def new(q, lists):
  k = q["op"]
  if k == "cmd":
    if "share" not in q: return Obj("cmd", "", codec.build(q))
    l = lists.get(q["share"])
    if l is None: l = lists[q["share"]] = [M.mk_action(t) for t in q["cmd"]["actions"]]
    kw = {} if q["gen"] else {"generate_tag_request_action": False}
    if q["fix"]: kw["tag_id"] = q["cmd"]["tag"][0]
    return Obj("cmd", "", Command(actions=l, **kw))
  if k == "bare": return Obj("cmd", "", Command(tag_id=q["tag"]) if q["tag"] >= 0 else Command())
  if k == "fact": return Obj("cmd", "", codec.factory(q))
  if k == "pcmd": return Obj("cmd", "", AlpParser().parse(ConstBitStream(bytes=bytearray(q["b"])), len(q["b"])))
  if k == "fg": return Obj("fg", "", structp.mk_fg(q["f"], q["gen"]))
  if k == "build": return Obj(q["t"], q["n"], structp.build(q))
  if k == "parse":
    s = ConstBitStream(bytes=bytearray(q["b"]))
    return Obj(q["t"], q["n"], (M.FILE[q["n"]][0] if q["t"] == "file" else M.STRUCT[q["n"]][1]).parse(s))
  if k == "dflt":
    t, n, f = DEFAULTS[q["name"]]
    return Obj(t, n, f())
  if k == "sys": return Obj("sys", "", SystemFiles())
  raise ValueError(k)

def add(o, q):
  c, t = o.o, M.T(q["toks"])
  if q["how"] == 1 and t.v("op") == 50:
    iface, cfg = M.mk_ifcfg(t, "f")
    c.add_forward_action(interface_type=iface, interface_configuration=cfg)
  elif q["how"] == 1 and t.v("op") == 51:
    c.add_indirect_forward_action(interface_file_id=t.v("ifile"), overload=t.boo("overload"), overload_configuration=M.mk_addressee(t, "a") if t.has("a.idtype") else None)
  else: c.add_action(M.mk_action(q["toks"]))

def handle(q):
  objs, lists, out = {}, {}, []
  for x in q["ops"]:
    r = {"exc": "", "seen": []}
    try:
      k = x["op"]
      if k == "add": add(objs[x["o"]], x)
      elif k == "look":
        try: look(objs[x["o"]], x["how"])
        except FAIL as e: r["note"] = err(e)
      elif k == "drop": del objs[x["o"]]
      else: objs[x["o"]] = new(x, lists)
    except FAIL as e: r["exc"] = err(e)
    for n, o in sorted(objs.items()):
      s = o.observe()
      if s != o.seen: r["seen"].append(dict(s, o=n))
      o.seen = s
    out.append(r)
  return {"rs": out}

if __name__ == "__main__": drvlib.loop(handle)
