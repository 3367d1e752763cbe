# Looks at families of objects: their texts, their dictionaries and how they compare with each other.
import re
import enum
import drvlib
from drvlib import err
from bitstring import ConstBitStream
import d7model as M
import codec
import structp
from d7model import *
from d7a.alp.parser import Parser as AlpParser

FAIL = (Exception,)

def make(q, v):
  t = q["t"]
  if t in ("file", "struct"): return structp.build({"t": t, "n": q["n"], "toks": v, "spec": 3})
  if t == "act": return M.mk_action(v)
  if t == "status": return M.mk_ifstatus(v)
  if t == "cmd": return AlpParser().parse(ConstBitStream(bytes=bytearray(v)), len(v))
  f = structp.dll(v, t == "fg", {"odd": ""}, proj=False)
  if f is None: raise ValueError("no frame")
  return f

def leaf(v):
  if isinstance(v, enum.Enum): return "%s.%s" % (type(v).__name__, v.name)
  if v is None or isinstance(v, (bool, int, long, float, str, unicode)): return repr(v).rstrip("L")
  if isinstance(v, (bytearray, tuple)): return repr(list(v))
  return "<%s>" % type(v).__name__

def flat(p, v, out):
  if isinstance(v, dict):
    for k in v: flat(p + "/" + str(k), v[k], out)
  elif isinstance(v, (list, tuple)):
    out.append("%s#%d" % (p, len(v)))
    for i, x in enumerate(v): flat("%s/%d" % (p, i), x, out)
  elif hasattr(v, "as_dict"): out.append("%s=not a dictionary" % p)
  else: out.append("%s=%s" % (p, leaf(v)))

def fields(v, out, at=""):
  """the fields of every object in a dictionary, and where it is"""
  if isinstance(v, dict):
    if "__CLASS__" in v:
      x = [at + ":" + str(v["__CLASS__"]), " ".join(sorted(str(k) for k in v))]
      if x not in out: out.append(x)
    for k in v: fields(v[k], out, at + "/" + str(k))
  elif isinstance(v, (list, tuple)):
    for x in v: fields(x, out, at)

def behind(s, label):
  """what the text shows behind a label"""
  return [m.group(1) for m in re.finditer(r"(?<![A-Za-z0-9_-])" + re.escape(label) + r"([-A-Za-z0-9_.+]*)", s)]

def compared(f):
  """Jython orders the values of attribute dictionaries that differ, which enumerations refuse: then there is no answer (2)"""
  try: return int(bool(f()))
  except TypeError as e:
    if "unorderable" in str(e): return 2
    raise

def handle(q):
  r = {"exc": "", "text": [], "dict": [], "cls": [], "shown": [], "descr": [], "eq": [], "ne": [], "odd": [], "fields": [], "kept": 1}
  try:
    objs = [make(q, v) for v in q["vs"]]
    if q.get("twin"): twins = [make(q, v) for v in q["vs"]]
    else: twins = objs
    before = [codec.as_octets(o)[0] for o in objs]
    for o in objs:
      s = str(o)
      if not isinstance(s, str): raise ValueError("no text")
      r["text"].append(re.sub(r" at 0x[0-9a-f]+", "", s))
      r["shown"].append([behind(s, l) for l in q["labels"]])
      d = o.as_dict()
      r["cls"].append(1 if isinstance(d, dict) and d.get("__CLASS__") == type(o).__name__ else 0)
      f = []
      flat("", d, f)
      fields(d, r["fields"])
      r["dict"].append(" ".join(sorted(f)))
      if hasattr(o, "describe_actions"):
        s = o.describe_actions()
        r["descr"].append([s, ", ".join(str(a) for a in o.actions)])
        if [str(a) for a in o.actions if str(a) not in str(o)]: r["odd"].append("an action is missing in the text of the command")
        if o.interface_status is not None and str(o.interface_status) not in str(o): r["odd"].append("the interface status is missing in the text of the command")
    if q["cmp"]:
      for a in objs:
        r["eq"].append([compared(lambda: a == b) for b in twins])
        r["ne"].append([compared(lambda: a != b) for b in twins])
        for x in (None, 3.5, "x", object(), [1]):
          if (a == x) or (x == a) or not (a != x): r["odd"].append("equal to a %s" % type(x).__name__)
    r["kept"] = int([codec.as_octets(o)[0] for o in objs] == before)
  except FAIL as e: r["exc"] = err(e)
  return r

if __name__ == "__main__": drvlib.loop(handle)
