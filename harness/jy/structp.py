# Drives the real structures, system files, DLL frames, channel texts, compressed time and the system file registry.
import json
import jsonpickle
import drvlib
from drvlib import err
from bitstring import ConstBitStream
import d7model as M
import codec
from d7model import *
from d7a.dll.parser import Parser as DllParser, FrameType
from d7a.dll.foreground_frame import ForegroundFrame
from d7a.dll.background_frame import BackgroundFrame
from d7a.d7anp.frame import Frame as NpFrame
from d7a.d7atp.frame import Frame as TpFrame
from d7a.alp.parser import Parser as AlpParser
from d7a.system_files.system_file_ids import SystemFileIds
from d7a.system_files.system_files import SystemFiles

FAIL = (Exception,)
octs = codec.as_octets

# ---------------------------------------------------------------- structures and files
def project(q, o):
  if q["t"] == "file": return M.FILE[q["n"]][1](o)
  p, cls, proj, mk = M.STRUCT[q["n"]]
  return proj(p, o)

def parse(q, octets, r, tail=()):
  s = ConstBitStream(bytes=bytearray(list(octets) + list(tail)))
  try: o = (M.FILE[q["n"]][0] if q["t"] == "file" else M.STRUCT[q["n"]][1]).parse(s)
  except FAIL as e:
    r["ok"] = 0; r["why"] = err(e)
    return None
  r["ok"], r["pos"] = 1, int(s.pos)
  try: r["toks"] = project(q, o)
  except FAIL as e: r["odd"] = err(e)
  return o

def build(q):
  t = M.T(q["toks"], q.get("wrong"))
  if q["t"] == "file": return M.FILE[q["n"]][2](t, q)
  p, cls, proj, mk = M.STRUCT[q["n"]]
  return mk(t, p)

def printable(o):
  try: return 1 if isinstance(str(o), str) else 0
  except FAIL: return 0

def accepted(make, wrong=False):
  """built: the constructors take the value; acc: and it can be turned into octets"""
  r = {"acc": 0, "built": 0, "why": ""}
  try:
    o = make()
    r["built"] = 1
    out, ints = octs(o)
    bytearray(o)
    r["acc"] = 1 if ints or wrong else 0
    r["out"] = out[:64] if ints else []
  except FAIL as e: r["why"] = err(e)
  return r

def struct(q):
  k = q["k"]
  r = {"exc": "", "odd": "", "ok": 0, "pos": -1, "toks": [], "out": [], "again": [], "ints": 0, "len": -1, "str": 0}
  if k == "sdec":
    o = parse(q, q["b"], r, q.get("tail", ()))
    if o is not None: r["str"] = printable(o)
    return r
  if k == "slim": return accepted(lambda: build(q), "wrong" in q)
  try:
    o = build(q)
    r["out"], r["ints"] = octs(o)
    r["str"] = printable(o)
    r["again"] = octs(o)[0]
    if q["t"] == "file": r["len"] = int(o.length)
    if q["n"] == "addressee": r["idlen"] = [int(o.id_length), int(Addressee.length_for(o.id_type))]
  except FAIL as e:
    r["exc"] = err(e)
    return r
  if q["n"] != "ifconf" and r["ints"]: parse(q, r["out"], r)
  return r

def stored(q):
  """through JSON and back"""
  r = {"exc": "", "odd": "", "same": 0, "out": [], "again": [], "packed": [], "toks": [], "toks2": [], "head": [], "np": [], "tp": [], "crc": [], "cmd": codec.NOCMD,
       "frame": 0, "str": 0}
  try:
    o = dll(q["b"], True, {"odd": ""}, proj=False) if q["k"] == "fgjson" else build(q)
    r["out"] = octs(o)[0]
    t = jsonpickle.encode(o)
    json.loads(t)
    r["again"] = octs(o)[0]
    x = jsonpickle.decode(t)
    if type(x) is not type(o): raise codec.Odd("comes back as " + type(x).__name__)
    r["packed"] = octs(x)[0]
    if q["k"] == "fgjson":
      p_frame(x, r)
      r["frame"] = 1
    elif q["n"] != "ifconf": r["toks"], r["toks2"] = project(q, o), project(q, x)
    a, b = codec.members(o), codec.members(x)
    r["same"] = 1 if [p for p, _ in a] == [p for p, _ in b] and all(m is n for (_, m), (_, n) in zip(a, b)) else 0
    r["str"] = 1 if printable(x) == printable(o) else 0
  except FAIL as e: r["exc"] = err(e)
  return r

# ---------------------------------------------------------------- frames
def p_frame(f, r):
  h = [["length", [i(f.length)]], ["subnet", [i(f.subnet)]], ["idtype", [i(f.control.id_type.value)]], ["eirp", [i(f.control.eirp_index)]]]
  if list(f.target_address): h.append(["target", octets(f.target_address)])
  n = f.d7anp_frame
  np = M.p_npctrl("", n.control) + [["oac", [i(n.origin_access_class)]]]
  if list(n.origin_access_id): np.append(["origin", octets(n.origin_access_id)])
  t = n.d7atp_frame
  tp = M.p_tpctrl("", t.control) + [["dialog", [i(t.dialog_id)]], ["trans", [i(t.transaction_id)]]]
  if t.control.has_agc: tp.append(["agc", [i(t.agc_rx_level_i)]])
  for nm in ("tl", "te", "tc"):
    if getattr(t, nm) is not None: tp += M.p_ct(nm, getattr(t, nm))
  r["head"], r["np"], r["tp"], r["crc"], r["cmd"] = h, np, tp, [i(f.crc16)], M.p_cmd(t.alp_command)

def p_bg(f, r):
  c = f.control
  r["head"] = [["subnet", [i(f.subnet)]], ["idtype", [i(c.id_type.value)]], ["tag", [i(c.tag)]], ["payload", [i(f.payload)]], ["crc", [i(f.crc16)]]]

def dll(b, fg, r, exc="exc", proj=True, how=0):
  try:
    frames, info = DllParser(FrameType.FOREGROUND if fg else FrameType.BACKGROUND).parse(list(b) if how == 0 else bytearray(b))
    fs = [f for f in frames if f is not None]
  except FAIL as e:
    r[exc] = err(e)
    return None
  if len(fs) > 1:
    r["odd"] = "several frames"
  if not fs: return None
  if proj:
    r["frame"] = 1
    try: (p_frame if fg else p_bg)(fs[0], r)
    except FAIL as e: r["odd"] = err(e)
  return fs[0]

def stream(q):
  """one parser object, fed in pieces"""
  fg = q["fg"] == 1
  p = DllParser(FrameType.FOREGROUND if fg else FrameType.BACKGROUND)
  out = []
  for o in q["ops"]:
    r = {"exc": "", "frames": [], "parsed": -1, "left": -1, "nerr": 0}
    out.append(r)
    try:
      b = bytearray(o["b"])
      frames, info = p.parse(b if o.get("how") else list(b))
      if o.get("how"): b[:] = bytearray(len(b))       # the caller reuses its buffer
      for f in frames:
        if f is None: continue
        d = {"odd": "", "head": [], "np": [], "tp": [], "crc": [], "cmd": codec.NOCMD}
        try: (p_frame if fg else p_bg)(f, d)
        except FAIL as e: d["odd"] = err(e)
        r["frames"].append(d)
      r["parsed"], r["left"], r["nerr"] = int(info["parsed"]), int(info["buffer"]), len(info["errors"])
    except FAIL as e: r["exc"] = err(e)
  return out

def mk_fg(f, gen, wrong=None):
  h, n, t = [M.T(f[p], wrong[1:] if wrong and wrong[0] == p else None) for p in ("head", "np", "tp")]
  ct = lambda nm: M.mk_ct(t, nm) if t.has(nm + ".exp") else None
  cmd = codec.build({"cmd": f["cmd"], "gen": gen, "fix": 1 if f["cmd"]["tag"] else 0, "via": "ctor"})
  kw = {}
  if t.has("agc"): kw["agc_rx_level_i"] = t.v("agc")
  tp = TpFrame(control=M.mk_tpctrl(t, ""), dialog_id=t.v("dialog"), transaction_id=t.v("trans"), alp_command=cmd, tl=ct("tl"), te=ct("te"), tc=ct("tc"), **kw)
  np = NpFrame(control=M.mk_npctrl(n, ""), origin_access_class=n.v("oac"), origin_access_id=list(n.l("origin")) if n.has("origin") else [], d7atp_frame=tp)
  return ForegroundFrame(length=h.v("length"), subnet=h.v("subnet"), control=M.mk_fgctrl(h, ""), target_address=list(h.l("target")) if h.has("target") else [],
                         d7anp_frame=np, crc16=f["crc"][0] if not wrong or wrong[0] != "crc" else M.KINDS[wrong[2]](f["crc"][0]))

def mk_bg(toks, wrong=None):
  t = M.T(toks, wrong)
  return BackgroundFrame(subnet=t.v("subnet"), control=M.mk_bgctrl(t, ""), payload=t.v("payload"), crc16=t.v("crc"))

def frames(q):
  k = q["k"]
  fg = k.startswith("fg")
  if k in ("fglim", "bglim"): return accepted(lambda: mk_fg(q["f"], 0, q.get("wrong")) if fg else mk_bg(q["toks"], q.get("wrong")), "wrong" in q)
  r = {"exc": "", "exc2": "", "odd": "", "frame": 0, "had": 0, "head": [], "np": [], "tp": [], "crc": [], "cmd": codec.NOCMD, "out": [], "npout": [], "tpout": []}
  if k in ("fgdec", "bgdec"):
    dll(q["b"], fg, r, how=q.get("how", 0))
    return r
  if k in ("fgrt", "bgrt"):
    f = dll(q["b"], fg, r, proj=False)
    if f is None: return r
    r["had"] = 1
  else:
    try: f = mk_fg(q["f"], q["gen"]) if fg else mk_bg(q["toks"])
    except FAIL as e:
      r["exc"] = err(e)
      return r
  try:
    r["out"], ints = octs(f)
    if not ints: raise ValueError("not octets")
    if fg:
      r["npout"] = octs(f.d7anp_frame)[0]
      r["tpout"] = octs(f.d7anp_frame.d7atp_frame)[0]
  except FAIL as e:
    r["exc"] = err(e)
    return r
  dll(r["out"], fg, r, "exc2")
  return r

# ---------------------------------------------------------------- compressed time, channel text
def ct(q):
  if q["k"] == "ctv":
    r = {"exc": "", "int": -1, "dec": -1, "octet": -1, "out": [], "back": []}
    try:
      c = CT(exp=q["exp"], mant=q["mant"])
      r["int"], r["dec"], r["octet"], r["out"] = int(c), int(c.decompress()), int(c.compressed_value()), octs(c)[0]
      x = CT.parse(ConstBitStream(bytes=bytearray(r["out"])))
      r["back"] = [i(x.exp), i(x.mant)]
    except FAIL as e: r["exc"] = err(e)
    return r
  out = []
  for k in range(q["n"]):
    v = q["from"] + k * q["step"]
    try: c = CT.compress(v, True if q["up"] else False) if q.get("expl", 1) or not q["up"] else CT.compress(v)
    except FAIL: c = None
    try: out.append(-1 if c is None else int(c.compressed_value()))
    except FAIL: out.append(-2)
  return {"out": out}

def channel(q):
  r = {"exc": "", "ok": 0, "text": [], "back": []}
  if q["k"] == "text":
    c = q["ch"]
    try:
      h = ChannelHeader(channel_coding=ChannelCoding(c[2]), channel_class=ChannelClass(c[1]), channel_band=ChannelBand(c[0]))
      o = ChannelID(channel_header=h, channel_index=c[3]) if len(c) == 4 else h
      s = str(o)
    except FAIL as e:
      r["exc"] = err(e)
      return r
    r["text"] = [ord(x) for x in s]
    idx = len(c) == 4
  else:
    s, idx = "".join(chr(x) for x in q["s"]), q["idx"]
    if q.get("uni"): s = s.decode("latin-1")
  try:
    x = ChannelID.from_string(s) if idx else ChannelHeader.from_string(s)
    h = x.channel_header if idx else x
    r["back"] = [i(h.channel_band.value), i(h.channel_class.value), i(h.channel_coding.value)] + ([i(x.channel_index)] if idx else [])
    r["ok"] = 1
  except FAIL as e: r["why"] = err(e)
  return r

def names(q):
  r = {"exc": "", "back": -1, "text": ""}
  k = q["k"]
  if k == "modew":
    try: r["text"] = str(EngineeringModeMode(q["v"]))
    except FAIL as e:
      r["exc"] = err(e)
      return r
    s = r["text"]
  elif k == "partw":
    try:
      s = {"class": ChannelClass, "coding": ChannelCoding}[q["p"]](q["v"]).to_char()
      r["text"] = [ord(c) for c in s]
    except FAIL as e:
      r["exc"] = err(e)
      return r
  elif k == "moder": s = str(q["s"])
  else: s = "".join(chr(c) for c in q["s"])
  read = EngineeringModeMode.from_string if k[:4] == "mode" else {"band": ChannelBand.from_string, "class": ChannelClass.from_char, "coding": ChannelCoding.from_char}[q["p"]]
  try: r["back"] = i(read(s).value)
  except FAIL as e: r["why"] = err(e)
  return r

# ---------------------------------------------------------------- system files in commands
LAYOUT_OF = dict((v[0], k) for k, v in M.FILE.items())

def returned(q):
  r = {"exc": "", "odd": "", "rec": 0, "sid": -1, "file": "", "toks": [], "data": [], "fid": -1, "off": -1, "str": 0}
  try:
    if q["via"] == "ctor":
      op = ReturnFileData(operand=Data(data=list(q["data"]), offset=Offset(id=q["fid"], offset=Length(q["off"]))))
      act = RegularAction(operation=op)
    elif q["via"] == "factory":
      kw = {"offset": q["off"]} if q["off"] else {}
      act = Command.create_with_return_file_data_action(q["fid"], list(q["data"]), **kw).actions[0]
    else:
      o = [32, q["fid"]] + list(Length(q["off"])) + list(Length(len(q["data"]))) + q["data"]
      act = AlpParser().parse(ConstBitStream(bytes=bytearray(o)), len(o)).actions[0]
    op = act.operation
  except FAIL as e:
    r["exc"] = err(e)
    return r
  try:
    r["data"], r["fid"], r["off"] = octets(op.operand.data), i(op.operand.offset.id), i(op.operand.offset.offset.value)
    if (op.systemfile_type is None) != (op.file_data_parsed is None): raise Odd("half interpreted")
    if op.systemfile_type is not None:
      r["rec"], r["sid"] = 1, i(op.systemfile_type.id)
      x = op.file_data_parsed
      r["file"] = LAYOUT_OF.get(type(x), type(x).__name__)
      if r["file"] in M.FILE: r["toks"] = M.FILE[r["file"]][1](x)
  except FAIL as e: r["odd"] = err(e)
  r["str"] = printable(act)
  return r

def registry(q):
  s = SystemFiles()
  return {"ids": [[x.name, int(x.value)] for x in SystemFileIds],
          "files": [[int(k.value), int(f.id), int(f.length), LAYOUT_OF.get(f.__class__, "" if isinstance(f, NotImplementedFile) else f.__class__.__name__)] for k, f in s.files.items()],
          "all": [int(x.value) for x in s.get_all_system_files()]}

def syscmd(q):
  r = {"exc": "", "out": [], "tag": []}
  try:
    if q.get("reg"): f = SystemFiles().files[SystemFileIds(q["fid"])]
    elif q["layout"]: f = M.FILE[q["layout"]][2](M.T(q["toks"]), {"spec": q["fid"] - 32})
    else: f = NotImplementedFile(q["fid"], q["size"], data=list(q["content"]))
    kw = {}
    if q["fwd"]:
      t = M.T(q["fwd"])
      if len(q["fwd"]) == 1: kw["interface_type"] = InterfaceType(t.v("f.iface"))
      else: kw["interface_type"], kw["interface_configuration"] = M.mk_ifcfg(t, "f")
    if q["op"] == "read": c = Command.create_with_read_file_action_system_file(f, **kw)
    else: c = Command.create_with_write_file_action_system_file(f, **kw)
    r["tag"] = [] if c.tag_id is None else [int(c.tag_id)]
    r["out"] = octs(c)[0]
  except FAIL as e: r["exc"] = err(e)
  return r

def limits(q):
  if q["k"] == "tlim":
    if "wrong" in q: q["tag"] = M.KINDS[q["wrong"]](q["tag"])
    if q["how"] == 0: return accepted(lambda: Command(tag_id=q["tag"]), "wrong" in q)
    if q["how"] == 1: return accepted(lambda: TagId(q["tag"]), "wrong" in q)
    return accepted(lambda: Command.create_with_return_file_data_action(1, [1], tag_id=q["tag"]), "wrong" in q)
  return accepted(lambda: M.mk_action(q["toks"], q.get("wrong")), "wrong" in q)

def handle(q):
  k = q["k"]
  if k in ("sdec", "senc", "slim"): return struct(q)
  if k == "stream": return stream(q)
  if k in ("sjson", "fgjson"): return stored(q)
  if k[:2] in ("fg", "bg"): return frames(q)
  if k in ("ct", "ctv"): return ct(q)
  if k in ("text", "read"): return channel(q)
  if k in ("modew", "moder", "partw", "partr"): return names(q)
  if k == "ret": return returned(q)
  if k == "reg": return registry(q)
  if k == "sys": return syscmd(q)
  if k in ("alim", "tlim"): return limits(q)
  raise ValueError(k)

if __name__ == "__main__": drvlib.loop(handle)
