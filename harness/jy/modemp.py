# Runs the real Modem class under a controlled scheduler.
#
#  * every thread that executes modem or serial parser code stops at line granularity and continues only when the
#    scheduler (the main thread) lets it: one thread at a time, interleavings chosen by the request
#  * the serial port is a stand-in that records what is written and supplies the octets of the request's script
#  * time is virtual: it advances only when nothing can run.  Code that waits in a way that is not known here (a timed
#    wait on an event, say) is simply given real time, which is then added to the virtual time.
import sys, os, threading, types
import time as real_time
import datetime as real_datetime
import logging
import drvlib
from drvlib import err
from java.lang import Thread
from java.util.concurrent import TimeUnit
import Th
import d7model as M
import codec
from serialp import p_msg

logging.disable(logging.CRITICAL)
FAIL = (Exception,)
RUN = None   # the current run

# ------------------------------------------------------------------ stand-ins
class SerialException(IOError): pass
class SerialTimeoutException(SerialException): pass
NotOpen = SerialException("Attempting to use a port that is not open")

class FakeSerial(object):
  def __init__(self, *a, **kw):
    self.is_open = True
    self.timeout = kw.get("timeout")
    self.cancelled = False
    self.broken = False
    RUN.dev = self
  def isOpen(self): return self.is_open
  def _waiting(self): return len(RUN.line) if self.is_open else 0
  in_waiting = property(_waiting)
  def inWaiting(self): return self._waiting()
  def flush(self): RUN.pause()
  def reset_output_buffer(self): pass
  def cancel_write(self): pass
  def cancel_read(self): self.cancelled = True
  def open(self):
    if self.is_open: raise SerialException("Port is already open.")
    if RUN.openfails > 0:
      RUN.openfails -= 1
      RUN.log("op", ok=0)
      raise SerialException("could not open port")
    self.is_open = True
    self.broken = False
    RUN.log("op", ok=1)
  def close(self):
    if self.is_open:
      self.is_open = False
      RUN.log("cl")
  def read(self, size=1):
    r = RUN
    if not self.is_open:
      r.log("rf")
      raise SerialException("Attempting to use a port that is not open")
    r.log("rq")
    r.block(lambda: self.broken or self.cancelled or not self.is_open or len(r.line) >= size, None if self.timeout is None else self.timeout)
    if self.cancelled and not self.broken and len(r.line) < size:
      self.cancelled = False
      return self._take(min(size, len(r.line)))
    if self.broken or not self.is_open:
      r.log("rf")
      raise SerialException("device reports readiness to read but returned no data")
    return self._take(size)
  def _take(self, n):
    n = min(n, RUN.chunk) if RUN.chunk else n
    o, RUN.line = RUN.line[:n], RUN.line[n:]
    if o: RUN.log("rd", o=o)
    return str(bytearray(o))
  def write(self, data):
    r = RUN
    o = [int(x) for x in bytearray(data)]
    r.pause()
    c = r.me().call
    if r.writefails > 0:
      r.writefails -= 1
      r.log("wf", c=c)
      raise SerialException("write failed")
    if not self.is_open:
      r.log("wf", c=c)
      raise SerialException("Attempting to use a port that is not open")
    r.log("w", c=c, o=o)
    if c not in r.tags and len(o) > 8: r.tags[c] = o[8]
    if len(o) > 8: r.lasttag = o[8]
    r.writes += 1
    r.pause()
    return len(o)

ser = types.ModuleType("serial")
ser.Serial, ser.SerialException, ser.SerialTimeoutException = FakeSerial, SerialException, SerialTimeoutException
ser.portNotOpenError = NotOpen
ser.PARITY_NONE, ser.STOPBITS_ONE, ser.EIGHTBITS = "N", 1, 8
sys.modules["serial"] = ser

BASE = real_datetime.datetime(2020, 1, 1)
class VDateTime(real_datetime.datetime):
  @classmethod
  def now(cls, tz=None): return BASE + real_datetime.timedelta(milliseconds=RUN.V) if RUN else real_datetime.datetime.now()
  @classmethod
  def utcnow(cls): return cls.now()
  @classmethod
  def today(cls): return cls.now()
vdt = types.ModuleType("datetime")
for n in dir(real_datetime): setattr(vdt, n, getattr(real_datetime, n))
vdt.datetime = VDateTime
vt = types.ModuleType("time")
for n in dir(real_time):
  if not n.startswith("_") and n not in ("class", "classDictInit"):
    try: setattr(vt, n, getattr(real_time, n))
    except AttributeError: pass
def vsleep(d):
  r = RUN
  t = r.me() if r else None
  if t is None: return real_time.sleep(d)
  r.block(lambda: False, d)
vt.sleep = vsleep
vt.time = lambda: 1577836800.0 + RUN.V / 1000.0 if RUN else real_time.time()
vt.clock = lambda: RUN.V / 1000.0 if RUN else real_time.clock()

saved = sys.modules["time"], sys.modules["datetime"]
sys.modules["time"], sys.modules["datetime"] = vt, vdt
import modem.modem as MM
sys.modules["time"], sys.modules["datetime"] = saved
from d7a.alp.command import Command

REPO = os.environ.get("PYD7A_REPO", "/repo")

# ------------------------------------------------------------------ the gateway: stand-ins for MQTT and the logger
class FakeMqtt(object):
  """a broker connection that records what is published"""
  def __init__(self, *a, **kw): self.on_connect = self.on_message = self.on_disconnect = None
  def connect(self, *a, **kw): return 0
  def subscribe(self, *a, **kw): return (0, 1)
  def loop_start(self):
    if RUN.q.get("later"):
      def go():
        real_time.sleep(0.003)
        self.on_connect(self, None, {}, 0)
      th = threading.Thread(target=go)
      th.daemon = True
      th.start()
    else: self.on_connect(self, None, {}, 0)
  def loop_stop(self, *a, **kw): pass
  def disconnect(self, *a, **kw): pass
  def publish(self, topic, payload=None, *a, **kw):
    r = RUN
    m = {"t": "octets", "v": [], "odd": ""}
    try: m["v"] = [int(x) for x in bytearray(payload)]
    except FAIL as e: m["odd"] = err(e)
    if topic != r.q["topic"]: m["odd"] = "wrong topic"
    r.log("cb", m=m)
    if r.pubfails > 0:
      r.pubfails -= 1
      r.pubfailed += 1
      raise (ValueError, IOError, RuntimeError, TypeError, KeyError, OSError)[(r.pubfailed + r.q.get("seed", 0)) % 6]("publishing fails")
    return (0, 1)

def gateway_class():
  import imp
  paho, mq, client = types.ModuleType("paho"), types.ModuleType("paho.mqtt"), types.ModuleType("paho.mqtt.client")
  paho.mqtt, mq.client, client.Client, client.MQTTv31, client.MQTTv311 = mq, client, FakeMqtt, 3, 4
  sys.modules["paho"], sys.modules["paho.mqtt"], sys.modules["paho.mqtt.client"] = paho, mq, client
  lg = types.ModuleType("util.logger")
  lg.configure_default_logger = lambda *a, **kw: None
  sys.modules["util.logger"] = lg
  dont, sys.dont_write_bytecode = sys.dont_write_bytecode, True
  try: return imp.load_source("modem2mqtt", os.path.join(REPO, "tools", "modem2mqtt.py")).Modem2Mqtt
  finally: sys.dont_write_bytecode = dont
Th.suffixes = ["modem/modem.py", "serial_modem_interface/parser.py"]
def hook(frame, event, arg):
  Th.install()
  return None

(RUNNING, READY, KB, UB, DONE) = range(5)
BLOCKED = ("WAITING", "BLOCKED", "TIMED_WAITING")

spin = getattr(Thread, "yield")
class Abandoned(BaseException): pass

class Run(object):
  modem = gw = None
  def __init__(self, q):
    self.q = q
    self.V = 0.0
    self.ev, self.sealed = [], False
    self.line = []
    self.chunk = q.get("chunk", 0)
    self.pubfailed = self.pubfails = self.openfails = self.writefails = self.writes = self.rets = self.begun = self.looks = 0
    self.tags, self.lasttag = {}, 0
    Th.reset()
    self.msem = Th.msem
    import random
    self.rng = random.Random(q.get("seed", 0))
    for name, k in q.get("pre", ()): Th.preempt(name, k)
    self.mean = q.get("mean", 0)
    Th.mean = int(self.mean)
    self.results = []

  # ------------------------------------------------ called by the threads
  def log(self, e, **kw):
    if self.sealed or len(self.ev) > 20000: return
    kw["e"], kw["v"] = e, int(self.V)
    self.ev.append(kw)

  threads = property(lambda self: Th.threads)
  over = property(lambda self: Th.over)

  def me(self): return Th.me()

  def pause(self):
    Th.point(0)
    if Th.over and Th.me() is not None: raise Abandoned()

  def block(self, pred, seconds):
    t = Th.me()
    if t is None: raise Abandoned()
    if not Th.over:
      t.pred = pred
      t.wake = -1 if seconds is None else self.V + 1000.0 * seconds
      t.handOver(KB)
    if Th.over: raise Abandoned()

  # ------------------------------------------------ callers
  def caller(self, name, ops):
    t = Th.register(name)
    try:
      t.handOver()
      Th.install()
      for o in ops: self.op(t, o)
    except Abandoned: pass
    finally:
      Th.uninstall()
      t.state = DONE
      self.msem.release()

  def op(self, t, o):
    k = o["k"]
    m = self.modem
    if k == "sleep": return self.block(lambda: False, o["d"] / 1000.0)
    if k == "until": return self.block(lambda: self.guard(o["g"]), None)
    if k == "stop":
      self.log("stop")
      exc = ""
      try: m.stop_reading()
      except Abandoned: raise
      except FAIL as e: exc = err(e)
      rd = [x for x in self.threads if x.name == "reader"]
      self.log("stopped", alive=int(any(x.jt.isAlive() and str(x.jt.getState()) != "TERMINATED" for x in rd)), exc=exc)
      return
    if k == "start":
      self.log("start")
      n, t0 = len(self.threads), real_time.time()
      m.start_reading()
      while len(self.threads) == n and real_time.time() - t0 < 2: spin()
      return
    if k in ("get", "clr"):
      self.looks += 1
      c = 1000 + self.looks
      self.log("lb", c=c, k=k, l=o["l"])
      items = []
      if k == "get": items = self.items(o["l"])
      elif o["l"] == "unsol": m.clear_unsolicited_responses_received()
      else: m.clear_rebooted_received()
      self.log("le", c=c, items=items)
      return
    self.begun += 1
    c = t.call = self.begun
    r = {"exc": "", "res": []}
    if k == "gateway":
      self.log("call", c=c, k="connect", tag=0, to=10000, check=1)
      argv, sys.argv = sys.argv, ["modem2mqtt"] + o["argv"]
      try: self.gw = gateway_class()()
      except Abandoned: raise
      except (Exception, SystemExit) as e: r["exc"] = err(e)
      finally: sys.argv = argv
      self.modem = self.gw.modem
      r["uid"], r["fw"] = [], []
      self.log("ret", c=c, val=1, conn=int(bool(self.modem.connected)), **r)
    elif k == "exec":
      cmd = codec.build({"cmd": o["cmd"], "gen": 1, "fix": 1, "via": "ctor"})
      self.log("call", c=c, k="exec", tag=o["cmd"]["tag"][0], cmd=o["cmd"], to=o["to"], check=0)
      res = None
      try:
        if o.get("how") == "async": res = m.execute_command_async(cmd)
        elif o.get("how") == "default": res = m.execute_command(cmd)
        else: res = m.execute_command(cmd, o["to"] / 1000.0) if o.get("how") == "pos" else m.execute_command(cmd, timeout_seconds=o["to"] / 1000.0)
      except Abandoned: raise
      except FAIL as e: r["exc"] = err(e)
      if res is None: res = []
      r["res"] = [p_msg(x) for x in res]
      self.results.append((c, res))
      self.log("ret", c=c, **r)
    else:
      self.log("call", c=c, k="connect", tag=0, to=10000, check=o["check"])
      val = None
      try: val = m.connect() if o["check"] and o.get("bare") else m.connect(check_alive=bool(o["check"]))
      except Abandoned: raise
      except FAIL as e: r["exc"] = err(e)
      uid, fw = m.uid, m.firmware_version
      r["uid"] = [int(x, 16) if x in "0123456789abcdef" else 99 for x in uid] if isinstance(uid, (str, unicode)) else [98]
      try: r["fw"] = [int(fw.d7a_protocol_version_major), int(fw.d7a_protocol_version_minor), int(fw.filesystem_version_major), int(fw.filesystem_version_minor)] + [ord(x) for x in fw.application_name] + [ord(x) for x in fw.git_sha1]
      except FAIL: r["fw"] = []
      self.log("ret", c=c, val=1 if val is True else 0 if val is False else 2, conn=int(bool(m.connected)), **r)
    t.call = 0
    self.rets += 1

  def items(self, l):
    return [p_msg(x) for x in list(self.modem.get_unsolicited_responses_received() if l == "unsol" else self.modem.get_rebooted_received())]

  # ------------------------------------------------ environment
  def guard(self, g):
    for k, v in (g or {}).items():
      if k == "w" and self.writes < v: return False
      if k == "t" and self.V < v: return False
      if k == "r" and self.rets < v: return False
      if k == "b" and self.begun < v: return False
      if k == "e" and self.envdone < v: return False
      if k == "d" and self.V < self.lastenv + v: return False
    return True

  def env_time(self, g):
    ts = [v for k, v in (g or {}).items() if k == "t"] + [self.lastenv + v for k, v in (g or {}).items() if k == "d"]
    ts = [x for x in ts if x > self.V]
    others = dict((k, v) for k, v in (g or {}).items() if k not in ("t", "d"))
    return max(ts) if ts and self.guard(others) else None

  def env(self, o):
    k = o["o"]
    self.lastenv = self.V
    if k == "rx": self.line.extend(o["b"])
    elif k == "resp":   # a response to the last command written; -1 stands for its tag
      p = [self.lasttag if x == -1 else x for x in o["p"]]
      c = crc(p)
      self.line.extend([0xC0, 0, o["n"], o["ty"], len(p), c >> 8, c & 255] + p)
    elif k == "fail":
      self.openfails = o.get("of", 0)
      self.dev.broken = True
    elif k == "wfail": self.writefails += 1
    elif k == "pfail": self.pubfails += 1
    elif k == "nop": pass
    else: raise ValueError(k)

  # ------------------------------------------------ the scheduler
  def await_running(self, t):
    quiet, last = 0, -1
    t0 = real_time.time()
    while t.state == RUNNING:
      if self.msem.tryAcquire(1, TimeUnit.MILLISECONDS): continue
      s = str(t.jt.getState())
      if s == "TERMINATED":
        t.state = DONE
        return
      if s in BLOCKED and t.n == last and t.state == RUNNING:
        quiet += 1
        if quiet >= 4:
          t.blocked()
          return
      else: quiet, last = 0, t.n
      if real_time.time() - t0 > 20:
        self.hang = 1
        return

  def settle(self):
    """threads that were blocked in an unknown way and can run again are given the time to reach the scheduler"""
    for _ in range(200):
      busy = False
      for t in self.threads:
        if t.state == UB:
          s = str(t.jt.getState())
          if s == "TERMINATED": t.state = DONE
          elif s not in BLOCKED: busy = True
      if not busy: return
      real_time.sleep(0.0005)

  def drive(self):
    q = self.q
    envs = list(q["env"])
    self.envdone, self.lastenv = 0, 0.0
    self.hang = 0
    current = None
    idle_since = None
    self.steps = 0
    while True:
      self.steps += 1
      if self.steps > 200000 or len(self.ev) > 10000: self.hang = 1
      if self.hang: return
      self.settle()
      snap = [(t, t.state) for t in self.threads]
      ready = [t for t, st in snap if st == READY or (st == KB and (t.pred() or (t.wake >= 0 and t.wake <= self.V)))]
      e = envs[0] if envs and self.guard(envs[0].get("g")) else None
      if Th.preempted is not None:      # the preempted thread goes last, the environment acts first
        hold = Th.preempted
        if e is not None: pick = "env"
        else:
          rest = [t for t in ready if t is not hold]
          if rest: pick = rest[0]
          else:
            Th.preempted = None
            pick = hold if hold in ready else None
      elif self.mean:
        c = list(ready)
        if e is not None: c += ["env"] * (1 if self.rng.random() < 0.7 else 2)
        pick = self.rng.choice(c) if c else None
      else:
        pick = current if current in ready else ready[0] if ready else "env" if e is not None else None
        if e is not None and q.get("eager"): pick = "env"
      if pick is None:
        waits = [t.wake for t, st in snap if st == KB and t.wake >= 0]
        if envs:
          x = self.env_time(envs[0].get("g"))
          if x is not None: waits.append(x)
        odd = [t for t, st in snap if st == UB]
        timed = [t for t in odd if str(t.jt.getState()) == "TIMED_WAITING"]
        if timed or (odd and not waits):
          if idle_since is None: idle_since = real_time.time(); self.V0 = self.V
          real_time.sleep(0.002)
          d = real_time.time() - idle_since
          self.V = self.V0 + 1000.0 * d
          if not timed and d > 3: self.hang = 1
          if d > 40: self.hang = 1
          continue
        if waits:
          if not envs and self.V > self.lastenv + 120000 and not [t for t, st in snap if st != DONE and t.name != "reader"]:
            return                          # a reader that polls
          self.V = max(self.V, min(waits))
          if self.V > 4000000: self.hang = 1
          continue
        live = [t for t, st in snap if st != DONE and t.name != "reader"]
        if envs and not live and envs[0].get("g") is not None: self.unreached = 1
        if live or envs: self.hang = 1 if live else 0
        return
      idle_since = None
      if pick == "env":
        self.env(envs.pop(0))
        self.envdone += 1
        continue
      current = pick
      if self.mean: pick.budget = 1 + int(self.rng.expovariate(1.0 / self.mean))
      pick.go()
      self.await_running(pick)
      if pick.state == DONE and pick.name == "reader": pass

  def spawn(self, name, ops):
    n = len(self.threads)
    th = threading.Thread(target=self.caller, args=(name, ops))
    th.daemon = True
    th.start()
    self.await_new(n)

  def await_new(self, n):
    t0 = real_time.time()
    while len(self.threads) <= n and real_time.time() - t0 < 5: self.msem.tryAcquire(1, TimeUnit.MILLISECONDS)

  def go(self):
    q = self.q
    cfg = q["cfg"]
    kw = {}
    if cfg["cb"]: kw["unsolicited_response_received_callback"] = lambda m: self.log("cb", m=p_msg(m))
    if cfg["rb"]: kw["rebooted_callback"] = lambda m: self.log("rb", m=p_msg(m))
    if cfg["raw"]: kw["skip_alp_parsing"] = True
    threading.settrace(hook)
    try:
      if not q.get("topic"):
        self.modem = MM.Modem("dev", 115200, **kw)
        self.await_new(0)
    finally: threading.settrace(None)
    for i, ops in enumerate(q["callers"]): self.spawn("c%d" % (i + 1), ops)
    threading.settrace(hook)       # for readers started later
    try: self.drive()
    finally: threading.settrace(None)
    hang = self.hang
    readers = [t for t in self.threads if t.name == "reader"]
    if q.get("reading", 1) and not any(t.state == KB for t in readers): hang = 1
    for l in ("unsol", "reb"): self.log("get", l=l, items=self.items(l))
    for c, res in self.results: self.log("chk", c=c, res=[p_msg(x) for x in res])
    self.log("end", left=len(self.line), hang=hang)
    # clean up: let every thread run to its end
    self.sealed = True
    Th.over = True
    self.modem._read_async_active = False
    self.dev.cancelled = True
    for t in self.threads: t.sem.release(1000)
    for e in self.ev:
      if e["e"] == "call" and e["k"] == "connect": e["tag"] = self.tags.get(e["c"], 0)
    return {"ev": compress(self.ev), "points": dict((t.name, [int(x) for x in t.main]) for t in self.threads) if self.q.get("points") else {}, "left": len(self.ev), "steps": self.steps}

def compress(ev):
  """consecutive reads with nothing observable in between are one read"""
  out = []
  for e in ev:
    if e["e"] == "rd" and len(out) >= 2 and out[-1]["e"] == "rq" and out[-2]["e"] == "rd":
      out.pop()
      out[-1] = dict(e, o=out[-1]["o"] + e["o"])
      continue
    if e["e"] == "rq" and out and out[-1]["e"] == "rq": continue
    out.append(e)
  return out

def crc(b):
  c = 0xFFFF
  for x in b:
    c ^= x << 8
    for _ in range(8): c = ((c << 1) ^ 0x1021 if c & 0x8000 else c << 1) & 0xFFFF
  return c

def handle(q):
  global RUN
  RUN = Run(q)
  try: return RUN.go()
  finally: RUN = None

if __name__ == "__main__": drvlib.loop(handle)
