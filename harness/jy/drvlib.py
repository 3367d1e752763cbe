# Request loop of the Jython drivers: one JSON request per line in, one JSON result per line out.
import json, os, sys
sys.path.insert(0, os.environ.get("PYD7A_REPO", "/repo"))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

def err(e):
  return ("%s: %s" % (type(e).__name__, e))[:200]

def loop(handle):
  sys.stderr.write("READY\n")
  with open(sys.argv[1]) as f, open(sys.argv[2], "a") as o:
    for line in f:
      r = handle(json.loads(line))
      o.write(json.dumps(r, separators=(",", ":")) + "\n")
      o.flush()
