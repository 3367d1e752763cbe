import java.util.*;
import java.util.concurrent.*;
import org.python.core.*;

/** A thread under the control of the scheduler: runs only while it holds the token. */
public class Th {
  public static final int RUNNING = 0, READY = 1, KB = 2, UB = 3, DONE = 4;
  public static volatile int runId = 0;
  public static volatile boolean over = true;
  public static volatile Semaphore msem = new Semaphore(0);
  public static volatile CopyOnWriteArrayList<Th> threads = new CopyOnWriteArrayList<Th>();
  public static volatile int mean = 0;
  public static volatile Map<String, Set<Integer>> pre = new HashMap<String, Set<Integer>>();
  public static volatile Th preempted = null;
  static final ThreadLocal<Th> cur = new ThreadLocal<Th>();
  static final ConcurrentHashMap<String, Boolean> files = new ConcurrentHashMap<String, Boolean>();
  public static volatile String[] suffixes = {};

  public final String name;
  public final int run;
  public final Thread jt = Thread.currentThread();
  public final Semaphore sem = new Semaphore(0);
  public volatile int state = READY, n = 0, budget = 0, call = 0;
  public volatile double wake = -1;
  public volatile PyObject pred = Py.None;
  public final List<Integer> main = Collections.synchronizedList(new ArrayList<Integer>());   // the points of interest for preemption

  Th(String name) { this.name = name; this.run = runId; }

  public static void reset() {
    runId++; over = false; preempted = null;
    msem = new Semaphore(0);
    threads = new CopyOnWriteArrayList<Th>();
    pre = new HashMap<String, Set<Integer>>();
  }
  public static void preempt(String name, int k) {
    Set<Integer> s = pre.get(name);
    if (s == null) { s = new HashSet<Integer>(); pre.put(name, s); }
    s.add(k);
  }
  public static Th register(String name) {
    Th t = new Th(name);
    cur.set(t);
    threads.add(t);
    return t;
  }
  public static Th me() { Th t = cur.get(); return t != null && t.run == runId ? t : null; }
  public boolean mine() { return cur.get() == this; }

  public void handOver() { handOver(READY); }
  public void handOver(int s) {
    if (over || run != runId) return;
    sem.drainPermits();
    synchronized (this) { state = s; }
    msem.release();
    sem.acquireUninterruptibly();
  }
  public void go() { synchronized (this) { state = RUNNING; } sem.release(); }
  /** the thread waits for something the scheduler does not know */
  public boolean blocked() {
    synchronized (this) { if (state == RUNNING) state = UB; return state == UB; }
  }

  public static void point(int line) {
    Th t = me();
    if (t == null || over) return;
    t.n++;
    if (t.state == RUNNING) {
      if (mean > 0) { if (--t.budget > 0) return; }
      else {
        Set<Integer> s = pre.get(t.name);
        if (s == null || !s.contains(t.n)) return;
        preempted = t;
      }
    }
    t.handOver();
  }
  static boolean traced(String fn) {
    Boolean b = files.get(fn);
    if (b == null) {
      String f = fn.replace("$py.class", ".py");
      boolean y = false;
      for (String s : suffixes) y |= f.endsWith(s);
      files.put(fn, b = y);
    }
    return b;
  }

  /** installed as the trace function of Jython threads */
  public static class Tracer extends TraceFunction {
    public TraceFunction traceCall(PyFrame f) {
      if (over || !traced(f.f_code.co_filename)) return null;
      if (me() == null) {
        Th old = cur.get();
        if (old != null) return null;      // left over from an earlier run
        register("reader").handOver();
      }
      return this;
    }
    public TraceFunction traceReturn(PyFrame f, PyObject r) { return this; }
    public TraceFunction traceLine(PyFrame f, int line) { 
      Th t = cur.get();
      if (t != null && t.run == runId && (!t.name.equals("reader") || f.f_code.co_filename.contains("modem.py") || f.f_code.co_filename.contains("modem$py"))) t.main.add(t.n + 1);
      point(line); return this; }
    public TraceFunction traceException(PyFrame f, PyException e) { return this; }
  }
  public static final Tracer tracer = new Tracer();
  public static void install() { Py.getThreadState().tracefunc = tracer; }
  public static void uninstall() { Py.getThreadState().tracefunc = null; }
}
