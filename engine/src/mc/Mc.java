package mc;

import java.util.ArrayList;
import java.util.List;
import java.util.Objects;

/** What scenarios use to drive and to observe an execution. */
public final class Mc {

  private Mc() {
  }

  private static Sched s() {
    Sched s = Sched.cur();
    if (s == null) {
      throw new IllegalStateException("not inside a modelled execution");
    }
    return s;
  }

  /** A modelled thread of the driver. */
  public static final class Th {

    final T t;

    Th(T t) {
      this.t = t;
    }

    public Thread thread() {
      return t.sched.threadOf(t);
    }

    public boolean finished() {
      return t.finished;
    }

    public boolean blocked() {
      return !t.finished;
    }

    /** waits until the thread has ended */
    public void join() {
      Sched s = s();
      s.op(Modes.R, null, -1, "join " + t.name, () -> t.finished, false, false);
      s.joinClocks(s.current, t);
    }

    /** the driver accepts that this thread may stay blocked for ever */
    public Th mayBlock() {
      t.allowBlocked = true;
      return this;
    }
  }

  public interface Task {

    void run() throws Throwable;
  }

  public static Th spawn(String name, Task r) {
    Sched s = s();
    s.op(Modes.R, null, -1, "spawn " + name);
    T t = s.newThread(name, null, () -> {
      try {
        r.run();
      } catch (Error | RuntimeException e) {
        throw e;
      } catch (Throwable e) {
        throw new RuntimeException(e);
      }
    }, true);
    t.interrupted = s.interruptSpawned;
    return new Th(t);
  }

  /** Every alternative 0..n-1 is explored. */
  public static int choose(int n) {
    return s().choose(n);
  }

  public static boolean flip() {
    return choose(2) == 1;
  }

  /** Continues once no other thread can do anything. */
  public static void quiesce() {
    Sched s = s();
    s.current.quiesce = true;
    s.op(Modes.R, null, -1, "quiesce");
  }

  /** Records an observation; records are ordered with respect to each other. */
  public static void rec(String what, Object... args) {
    Sched s = s();
    if (!s.seq) {
      s.op(Modes.W, s.channel, -1, "record " + what);
    }
    s.trace.add(new Rec(s.trace.size(), s.current.name, what, args));
  }

  /** Records an observation without ordering it: only per-thread order may be relied on. */
  public static void note(String what, Object... args) {
    Sched s = s();
    s.trace.add(new Rec(s.trace.size(), s.current.name, what, args));
  }

  public static List<Rec> trace() {
    return s().trace;
  }

  public static List<String> keys() {
    List<String> r = new ArrayList<>();
    for (Rec x : s().trace) {
      r.add(x.key());
    }
    return r;
  }

  public static int count(String what, Object... args) {
    int n = 0;
    for (Rec r : s().trace) {
      if (r.is(what, args)) {
        n++;
      }
    }
    return n;
  }

  /** index of the first matching record, -1 if none */
  public static int index(String what, Object... args) {
    for (Rec r : s().trace) {
      if (r.is(what, args)) {
        return r.seq;
      }
    }
    return -1;
  }

  public static Thread thread() {
    Sched s = s();
    return s.threadOf(s.current);
  }

  public static final class Latch {

    private int n;
    private final Loc loc = new Loc("latch");

    public void await() {
      Sched s = s();
      s.op(Modes.AWT, loc, -1, "driver latch await", () -> n <= 0, false, false);
      s.syncAcquire(s.current, loc);
    }

    public void countDown() {
      Sched s = s();
      s.op(Modes.SIG, loc, -1, "driver latch countDown");
      s.syncRelease(s.current, loc);
      n--;
    }
  }

  public static Latch latch(int n) {
    Latch l = new Latch();
    l.n = n;
    return l;
  }

  /** A modelled executor with n worker threads, as a user would supply one. */
  public static java.util.concurrent.ExecutorService executor(int n, String name) {
    int[] k = {0};
    return new McExecutor(n, r -> new Thread(r, name + "-" + k[0]++));
  }

  /** Delivers an interrupt to a modelled thread. */
  public static void interrupt(Th t) {
    Rt.thread_interrupt(t.thread());
  }

  /** Leaves the running modelled thread interrupted. */
  public static void interruptMe() {
    Rt.thread_interrupt(thread());
  }

  /** The running modelled thread is not interrupted any more. */
  public static void calm() {
    Rt.thread_interrupted();
  }

  /** Every thread the driver makes from now on begins interrupted. */
  public static void interruptSpawned() {
    s().interruptSpawned = true;
  }

  public static boolean interrupted() {
    return s().current.interrupted;
  }

  /** runs something within the monitor of an object, as a synchronized block of the code would */
  public static void locked(Object lock, Runnable r) {
    Rt.monitorEnter(lock);
    try {
      r.run();
    } finally {
      Rt.monitorExit(lock);
    }
  }

  /** A scheduling point that conflicts with nothing. */
  public static void point() {
    Sched s = s();
    s.op(Modes.R, null, -1, "point");
  }

  public static String threadName() {
    return s().current.name;
  }

  public static Error fail(String msg) {
    Sched s = s();
    s.fail(msg, null);
    throw new Abort(msg);
  }

  public static void check(boolean ok, String msg) {
    if (!ok) {
      throw fail(msg);
    }
  }

  public static void eq(Object expected, Object actual, String msg) {
    if (!Objects.equals(expected, actual)) {
      throw fail(msg + ": expected " + expected + " but was " + actual);
    }
  }

  /** A point of a thread's execution, for {@link Stamp#seen}. */
  public static final class Stamp {

    private final int id;
    private final int clock;
    private final Sched sched;

    private Stamp(Sched s) {
      sched = s;
      id = s.current.id;
      clock = s.current.sc[id];
    }

    /** the stamped point happens-before the current one, in the sense of the Java memory model */
    public boolean seen() {
      return sched.current.id == id || sched.current.sc[id] >= clock;
    }
  }

  public static Stamp stamp() {
    return new Stamp(s());
  }

  /** Log calls of the code under test, kept only after this was called. */
  public static void keepLogs() {
    s().wantLogs = true;
  }

  /**
   * Which variant of the inputs the driver should use: every scenario that asks is explored with
   * every variant. 0 is the scenario as written.
   */
  public static int dress() {
    Sched s = s();
    s.askedDress = true;
    return s.dress;
  }

  /** How much memory can be reached from these objects and the statics of the code under test. */
  public static int reach(Object... roots) {
    return Reach.size(roots);
  }

  public static boolean failed() {
    Sched s = Sched.any();
    return s != null && s.violation != null;
  }
}
