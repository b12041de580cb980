package mc;

import java.util.Collection;
import java.util.Iterator;
import java.util.Map;
import java.util.Queue;
import java.util.concurrent.BlockingQueue;
import java.util.concurrent.CountDownLatch;
import java.util.concurrent.Future;
import java.util.concurrent.TimeUnit;

/** Entry points called by instrumented code. */
public final class Rt {

  private static final int SYNC = 0, PLAIN = 1, IGNORE = 2, STREAM = 3;

  private static final ClassValue<Integer> KIND = new ClassValue<>() {
    @Override
    protected Integer computeValue(Class<?> c) {
      String n = c.getName();
      if (c.getClassLoader() != null || n.startsWith("mc.")) {
        return IGNORE;
      }
      if (n.startsWith("java.util.ImmutableCollections") || n.contains("Collections$Empty")
          || n.contains("Collections$Singleton") || n.startsWith("java.util.concurrent.locks.")
          || n.startsWith("java.util.concurrent.ThreadPool")) {
        return IGNORE;
      }
      if (n.contains("Collections$Synchronized")) {
        return SYNC;
      }
      if (n.startsWith("java.util.stream.")) {
        return STREAM;
      }
      if (n.startsWith("java.util.concurrent.") || n.startsWith("java.lang.invoke.")
          || n.equals("java.util.Timer") || n.equals("java.util.Vector") || n.equals(
          "java.util.Hashtable") || n.startsWith("java.util.Random") || n.equals(
          "java.util.Properties")) {
        return SYNC;
      }
      if (Collection.class.isAssignableFrom(c) || Map.class.isAssignableFrom(c)
          || Iterator.class.isAssignableFrom(c) || Map.Entry.class.isAssignableFrom(c)
          || n.startsWith("java.util.BitSet")) {
        return PLAIN;
      }
      return IGNORE;
    }
  };

  private Rt() {
  }

  // ---------------------------------------------------------------- memory

  public static void getField(Object o, int fid, int vol, int site) {
    Sched s = Sched.cur();
    if (s == null || o == null) {
      return;
    }
    mem(s, s.seq ? null : s.field(o, fid), vol != 0, false, site);
  }

  public static void putField(Object o, int fid, int vol, int site) {
    Sched s = Sched.cur();
    if (s == null || o == null) {
      return;
    }
    mem(s, s.seq ? null : s.field(o, fid), vol != 0, true, site);
  }

  public static void staticField(int fid, int vol, int write, int site) {
    Sched s = Sched.cur();
    if (s == null) {
      return;
    }
    mem(s, s.seq ? null : s.stat(fid), vol != 0, write != 0, site);
  }

  public static void arrayRead(Object a, int idx, int site) {
    Sched s = Sched.cur();
    if (s == null || a == null || idx < 0) {
      return;
    }
    mem(s, s.seq ? null : s.field(a, idx), false, false, site);
  }

  private static void arrayWrite(Object a, int idx, int site) {
    Sched s = Sched.cur();
    if (s == null || a == null || idx < 0) {
      return;
    }
    mem(s, s.seq ? null : s.field(a, idx), false, true, site);
  }

  public static void aastore(Object[] a, int i, Object v, int site) {
    arrayWrite(a, i, site);
    a[i] = v;
  }

  public static void iastore(int[] a, int i, int v, int site) {
    arrayWrite(a, i, site);
    a[i] = v;
  }

  public static void bastore(Object a, int i, int v, int site) {
    arrayWrite(a, i, site);
    if (a instanceof boolean[] b) {
      b[i] = (v & 1) != 0;
    } else {
      ((byte[]) a)[i] = (byte) v;
    }
  }

  private static void mem(Sched s, Loc l, boolean vol, boolean write, int site) {
    T t = s.current;
    if (s.seq) {
      if (++s.nSteps > s.horizon) {
        s.op(Modes.R, null, site, null);
      }
      return;
    }
    s.op(write ? Modes.W : Modes.R, l, site, null);
    if (vol) {
      if (write) {
        s.syncRelease(t, l);
      } else {
        s.syncAcquire(t, l);
      }
    } else {
      s.plain(t, l, write, site);
    }
  }

  /** A call on a JDK object; performed atomically right after this returns. */
  public static void call(Object recv, int flags, int site) {
    Sched s = Sched.cur();
    if (s == null || recv == null) {
      return;
    }
    if (s.seq) {
      if (++s.nSteps > s.horizon) {
        s.op(Modes.R, null, site, null);
      }
      return;
    }
    Object base = s.aliases.get(recv);
    if (base == null) {
      base = recv;
    }
    int k = KIND.get(base.getClass());
    if (k == IGNORE || k == STREAM) {
      return;
    }
    boolean write = (flags & MethodKinds.WRITE) != 0;
    T t = s.current;
    Loc l = s.self(base);
    s.op(write ? Modes.W : Modes.R, l, site, null);
    if (k == SYNC && (flags & MethodKinds.PLAIN) != 0) {
      s.plainAtomic(t, l, write, site);
    } else if (k == SYNC) {
      s.atomic(t, l, write, site);
      if ((flags & (MethodKinds.OPAQUE | MethodKinds.RELEASE)) == 0) {
        s.syncAcquire(t, l);
      }
      if (write && (flags & MethodKinds.OPAQUE) == 0) {
        s.syncRelease(t, l);
      }
    } else {
      s.plain(t, l, write, site);
    }
    if ((flags & MethodKinds.LAMBDA) != 0) {
      t.openTraversals.add(new Object[]{base, l});
    }
  }

  public static void endLambda(Object recv) {
    Sched s = Sched.cur();
    if (s == null || s.seq || recv == null) {
      return;
    }
    Object base = s.aliases.get(recv);
    if (base == null) {
      base = recv;
    }
    var l = s.current.openTraversals;
    for (int i = l.size() - 1; i >= 0; i--) {
      if (l.get(i)[0] == base) {
        l.remove(i);
        break;
      }
    }
  }

  public static void alias(Object ret, Object recv) {
    Sched s = Sched.cur();
    if (s == null || s.seq || ret == null || recv == null || ret == recv) {
      return;
    }
    if (!(ret instanceof Iterator || ret instanceof Collection || ret instanceof Map
        || ret instanceof java.util.stream.BaseStream || ret instanceof java.util.Spliterator
        || ret instanceof Map.Entry)) {
      return;
    }
    if (recv instanceof Iterator && !(ret instanceof Map.Entry)) {
      return; // an element, not a view
    }
    Object base = s.aliases.get(recv);
    s.aliases.put(ret, base == null ? recv : base);
  }

  public static void registerStatics(Class<?> c) {
    Statics.register(c);
  }

  // ---------------------------------------------------------------- monitors

  public static void monitorEnter(Object o) {
    Sched s = Sched.cur();
    if (s == null) {
      return;
    }
    if (o == null) {
      throw new NullPointerException();
    }
    lockMon(s, o, 1, "monitor enter " + o.getClass().getSimpleName());
  }

  private static void lockMon(Sched s, Object o, int holds, String desc) {
    T t = s.current;
    Sched.ObjRec r = s.rec(o);
    if (r.mon == null) {
      r.mon = new Loc("monitor");
    }
    if (r.owner == t) {
      r.holds += holds;
      return;
    }
    s.op(Modes.ACQ, r.mon, -1, desc, () -> r.owner == null, false, false);
    r.owner = t;
    r.holds = holds;
    s.syncAcquire(t, r.mon);
  }

  public static void monitorExit(Object o) {
    Sched s = Sched.cur();
    if (s == null || s.violation != null) {
      return;
    }
    T t = s.current;
    Sched.ObjRec r = s.rec(o);
    if (r.owner != t) {
      throw new IllegalMonitorStateException();
    }
    if (r.holds > 1) {
      r.holds--;
      return;
    }
    s.op(Modes.REL, r.mon, -1, "monitor exit");
    s.syncRelease(t, r.mon);
    r.owner = null;
    r.holds = 0;
  }

  public static void obj_wait(Object o) throws InterruptedException {
    obj_wait(o, 0);
  }

  public static void obj_wait(Object o, long ms, int nanos) throws InterruptedException {
    obj_wait(o, ms + (nanos > 0 ? 1 : 0));
  }

  public static void obj_wait(Object o, long ms) throws InterruptedException {
    Sched s = Sched.cur();
    if (s == null) {
      throw new IllegalStateException("wait outside the model");
    }
    T t = s.current;
    Sched.ObjRec r = s.rec(o);
    if (r.owner != t) {
      throw new IllegalMonitorStateException();
    }
    int holds = r.holds;
    if (r.waiters == null) {
      r.waiters = new java.util.ArrayList<>();
    }
    s.op(Modes.REL, r.mon, -1, "wait: release");
    s.syncRelease(t, r.mon);
    r.owner = null;
    r.holds = 0;
    r.waiters.add(t);
    timed(s, t, ms > 0, () -> !r.waiters.contains(t), "wait");
    boolean intr = t.interrupted && r.waiters.contains(t);
    r.waiters.remove(t);
    lockMon(s, o, holds, "wait: re-acquire");
    if (intr) {
      t.interrupted = false;
      throw new InterruptedException();
    }
  }

  public static void obj_notify(Object o) {
    notif(o, false);
  }

  public static void obj_notifyAll(Object o) {
    notif(o, true);
  }

  private static void notif(Object o, boolean all) {
    Sched s = Sched.cur();
    if (s == null) {
      return;
    }
    Sched.ObjRec r = s.rec(o);
    if (r.owner != s.current) {
      throw new IllegalMonitorStateException();
    }
    if (r.waiters != null) {
      if (all) {
        r.waiters.clear();
      } else if (!r.waiters.isEmpty()) {
        r.waiters.remove(0);
      }
    }
  }

  /** A wait that may time out; time passes only when nothing else can happen. */
  static boolean timed(Sched s, T t, boolean mayTimeOut, T.Cond c, String desc) {
    if (!mayTimeOut) {
      s.op(Modes.R, null, -1, desc, c, true, false);
      return true;
    }
    while (!c.ok() && !t.interrupted) {
      if (s.othersEnabled(t)) {
        s.op(Modes.R, null, -1, desc + " (timed)", () -> c.ok() || !s.othersEnabled(t), true,
            false);
      } else {
        return false;
      }
      if (!c.ok() && !t.interrupted) {
        return false;
      }
    }
    return true;
  }

  // ---------------------------------------------------------------- threads

  public static Thread thread_currentThread() {
    Sched s = Sched.cur();
    if (s == null) {
      return Thread.currentThread();
    }
    return s.threadOf(s.current);
  }

  public static void thread_start(Thread th) {
    Sched s = Sched.cur();
    if (s == null) {
      throw new IllegalStateException("thread started outside the model");
    }
    if (s.byThread.containsKey(th)) {
      throw new IllegalThreadStateException();
    }
    s.op(Modes.R, null, -1, "start thread");
    s.newThread(th.getName(), th, th::run, false);
  }

  public static void thread_join(Thread th) throws InterruptedException {
    thread_join(th, 0);
  }

  public static void thread_join(Thread th, long ms) throws InterruptedException {
    Sched s = Sched.cur();
    T o = s.byThread.get(th);
    if (o == null) {
      return;
    }
    T t = s.current;
    timed(s, t, ms > 0, () -> o.finished, "join " + o.name);
    s.interruptCheck(t);
    s.joinClocks(t, o);
  }

  public static void thread_sleep(long ms) throws InterruptedException {
    pause("sleep");
  }

  public static void thread_sleep(long ms, int ns) throws InterruptedException {
    pause("sleep");
  }

  public static void thread_sleep(java.time.Duration d) throws InterruptedException {
    pause("sleep");
  }

  public static void tu_sleep(TimeUnit u, long n) throws InterruptedException {
    pause("sleep");
  }

  private static void pause(String what) throws InterruptedException {
    Sched s = Sched.cur();
    if (s == null) {
      return;
    }
    s.interruptCheck(s.current);
    s.spin(what);
    s.interruptCheck(s.current);
  }

  public static void thread_yield() {
    Sched s = Sched.cur();
    if (s != null) {
      s.spin("yield");
    }
  }

  public static void thread_onSpinWait() {
    thread_yield();
  }

  public static boolean thread_interrupted() {
    Sched s = Sched.cur();
    if (s == null) {
      return false;
    }
    boolean i = s.current.interrupted;
    s.current.interrupted = false;
    return i;
  }

  public static void thread_interrupt(Thread th) {
    Sched s = Sched.cur();
    T t = s == null ? null : s.byThread.get(th);
    if (t != null) {
      s.op(Modes.W, t.intr, -1, "interrupt " + t.name);
      t.interrupted = true;
    }
  }

  public static boolean thread_isInterrupted(Thread th) {
    Sched s = Sched.cur();
    T t = s == null ? null : s.byThread.get(th);
    return t != null && t.interrupted;
  }

  public static boolean thread_isAlive(Thread th) {
    Sched s = Sched.cur();
    T t = s == null ? null : s.byThread.get(th);
    return t != null && !t.finished;
  }

  public static boolean thread_holdsLock(Object o) {
    Sched s = Sched.cur();
    return s != null && s.rec(o).owner == s.current;
  }

  public static long sys_currentTimeMillis() {
    return 1_000_000_000_000L + clock() / 1_000_000L;
  }

  public static long sys_nanoTime() {
    return 1_000_000_000L + clock();
  }

  public static java.time.Instant sys_now() {
    return java.time.Instant.ofEpochMilli(sys_currentTimeMillis());
  }

  private static final long AGES = 10_000_000_000L * 1_000_000L;
  private static final int CLOCK_CHOICES = 12;

  /** It moves on with every look at it; ages may have passed at any one of the first looks. */
  private static long clock() {
    Sched s = Sched.cur();
    if (s == null || s.off) {
      return 0;
    }
    s.clockReads++;
    if (!s.agesPassed && s.clockReads <= CLOCK_CHOICES && s.choose(2) == 1) {
      s.agesPassed = true;
    }
    return s.clockReads * 1000L + (s.agesPassed ? AGES : 0);
  }

  public static void sys_exit(int code) {
    throw new IllegalStateException("System.exit(" + code + ") called");
  }

  public static void ls_park() {
    Sched s = Sched.cur();
    T t = s.current;
    s.op(Modes.R, null, -1, "park", () -> t.parkPermit, true, false);
    t.parkPermit = false;
  }

  public static void ls_park(Object blocker) {
    ls_park();
  }

  public static void ls_parkNanos(long n) {
    thread_yield();
  }

  public static void ls_parkNanos(Object b, long n) {
    thread_yield();
  }

  public static void ls_parkUntil(long n) {
    thread_yield();
  }

  public static void ls_unpark(Thread th) {
    Sched s = Sched.cur();
    T t = s.byThread.get(th);
    if (t != null) {
      s.op(Modes.R, null, -1, "unpark");
      t.parkPermit = true;
    }
  }

  // ---------------------------------------------------------------- thread locals

  static final java.lang.invoke.MethodHandle TL_INIT;

  static {
    try {
      var m = ThreadLocal.class.getDeclaredMethod("initialValue");
      m.setAccessible(true);
      TL_INIT = java.lang.invoke.MethodHandles.lookup().unreflect(m);
    } catch (ReflectiveOperationException e) {
      throw new ExceptionInInitializerError(e);
    }
  }

  public static Object tl_get(ThreadLocal<?> l) {
    Sched s = Sched.cur();
    if (s == null) {
      return l.get();
    }
    T t = s.current;
    if (t.locals == null) {
      t.locals = new java.util.IdentityHashMap<>();
    }
    if (!t.locals.containsKey(l)) {
      Object v;
      try {
        v = TL_INIT.invoke(l);
      } catch (RuntimeException | Error e) {
        throw e;
      } catch (Throwable e) {
        throw new IllegalStateException(e);
      }
      t.locals.put(l, v);
    }
    return t.locals.get(l);
  }

  public static void tl_set(ThreadLocal<?> l, Object v) {
    Sched s = Sched.cur();
    if (s == null) {
      @SuppressWarnings("unchecked") ThreadLocal<Object> lo = (ThreadLocal<Object>) l;
      lo.set(v);
      return;
    }
    T t = s.current;
    if (t.locals == null) {
      t.locals = new java.util.IdentityHashMap<>();
    }
    t.locals.put(l, v);
  }

  public static void tl_remove(ThreadLocal<?> l) {
    Sched s = Sched.cur();
    if (s == null) {
      l.remove();
    } else if (s.current.locals != null) {
      s.current.locals.remove(l);
    }
  }

  // ---------------------------------------------------------------- latches, queues, futures

  public static void cdl_await(CountDownLatch l) throws InterruptedException {
    cdl(l, false);
  }

  public static boolean cdl_await(CountDownLatch l, long n, TimeUnit u)
      throws InterruptedException {
    return cdl(l, true);
  }

  private static boolean cdl(CountDownLatch l, boolean timed) throws InterruptedException {
    Sched s = Sched.cur();
    T t = s.current;
    s.interruptCheck(t);
    Loc loc = s.self(l);
    if (timed && l.getCount() != 0) {
      timed(s, t, true, () -> l.getCount() == 0, "latch await");
    } else {
      s.op(Modes.AWT, loc, -1, "latch await", () -> l.getCount() == 0, true, false);
    }
    if (l.getCount() != 0) {
      s.interruptCheck(t);
      return false;
    }
    s.hidden(t, Modes.AWT, loc);
    s.syncAcquire(t, loc);
    return true;
  }

  public static void cdl_countDown(CountDownLatch l) {
    Sched s = Sched.cur();
    if (s == null) {
      l.countDown();
      return;
    }
    Loc loc = s.self(l);
    s.op(Modes.SIG, loc, -1, "latch countDown");
    s.syncRelease(s.current, loc);
    l.countDown();
  }

  public static <E> E bq_take(BlockingQueue<E> q) throws InterruptedException {
    Sched s = Sched.cur();
    T t = s.current;
    s.interruptCheck(t);
    Loc loc = s.self(q);
    s.op(Modes.W, loc, -1, "queue take", () -> q.peek() != null, true, false);
    if (q.peek() == null) {
      s.interruptCheck(t);
    }
    s.syncAcquire(t, loc);
    s.syncRelease(t, loc);
    return q.poll();
  }

  public static <E> E bq_takeFirst(BlockingQueue<E> q) throws InterruptedException {
    return bq_take(q);
  }

  public static <E> void bq_put(BlockingQueue<E> q, E e) throws InterruptedException {
    Sched s = Sched.cur();
    T t = s.current;
    s.interruptCheck(t);
    Loc loc = s.self(q);
    s.op(Modes.W, loc, -1, "queue put", () -> q.remainingCapacity() > 0, true, false);
    if (q.remainingCapacity() == 0) {
      s.interruptCheck(t);
    }
    s.syncAcquire(t, loc);
    s.syncRelease(t, loc);
    q.add(e);
  }

  public static <E> E bq_timed_poll(BlockingQueue<E> q, long n, TimeUnit u)
      throws InterruptedException {
    Sched s = Sched.cur();
    T t = s.current;
    s.interruptCheck(t);
    Loc loc = s.self(q);
    timed(s, t, true, () -> q.peek() != null, "queue poll");
    s.op(Modes.W, loc, -1, "queue poll");
    s.syncAcquire(t, loc);
    s.syncRelease(t, loc);
    return q.poll();
  }

  public static <E> boolean bq_timed_offer(BlockingQueue<E> q, E e, long n, TimeUnit u)
      throws InterruptedException {
    Sched s = Sched.cur();
    T t = s.current;
    Loc loc = s.self(q);
    timed(s, t, true, () -> q.remainingCapacity() > 0, "queue offer");
    s.op(Modes.W, loc, -1, "queue offer");
    s.syncAcquire(t, loc);
    s.syncRelease(t, loc);
    return q.offer(e);
  }

  public static <V> V fut_get(Future<V> f)
      throws InterruptedException, java.util.concurrent.ExecutionException {
    awaitFuture(f);
    return f.get();
  }

  public static <V> V fut_get(Future<V> f, long n, TimeUnit u)
      throws InterruptedException, java.util.concurrent.ExecutionException,
      java.util.concurrent.TimeoutException {
    Sched s = Sched.cur();
    timed(s, s.current, true, f::isDone, "future get");
    if (!f.isDone()) {
      s.interruptCheck(s.current);
      throw new java.util.concurrent.TimeoutException();
    }
    awaitFuture(f);
    return f.get();
  }

  public static Object fut_join(Future<?> f) {
    Sched s = Sched.cur();
    s.op(Modes.R, null, -1, "future join", f::isDone, false, false);
    s.joinAll(s.current);
    return ((java.util.concurrent.CompletableFuture<?>) f).join();
  }

  private static void awaitFuture(Future<?> f) throws InterruptedException {
    Sched s = Sched.cur();
    s.op(Modes.R, null, -1, "future get", f::isDone, true, false);
    if (!f.isDone()) {
      s.interruptCheck(s.current);
    }
    s.joinAll(s.current);
  }
}
