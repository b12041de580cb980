package mc;

import java.util.ArrayList;
import java.util.Arrays;
import java.util.IdentityHashMap;
import java.util.List;
import jdk.internal.vm.ContinuationScope;

/**
 * Stateless exploration of one scenario: runs the scenario again and again on the real code, each
 * time under a different schedule / data choice, until every Mazurkiewicz trace has been covered
 * (source-set DPOR with sleep sets), or every schedule with a bounded number of preemptions.
 */
final class Sched {

  static final ContinuationScope SCOPE = new ContinuationScope("mc");
  int maxT = 24;
  boolean threadCap;

  // ---- exploration state
  final ArrayList<Node> stack = new ArrayList<>();
  int branch; // index of the node whose choice is new in this execution
  int bound = -1;
  boolean seq;
  int horizon;
  int clockReads;
  boolean agesPassed;
  long[] replay; // forced choices (replay mode)

  // ---- statistics
  long executions, pruned, capped, transitions, diverged, maxSteps, blockedEnds;
  int maxDepth, maxThreads;
  StateSet states;

  // ---- current execution
  ArrayList<T> threads = new ArrayList<>();
  T current;
  int depth;
  int nSteps;
  int preemptions;
  boolean off;
  String violation;
  Throwable violationCause;
  boolean divergence;
  boolean hitHorizon;
  final IdentityHashMap<Object, ObjRec> objs = new IdentityHashMap<>();
  final IdentityHashMap<Object, Object> aliases = new IdentityHashMap<>();
  final IdentityHashMap<Thread, T> byThread = new IdentityHashMap<>();
  Loc[] statics = new Loc[64];
  Loc channel;
  final ArrayList<Rec> trace = new ArrayList<>();
  final ArrayList<String> races = new ArrayList<>();
  final java.util.HashSet<String> raceKeys = new java.util.HashSet<>();
  boolean wantRaces;
  boolean wantLogs;
  int dress;
  boolean askedDress;
  boolean interruptSpawned;
  boolean verbose;
  final ArrayList<String> steplog = new ArrayList<>();
  long prefixHash;
  int counter;
  ThreadNamer namer;

  // per step
  int[] evTid = new int[4096];
  int[] evIdx = new int[4096];
  int[] evNode = new int[4096];
  int[][] evClock = new int[4096][];
  boolean newStep;
  Loc[] hiddenLocs = new Loc[16];
  int[] hiddenModes = new int[16];
  int nHidden;

  interface ThreadNamer {

    String name(Thread t);
  }

  static final class ObjRec {

    Loc self;
    Loc[] fields;
    // monitor
    T owner;
    int holds;
    Loc mon;
    ArrayList<T> waiters;
    Object ext;
  }

  static Sched cur() {
    Thread t = Thread.currentThread();
    if (t instanceof Carrier c && !c.off) {
      Sched s = c.sched;
      return s == null || s.off || s.current == null ? null : s;
    }
    return null;
  }

  static Sched any() {
    Thread t = Thread.currentThread();
    return t instanceof Carrier c ? c.sched : null;
  }

  // ------------------------------------------------------------------ locations

  ObjRec rec(Object o) {
    ObjRec r = objs.get(o);
    if (r == null) {
      r = new ObjRec();
      objs.put(o, r);
    }
    return r;
  }

  Loc self(Object o) {
    ObjRec r = rec(o);
    if (r.self == null) {
      r.self = new Loc(null);
    }
    return r.self;
  }

  Loc field(Object o, int fid) {
    ObjRec r = rec(o);
    Loc[] f = r.fields;
    if (f == null) {
      f = r.fields = new Loc[Math.max(4, fid + 1)];
    } else if (fid >= f.length) {
      f = r.fields = Arrays.copyOf(f, Math.max(f.length * 2, fid + 1));
    }
    Loc l = f[fid];
    if (l == null) {
      l = f[fid] = new Loc(null);
    }
    return l;
  }

  Loc stat(int fid) {
    if (fid >= statics.length) {
      statics = Arrays.copyOf(statics, Math.max(statics.length * 2, fid + 1));
    }
    Loc l = statics[fid];
    if (l == null) {
      l = statics[fid] = new Loc(null);
    }
    return l;
  }

  // ------------------------------------------------------------------ operations (called on a modelled thread)

  /** Announces an access and lets the scheduler decide when it happens. */
  void op(int mode, Loc loc, int site, String desc) {
    op(mode, loc, site, desc, null, false, false);
  }

  void op(int mode, Loc loc, int site, String desc, T.Cond enabled, boolean interruptible,
      boolean idle) {
    T t = current;
    if (threads.size() == 1 && !seq && enabled == null && !t.quiesce) {
      return; // nobody else exists yet: everything so far happens before every later thread
    }
    t.nAcc = 0;
    if (loc != null) {
      t.modes[0] = mode;
      t.locs[0] = loc;
      t.nAcc = 1;
    }
    if (interruptible) {
      t.modes[t.nAcc] = Modes.R;
      t.locs[t.nAcc++] = t.intr;
    }
    int n = t.openTraversals.size();
    for (int i = 0; i < n && t.nAcc < t.locs.length; i++) {
      t.modes[t.nAcc] = Modes.R;
      t.locs[t.nAcc++] = (Loc) t.openTraversals.get(i)[1];
    }
    t.site = site;
    t.desc = desc;
    t.enabled = enabled;
    t.interruptible = interruptible;
    t.idle = idle;
    yieldOp(t);
  }

  private void yieldOp(T t) {
    if (seq) {
      if (t.enabled == null && !t.quiesce || t.enabled != null && (t.enabled.ok()
          || t.interruptible && t.interrupted)) {
        if (++nSteps > horizon) {
          hitHorizon = true;
          stopNow(t);
        }
        return;
      }
    }
    if (!T.Cont.yield(SCOPE)) {
      // pinned: the operation happens inside the current step
      if (t.enabled != null && !t.enabled.ok() || t.quiesce) {
        throw new IllegalStateException("modelled thread blocks while pinned: " + t.desc);
      }
      for (int i = 0; i < t.nAcc; i++) {
        hidden(t, t.modes[i], t.locs[i]);
      }
    }
    t.enabled = null;
    if (violation != null) {
      throw new Abort(violation);
    }
  }

  private void stopNow(T t) {
    T.Cont.yield(SCOPE);
    throw new Abort("stopped");
  }

  /** an access not announced beforehand: ordered and race-checked as part of the current step */
  void hidden(T t, int mode, Loc loc) {
    if (seq) {
      return;
    }
    if (nHidden < hiddenLocs.length) {
      hiddenLocs[nHidden] = loc;
      hiddenModes[nHidden++] = mode;
    }
    access(t, mode, loc, nSteps - 1);
  }

  int choose(int n) {
    if (n <= 1) {
      return 0;
    }
    if (replay != null) {
      if (depth >= replay.length) {
        divergence = true;
        throw new Abort("divergence");
      }
      return (int) replay[depth++];
    }
    if (depth < stack.size()) {
      Node x = stack.get(depth++);
      if (!x.data || x.n != n) {
        divergence = true;
        throw new Abort("divergence");
      }
      return x.val;
    }
    stack.add(Node.data(n));
    depth++;
    return 0;
  }

  T newThread(String name, Thread th, Runnable body, boolean harness) {
    T parent = current;
    long canon = parent == null ? 0x9E3779B97F4A7C15L
        : mix(parent.canon * 31 + (++parent.children));
    T t = new T(this, threads.size(), name, canon);
    if (t.id >= maxT) {
      hitHorizon = true;
      threadCap = true;
      throw new Abort("too many threads");
    }
    t.harness = harness;
    t.thread = th;
    if (th != null) {
      byThread.put(th, t);
    }
    threads.add(t);
    if (parent != null) {
      System.arraycopy(parent.clock, 0, t.clock, 0, maxT);
      System.arraycopy(parent.sc, 0, t.sc, 0, maxT);
      parent.sc[parent.id]++;
    }
    t.sc[t.id]++;
    t.nAcc = 0;
    t.desc = "start";
    t.site = -1;
    t.cont = new T.Cont(() -> {
      try {
        body.run();
      } catch (Abort a) {
        // decided
      } catch (Throwable e) {
        t.death = e;
        if (violation == null) {
          uncaught(t, e);
        }
      } finally {
        t.finished = true;
      }
    });
    return t;
  }

  private void uncaught(T t, Throwable e) {
    try {
      if (t.harness) {
        if (violation == null) {
          fail("unexpected exception in " + t.name + ": " + e, e);
        }
        return;
      }
      Thread.UncaughtExceptionHandler h = t.thread == null ? null : handler(t.thread);
      if (h != null) {
        h.uncaughtException(t.thread, e);
      }
    } catch (Abort a) {
      // decided
    } catch (Throwable x) {
      // ignored, as by the JVM
    }
  }

  static Thread.UncaughtExceptionHandler handler(Thread th) {
    Thread.UncaughtExceptionHandler h = th.getUncaughtExceptionHandler();
    return h instanceof ThreadGroup ? null : h;
  }

  void fail(String msg, Throwable cause) {
    if (violation == null) {
      violation = msg;
      violationCause = cause;
    }
  }

  // ------------------------------------------------------------------ one execution

  static void join(int[] a, int[] b) {
    for (int i = 0; i < a.length; i++) {
      if (b[i] > a[i]) {
        a[i] = b[i];
      }
    }
  }

  static long mix(long z) {
    z = (z ^ (z >>> 30)) * 0xbf58476d1ce4e5b9L;
    z = (z ^ (z >>> 27)) * 0x94d049bb133111ebL;
    return z ^ (z >>> 31);
  }

  void reset() {
    threads = new ArrayList<>();
    current = null;
    depth = 0;
    nSteps = 0;
    preemptions = 0;
    violation = null;
    violationCause = null;
    divergence = false;
    hitHorizon = false;
    threadCap = false;
    objs.clear();
    aliases.clear();
    byThread.clear();
    Arrays.fill(statics, null);
    channel = new Loc("trace");
    trace.clear();
    races.clear();
    steplog.clear();
    prefixHash = 0;
    counter = 0;
    wantLogs = false;
    interruptSpawned = false;
    seq = false;
  }

  boolean isEnabled(T t) {
    if (t.finished) {
      return false;
    }
    if (t.quiesce || t.timeout || t.spinMark >= 0) {
      return false; // decided in a second pass
    }
    return t.enabled == null || t.enabled.ok() || t.interruptible && t.interrupted;
  }

  /** Runs one execution; returns false if it was abandoned because everything enabled is asleep. */
  boolean runOnce(Scenario sc) {
    maxT = sc.maxThreads;
    if (first.length != maxT) {
      first = new int[maxT];
    }
    reset();
    seq = sc.seq;
    clockReads = 0;
    agesPassed = false;
    horizon = sc.horizon;
    wantRaces = sc.races;
    ((Carrier) Thread.currentThread()).sched = this;
    off = true;
    Statics.reset();
    off = false;
    Thread mainThread = new Thread("main");
    newThread("main", mainThread, () -> {
      try {
        sc.body.run();
      } catch (Abort a) {
        throw a;
      } catch (Error | RuntimeException e) {
        throw e;
      } catch (Throwable e) {
        throw new RuntimeException(e);
      }
    }, true);
    long nextSleep = 0;
    T prev = null;
    boolean sleepBlocked = false;
    while (true) {
      if (violation != null || divergence || hitHorizon) {
        break;
      }
      long en = 0;
      for (int i = 0, n = threads.size(); i < n; i++) {
        if (isEnabled(threads.get(i))) {
          en |= 1L << i;
        }
      }
      if (!seq) {
        // spinners run again once somebody else has moved
        for (T t : threads) {
          if (!t.finished && t.spinMark >= 0 && (t.spinMark < nSteps || en == 0 && othersDead(t))) {
            en |= 1L << t.id;
          }
        }
      } else if (en == 0) {
        for (T t : threads) {
          if (!t.finished && t.spinMark >= 0) {
            en |= 1L << t.id;
          }
        }
      }
      if (en == 0) {
        for (T t : threads) {
          if (!t.finished && t.quiesce) {
            en = 1L << t.id;
            break;
          }
        }
      }
      if (en == 0) { // time passes only when nothing else can happen
        for (T t : threads) {
          if (!t.finished && t.timeout) {
            en |= 1L << t.id;
          }
        }
      }
      if (en == 0) {
        break;
      }
      T t;
      Node node = null;
      if (seq) {
        t = pickSeq(prev, en);
      } else if (replay != null) {
        if (depth >= replay.length) {
          t = defaultChoice(prev, en);
        } else {
          int c = (int) replay[depth];
          if (c < 0 || c >= threads.size() || (en & (1L << c)) == 0) {
            divergence = true;
            break;
          }
          t = threads.get(c);
        }
        depth++;
      } else {
        if (depth < stack.size()) {
          node = stack.get(depth);
          if (node.data || node.enabled != en) {
            divergence = true;
            break;
          }
        } else {
          node = new Node();
          node.enabled = en;
          node.sleep = bound >= 0 ? 0 : nextSleep;
          long cand = en & ~node.sleep;
          if (cand == 0) {
            sleepBlocked = true;
            break;
          }
          T d = defaultChoice(prev, cand);
          node.chosen = d.id;
          node.backtrack = 1L << d.id;
          if (bound >= 0 && Long.bitCount(en) > 1) {
            boolean canPrev = prev != null && (en & (1L << prev.id)) != 0;
            boolean local = canPrev && prev.nAcc == 0;
            if (!canPrev || preemptions < bound && !local) {
              node.backtrack = en;
            }
          }
          stack.add(node);
        }
        t = threads.get(node.chosen);
        if (bound >= 0 && prev != null && prev != t && (en & (1L << prev.id)) != 0) {
          preemptions++;
        }
      }
      newStep = node != null && depth >= branch;
      int nodeIdx = depth;
      if (node != null) {
        depth++;
      }
      if (nSteps >= horizon) {
        hitHorizon = true;
        break;
      }
      step(t, nodeIdx);
      t.consecutive = prev == t ? t.consecutive + 1 : 0;
      prev = t;
      if (node != null && bound < 0) {
        long s = (node.sleep | node.done) & ~(1L << t.id);
        if (s != 0) {
          nextSleep = 0;
          for (int q = 0; q < threads.size(); q++) {
            if ((s & (1L << q)) != 0 && independent(threads.get(q))) {
              nextSleep |= 1L << q;
            }
          }
        } else {
          nextSleep = 0;
        }
      }
    }
    current = null;
    if (nSteps > maxSteps) {
      maxSteps = nSteps;
    }
    maxThreads = Math.max(maxThreads, threads.size());
    if (divergence) {
      diverged++;
    } else if (hitHorizon && violation == null) {
      capped++;
    } else if (sleepBlocked) {
      pruned++;
      return false;
    } else {
      executions++;
      if (violation == null && !seq && bound < 0 && replay == null) {
        for (T t : threads) {
          if (!t.finished && t.started && t.nAcc > 0) {
            findRaces(t, true);
          }
        }
      }
      if (violation == null) {
        checkEnd(sc);
      }
    }
    return true;
  }

  private boolean othersDead(T t) {
    for (T o : threads) {
      if (o != t && !o.finished && o.quiesce) {
        return false;
      }
    }
    return true;
  }

  private void checkEnd(Scenario sc) {
    if (!sc.checkBlocked) {
      return;
    }
    for (T t : threads) {
      if (!t.finished && !t.idle && !t.allowBlocked) {
        blockedEnds++;
        fail("thread [" + t.name + "] is blocked forever at " + where(t), null);
        return;
      }
    }
  }

  String where(T t) {
    return t.desc != null ? t.desc : Sites.name(t.site);
  }

  private T defaultChoice(T prev, long en) {
    if (prev != null && (en & (1L << prev.id)) != 0 && prev.consecutive < 300) {
      return prev;
    }
    if (prev != null && Long.bitCount(en) > 1) {
      en &= ~(1L << prev.id);
    }
    return threads.get(Long.numberOfTrailingZeros(en));
  }

  private T pickSeq(T prev, long en) {
    if (prev != null && (en & (1L << prev.id)) != 0) {
      return prev;
    }
    int p = prev == null ? -1 : prev.id;
    long higher = p < 0 ? en : en & ~((1L << (p + 1)) - 1);
    return threads.get(Long.numberOfTrailingZeros(higher != 0 ? higher : en));
  }

  private boolean independent(T q) {
    // the executed step's accesses are in hiddenLocs (filled in step())
    for (int i = 0; i < q.nAcc; i++) {
      for (int j = 0; j < nHidden; j++) {
        if (q.locs[i] == hiddenLocs[j] && Modes.RACE[q.modes[i]][hiddenModes[j]]) {
          return false;
        }
      }
    }
    return true;
  }

  private void step(T t, int nodeIdx) {
    nHidden = 0;
    if (!seq) {
      if (nSteps >= evTid.length) {
        int n = evTid.length * 2;
        evTid = Arrays.copyOf(evTid, n);
        evIdx = Arrays.copyOf(evIdx, n);
        evNode = Arrays.copyOf(evNode, n);
        evClock = Arrays.copyOf(evClock, n);
      }
      if (newStep && bound < 0 && replay == null && t.nAcc > 0) {
        findRaces(t, false);
      }
      int s = nSteps++;
      t.steps++;
      evTid[s] = t.id;
      evIdx[s] = t.steps;
      evNode[s] = nodeIdx;
      for (int i = 0; i < t.nAcc; i++) {
        orderAfter(t.clock, t.modes[i], t.locs[i]);
      }
      if (t.quiesce) {
        for (T o : threads) {
          join(t.clock, o.clock);
          join(t.sc, o.sc);
        }
        t.sc[t.id]++;
      }
      t.clock[t.id] = t.steps;
      for (int i = 0; i < t.nAcc; i++) {
        t.locs[i].record(t.modes[i], t.id, s, t.clock);
        hiddenLocs[nHidden] = t.locs[i];
        hiddenModes[nHidden++] = t.modes[i];
      }
      long h = t.canon;
      for (int i = 0, n = threads.size(); i < n; i++) {
        if (t.clock[i] != 0) {
          h += mix(threads.get(i).canon ^ t.clock[i] * 0x9E3779B97F4A7C15L);
        }
      }
      prefixHash += mix(h);
      if (newStep) {
        transitions++;
        states.add(prefixHash);
      }
      if (verbose) {
        steplog.add(
            t.name + " | " + (t.desc != null ? t.desc : "") + (t.site >= 0 ? " " + Sites.name(
                t.site) : ""));
      }
    } else {
      nSteps++;
      if (t.quiesce) {
        for (T o : threads) {
          join(t.sc, o.sc);
        }
        t.sc[t.id]++;
      }
    }
    t.quiesce = false;
    t.spinMark = -1;
    t.started = true;
    current = t;
    t.cont.run();
    current = null;
    if (!seq) {
      evClock[nSteps - 1] = t.clock.clone();
    }
  }

  /** access made in the middle of a step */
  private void access(T t, int mode, Loc l, int step) {
    orderAfter(t.clock, mode, l);
    t.clock[t.id] = t.steps;
    l.record(mode, t.id, step, t.clock);
  }

  private static void orderAfter(int[] c, int mode, Loc l) {
    boolean[][] o = Modes.ORDER;
    for (int m = 0; m < Modes.N; m++) {
      if (l.clock[m] != null && o[m][mode]) {
        join(c, l.clock[m]);
      }
    }
  }

  /** Source-set DPOR: adds backtrack points for the reversible races of t's pending operation. */
  private void findRaces(T t, boolean blocked) {
    int nc = 0;
    for (int a = 0; a < t.nAcc; a++) {
      Loc l = t.locs[a];
      int mode = t.modes[a];
      for (int m = 0; m < Modes.N; m++) {
        int[] last = l.last[m];
        if (last == null || !Modes.RACE[m][mode]) {
          continue;
        }
        for (int q = 0; q < threads.size(); q++) {
          int e = last[q];
          if (q == t.id || e < 0 || t.clock[q] >= evIdx[e]) {
            continue;
          }
          cand[nc++] = e;
        }
      }
    }
    if (nc == 0) {
      return;
    }
    int[] post = t.clock.clone();
    for (int a = 0; a < t.nAcc; a++) {
      orderAfter(post, t.modes[a], t.locs[a]);
    }
    for (int i = 0; i < nc; i++) {
      int e = cand[i];
      boolean maximal = true;
      for (int j = 0; j < nc && maximal; j++) {
        int f = cand[j];
        if (f != e && evClock[f][evTid[e]] >= evIdx[e]) {
          maximal = false;
        }
      }
      if (maximal) {
        reverse(e, t, post);
      }
    }
  }

  private final int[] cand = new int[512];
  private int[] first = new int[24];

  private void reverse(int e, T p, int[] post) {
    int et = evTid[e];
    int ei = evIdx[e];
    Arrays.fill(first, 0);
    long initials = 0;
    long seen = 0;
    for (int k = e + 1; k < nSteps; k++) {
      int[] ck = evClock[k];
      if (ck[et] >= ei) {
        continue;
      }
      int q = evTid[k];
      if ((seen & (1L << q)) != 0) {
        continue;
      }
      boolean init = true;
      for (long r = seen; r != 0; r &= r - 1) {
        int x = Long.numberOfTrailingZeros(r);
        if (ck[x] >= first[x]) {
          init = false;
          break;
        }
      }
      seen |= 1L << q;
      first[q] = evIdx[k];
      if (init) {
        initials |= 1L << q;
      }
    }
    if ((seen & (1L << p.id)) == 0) {
      boolean init = true;
      for (long r = seen; r != 0; r &= r - 1) {
        int x = Long.numberOfTrailingZeros(r);
        if (post[x] >= first[x]) {
          init = false;
          break;
        }
      }
      if (init) {
        initials |= 1L << p.id;
      }
    }
    Node n = stack.get(evNode[e]);
    if ((initials & (n.backtrack | n.sleep)) != 0) {
      return;
    }
    long ok = initials & n.enabled;
    if (ok == 0) {
      n.backtrack |= n.enabled; // conservative
      return;
    }
    if ((ok & (1L << p.id)) != 0) {
      n.backtrack |= 1L << p.id;
    } else {
      n.backtrack |= Long.lowestOneBit(ok);
    }
  }

  /** Moves to the next unexplored branch; false when the space is exhausted. */
  boolean advance() {
    while (!stack.isEmpty()) {
      Node n = stack.get(stack.size() - 1);
      if (n.data) {
        if (n.val + 1 < n.n) {
          n.val++;
          branch = stack.size() - 1;
          return true;
        }
      } else {
        n.done |= 1L << n.chosen;
        long c = n.backtrack & ~n.done & ~n.sleep;
        if (c != 0) {
          n.chosen = Long.numberOfTrailingZeros(c);
          branch = stack.size() - 1;
          return true;
        }
      }
      stack.remove(stack.size() - 1);
    }
    return false;
  }

  long[] choices() {
    long[] r = new long[Math.min(depth, stack.size())];
    for (int i = 0; i < r.length; i++) {
      Node n = stack.get(i);
      r[i] = n.data ? n.val : n.chosen;
    }
    return r;
  }

  // ------------------------------------------------------------------ race monitor

  void syncAcquire(T t, Loc l) {
    if (l.sc != null) {
      join(t.sc, l.sc);
    }
  }

  void syncRelease(T t, Loc l) {
    if (l.sc == null) {
      l.sc = t.sc.clone();
    } else {
      join(l.sc, t.sc);
    }
    t.sc[t.id]++;
  }

  void plain(T t, Loc l, boolean write, int site) {
    if (l.wTid >= 0 && l.wTid != t.id && t.sc[l.wTid] < l.wClk) {
      race(l.wSite, site);
    }
    if (write) {
      if (l.rClk != null) {
        for (int q = 0; q < threads.size(); q++) {
          if (q != t.id && l.rClk[q] > t.sc[q]) {
            race(l.rSite[q], site);
          }
        }
      }
      l.wTid = t.id;
      l.wClk = t.sc[t.id];
      l.wSite = site;
    } else {
      if (l.rClk == null) {
        l.rClk = new int[maxT];
        l.rSite = new int[maxT];
      }
      l.rClk[t.id] = t.sc[t.id];
      l.rSite[t.id] = site;
    }
  }

  /** An access to an atomic variable that is not plain; it conflicts with plain ones only. */
  void atomic(T t, Loc l, boolean write, int site) {
    if (!wantRaces) {
      return;
    }
    if (l.wTid >= 0 && l.wTid != t.id && t.sc[l.wTid] < l.wClk) {
      race(l.wSite, site);
    }
    if (l.aSite == null) {
      l.awClk = new int[maxT];
      l.arClk = new int[maxT];
      l.aSite = new int[maxT];
    }
    if (write && l.rClk != null) {
      for (int q = 0; q < threads.size(); q++) {
        if (q != t.id && l.rClk[q] > t.sc[q]) {
          race(l.rSite[q], site);
        }
      }
    }
    (write ? l.awClk : l.arClk)[t.id] = t.sc[t.id];
    l.aSite[t.id] = site;
  }

  /** A plain access to an atomic variable. */
  void plainAtomic(T t, Loc l, boolean write, int site) {
    if (l.aSite != null) {
      for (int q = 0; q < threads.size(); q++) {
        if (q != t.id && (l.awClk[q] > t.sc[q] || write && l.arClk[q] > t.sc[q])) {
          race(l.aSite[q], site);
        }
      }
    }
    plain(t, l, write, site);
  }

  private void race(int s1, int s2) {
    String a = Sites.name(s1);
    String b = Sites.name(s2);
    if (Sites.harness(s1) || Sites.harness(s2)) {
      return;
    }
    String k = "data race (no happens-before): " + (a.compareTo(b) < 0 ? a + " / " + b
        : b + " / " + a);
    races.add(k);
    if (wantRaces) {
      fail(k, null);
    }
  }

  List<Rec> trace() {
    return trace;
  }

  // ------------------------------------------------------------------ helpers for Rt

  boolean othersEnabled(T me) {
    for (T o : threads) {
      if (o != me && !o.finished && !o.quiesce && !(o.desc != null && o.desc.endsWith("(timed)"))
          && (o.enabled == null || o.enabled.ok() || o.interruptible && o.interrupted)) {
        return true;
      }
    }
    return false;
  }

  void spin(String what) {
    T t = current;
    if (++t.spins > 3) {
      t.spinMark = nSteps;
    }
    op(Modes.R, null, -1, what, null, false, false);
  }

  Thread threadOf(T t) {
    if (t.thread == null) {
      t.thread = new Thread(t.name);
      byThread.put(t.thread, t);
    }
    return t.thread;
  }

  void interruptCheck(T t) throws InterruptedException {
    if (t.interrupted) {
      t.interrupted = false;
      throw new InterruptedException();
    }
  }

  void joinClocks(T t, T o) {
    join(t.clock, o.clock);
    join(t.sc, o.sc);
  }

  void joinAll(T t) {
    for (T o : threads) {
      joinClocks(t, o);
    }
  }
}
