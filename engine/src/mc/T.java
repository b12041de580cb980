package mc;

import java.util.ArrayList;
import jdk.internal.vm.Continuation;

/** A modelled thread: a continuation that stops before every visible operation. */
final class T {

  final Sched sched;
  final int id;
  final String name;
  final long canon;
  int children;
  Thread thread;
  Cont cont;
  boolean finished;
  boolean interrupted;
  final Loc intr = new Loc("interrupt");
  boolean harness;
  boolean allowBlocked;
  boolean parkPermit;
  // pending operation
  final int[] modes = new int[12];
  final Loc[] locs = new Loc[12];
  int nAcc;
  int site;
  String desc;
  Cond enabled;
  boolean interruptible;
  boolean idle;
  boolean quiesce;
  boolean timeout;
  long spinMark = -1;
  boolean started;
  // clocks
  final int[] clock;
  final int[] sc;
  int steps;
  int consecutive;
  int spins;
  final ArrayList<Object[]> openTraversals = new ArrayList<>();
  java.util.IdentityHashMap<ThreadLocal<?>, Object> locals;
  Throwable death;

  T(Sched s, int id, String name, long canon) {
    this.sched = s;
    this.id = id;
    this.name = name;
    this.canon = canon;
    this.clock = new int[s.maxT];
    this.sc = new int[s.maxT];
  }

  interface Cond {

    boolean ok();
  }

  static final class Cont extends Continuation {

    Cont(Runnable r) {
      super(Sched.SCOPE, r);
    }

    @Override
    protected void onPinned(Pinned reason) {
      // the caller goes on without a scheduling point
    }
  }

  @Override
  public String toString() {
    return name;
  }
}
