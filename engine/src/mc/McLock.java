package mc;

import java.util.ArrayList;
import java.util.Date;
import java.util.concurrent.TimeUnit;
import java.util.concurrent.locks.Condition;
import java.util.concurrent.locks.ReentrantLock;

/** Stand-in for ReentrantLock. */
public class McLock extends ReentrantLock {

  private final transient Loc loc = new Loc("lock");
  private transient T owner;
  private int holds;

  public McLock() {
  }

  public McLock(boolean fair) {
  }

  private void take(Sched s, String d, boolean intr) {
    T t = s.current;
    s.op(Modes.ACQ, loc, -1, d, () -> owner == null, intr, false);
    if (owner == null) {
      owner = t;
      holds = 1;
      s.syncAcquire(t, loc);
    }
  }

  @Override
  public void lock() {
    Sched s = Sched.cur();
    if (s == null) {
      return;
    }
    if (owner == s.current) {
      holds++;
      return;
    }
    take(s, "lock", false);
  }

  @Override
  public void lockInterruptibly() throws InterruptedException {
    Sched s = Sched.cur();
    s.interruptCheck(s.current);
    if (owner == s.current) {
      holds++;
      return;
    }
    take(s, "lock", true);
    if (owner != s.current) {
      s.interruptCheck(s.current);
    }
  }

  @Override
  public boolean tryLock() {
    Sched s = Sched.cur();
    if (s == null) {
      return true;
    }
    T t = s.current;
    if (owner == t) {
      holds++;
      return true;
    }
    s.op(Modes.W, loc, -1, "tryLock");
    if (owner == null) {
      owner = t;
      holds = 1;
      s.syncAcquire(t, loc);
      return true;
    }
    return false;
  }

  @Override
  public boolean tryLock(long n, TimeUnit u) throws InterruptedException {
    Sched s = Sched.cur();
    s.interruptCheck(s.current);
    Rt.timed(s, s.current, true, () -> owner == null || owner == s.current, "tryLock");
    return tryLock();
  }

  @Override
  public void unlock() {
    Sched s = Sched.cur();
    if (s == null || s.violation != null) {
      return;
    }
    if (owner != s.current) {
      throw new IllegalMonitorStateException();
    }
    if (holds > 1) {
      holds--;
      return;
    }
    s.op(Modes.REL, loc, -1, "unlock");
    s.syncRelease(s.current, loc);
    owner = null;
    holds = 0;
  }

  @Override
  public boolean isLocked() {
    Sched s = Sched.cur();
    s.op(Modes.R, loc, -1, "isLocked");
    return owner != null;
  }

  @Override
  public boolean isHeldByCurrentThread() {
    Sched s = Sched.cur();
    return s != null && owner == s.current;
  }

  @Override
  public int getHoldCount() {
    return isHeldByCurrentThread() ? holds : 0;
  }

  @Override
  public Condition newCondition() {
    return new Cond();
  }

  private final class Cond implements Condition {

    final ArrayList<T> waiters = new ArrayList<>();

    private boolean doAwait(boolean timed, boolean intr) throws InterruptedException {
      Sched s = Sched.cur();
      T t = s.current;
      if (owner != t) {
        throw new IllegalMonitorStateException();
      }
      if (intr) {
        s.interruptCheck(t);
      }
      int h = holds;
      s.op(Modes.REL, loc, -1, "condition await: release");
      s.syncRelease(t, loc);
      owner = null;
      holds = 0;
      waiters.add(t);
      boolean ok;
      if (timed) {
        ok = Rt.timed(s, t, true, () -> !waiters.contains(t), "condition await");
      } else {
        s.op(Modes.R, null, -1, "condition await", () -> !waiters.contains(t), intr, false);
        ok = !waiters.contains(t);
      }
      waiters.remove(t);
      while (owner != t) {
        take(s, "condition await: re-acquire", false);
      }
      holds = h;
      if (intr) {
        s.interruptCheck(t);
      }
      return ok;
    }

    @Override
    public void await() throws InterruptedException {
      doAwait(false, true);
    }

    @Override
    public void awaitUninterruptibly() {
      try {
        doAwait(false, false);
      } catch (InterruptedException e) {
        throw new IllegalStateException(e);
      }
    }

    @Override
    public long awaitNanos(long n) throws InterruptedException {
      return doAwait(true, true) ? 1 : 0;
    }

    @Override
    public boolean await(long n, TimeUnit u) throws InterruptedException {
      return doAwait(true, true);
    }

    @Override
    public boolean awaitUntil(Date d) throws InterruptedException {
      return doAwait(true, true);
    }

    @Override
    public void signal() {
      if (!waiters.isEmpty()) {
        waiters.remove(0);
      }
    }

    @Override
    public void signalAll() {
      waiters.clear();
    }
  }
}
