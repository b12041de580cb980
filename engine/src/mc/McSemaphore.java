package mc;

import java.util.concurrent.Semaphore;
import java.util.concurrent.TimeUnit;

/** Stand-in for Semaphore. */
public class McSemaphore extends Semaphore {

  private final transient Loc loc = new Loc("semaphore");

  public McSemaphore(int n) {
    super(n);
  }

  public McSemaphore(int n, boolean fair) {
    super(n);
  }

  private void acq(int n, boolean intr) throws InterruptedException {
    Sched s = Sched.cur();
    T t = s.current;
    if (intr) {
      s.interruptCheck(t);
    }
    s.op(Modes.W, loc, -1, "semaphore acquire", () -> availablePermits() >= n, intr, false);
    if (!super.tryAcquire(n)) {
      s.interruptCheck(t);
    }
    s.syncAcquire(t, loc);
  }

  @Override
  public void acquire() throws InterruptedException {
    acq(1, true);
  }

  @Override
  public void acquire(int n) throws InterruptedException {
    acq(n, true);
  }

  @Override
  public void acquireUninterruptibly() {
    try {
      acq(1, false);
    } catch (InterruptedException e) {
      throw new IllegalStateException(e);
    }
  }

  @Override
  public boolean tryAcquire() {
    Sched s = Sched.cur();
    s.op(Modes.W, loc, -1, "semaphore tryAcquire");
    boolean ok = super.tryAcquire();
    if (ok) {
      s.syncAcquire(s.current, loc);
    }
    return ok;
  }

  @Override
  public boolean tryAcquire(long n, TimeUnit u) {
    Sched s = Sched.cur();
    Rt.timed(s, s.current, true, () -> availablePermits() >= 1, "semaphore tryAcquire");
    return tryAcquire();
  }

  @Override
  public void release() {
    release(1);
  }

  @Override
  public void release(int n) {
    Sched s = Sched.cur();
    if (s == null) {
      super.release(n);
      return;
    }
    s.op(Modes.W, loc, -1, "semaphore release");
    s.syncRelease(s.current, loc);
    super.release(n);
  }
}
