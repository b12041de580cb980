package mc;

import java.util.IdentityHashMap;
import java.util.concurrent.TimeUnit;
import java.util.concurrent.locks.Condition;
import java.util.concurrent.locks.ReentrantReadWriteLock;

/** Stand-in for ReentrantReadWriteLock. */
public class McRWLock extends ReentrantReadWriteLock {

  private final transient Loc loc = new Loc("rwlock");
  private transient T writer;
  private int wHolds;
  private final transient IdentityHashMap<T, Integer> readers = new IdentityHashMap<>();
  private final transient Rd rd;
  private final transient Wr wr;

  public McRWLock() {
    this(false);
  }

  public McRWLock(boolean fair) {
    rd = new Rd(this);
    wr = new Wr(this);
  }

  @Override
  public ReadLock readLock() {
    return rd == null ? super.readLock() : rd;
  }

  @Override
  public WriteLock writeLock() {
    return wr == null ? super.writeLock() : wr;
  }

  private final class Rd extends ReadLock {

    Rd(ReentrantReadWriteLock l) {
      super(l);
    }

    @Override
    public void lock() {
      Sched s = Sched.cur();
      if (s == null) {
        return;
      }
      T t = s.current;
      if (!readers.containsKey(t) && writer != t) {
        s.op(Modes.W, loc, -1, "read lock", () -> writer == null, false, false);
        s.syncAcquire(t, loc);
      }
      readers.merge(t, 1, Integer::sum);
    }

    @Override
    public void lockInterruptibly() {
      lock();
    }

    @Override
    public boolean tryLock() {
      Sched s = Sched.cur();
      T t = s.current;
      s.op(Modes.W, loc, -1, "try read lock");
      if (writer != null && writer != t) {
        return false;
      }
      s.syncAcquire(t, loc);
      readers.merge(t, 1, Integer::sum);
      return true;
    }

    @Override
    public boolean tryLock(long n, TimeUnit u) {
      return tryLock();
    }

    @Override
    public void unlock() {
      Sched s = Sched.cur();
      if (s == null || s.violation != null) {
        return;
      }
      T t = s.current;
      Integer h = readers.get(t);
      if (h == null) {
        throw new IllegalMonitorStateException();
      }
      if (h > 1) {
        readers.put(t, h - 1);
        return;
      }
      s.op(Modes.W, loc, -1, "read unlock");
      s.syncRelease(t, loc);
      readers.remove(t);
    }
  }

  private final class Wr extends WriteLock {

    Wr(ReentrantReadWriteLock l) {
      super(l);
    }

    @Override
    public void lock() {
      Sched s = Sched.cur();
      if (s == null) {
        return;
      }
      T t = s.current;
      if (writer != t) {
        s.op(Modes.W, loc, -1, "write lock", () -> writer == null && readers.isEmpty(), false,
            false);
        s.syncAcquire(t, loc);
        writer = t;
      }
      wHolds++;
    }

    @Override
    public void lockInterruptibly() {
      lock();
    }

    @Override
    public boolean tryLock() {
      Sched s = Sched.cur();
      T t = s.current;
      s.op(Modes.W, loc, -1, "try write lock");
      if (writer != t && (writer != null || !readers.isEmpty())) {
        return false;
      }
      s.syncAcquire(t, loc);
      writer = t;
      wHolds++;
      return true;
    }

    @Override
    public boolean tryLock(long n, TimeUnit u) {
      return tryLock();
    }

    @Override
    public void unlock() {
      Sched s = Sched.cur();
      if (s == null || s.violation != null) {
        return;
      }
      if (writer != s.current) {
        throw new IllegalMonitorStateException();
      }
      if (--wHolds > 0) {
        return;
      }
      s.op(Modes.W, loc, -1, "write unlock");
      s.syncRelease(s.current, loc);
      writer = null;
    }

    @Override
    public Condition newCondition() {
      throw new UnsupportedOperationException("condition of a modelled write lock");
    }

    @Override
    public boolean isHeldByCurrentThread() {
      Sched s = Sched.cur();
      return s != null && writer == s.current;
    }
  }
}
