package mc;

import java.util.ArrayList;
import java.util.ArrayDeque;
import java.util.List;
import java.util.concurrent.AbstractExecutorService;
import java.util.concurrent.RejectedExecutionException;
import java.util.concurrent.ThreadFactory;
import java.util.concurrent.TimeUnit;

/**
 * Model of java.util.concurrent.ThreadPoolExecutor with an unbounded FIFO queue: same rules for
 * creating workers (one per execute until the core size is reached), first task, queueing, death of
 * a worker by an uncaught exception and its replacement, shutdown.
 */
public class McExecutor extends AbstractExecutorService {

  private static final class Item {

    final Runnable r;
    final int[] clock;
    final int[] sc;

    Item(Runnable r, T t) {
      this.r = r;
      this.clock = t.clock.clone();
      this.sc = t.sc.clone();
      t.sc[t.id]++;
    }
  }

  final int core;
  final ThreadFactory factory;
  final ArrayDeque<Item> queue = new ArrayDeque<>();
  final Loc loc = new Loc("executor");
  final ArrayList<T> workerThreads = new ArrayList<>();
  int workers;
  int busy;
  boolean shutdown;
  boolean stop;

  public McExecutor(int core, ThreadFactory factory) {
    this.core = core;
    this.factory = factory;
  }

  private Sched s() {
    Sched s = Sched.cur();
    if (s == null) {
      throw new IllegalStateException("executor used outside the model");
    }
    return s;
  }

  @Override
  public void execute(Runnable r) {
    if (r == null) {
      throw new NullPointerException();
    }
    Sched s = s();
    s.op(Modes.PUT, loc, -1, "executor execute");
    T t = s.current;
    if (shutdown) {
      throw new RejectedExecutionException("executor has been shut down");
    }
    if (workers < core) {
      workers++;
      boolean ok = false;
      try {
        ok = addWorker(s, r);
      } finally {
        if (!ok) {
          workers--;
        }
      }
    } else {
      queue.add(new Item(r, t));
    }
  }

  private boolean addWorker(Sched s, Runnable first) {
    busy++;
    Worker w = new Worker(first);
    Thread th = factory.newThread(w);
    if (th == null) {
      busy--;
      return false;
    }
    T t = s.newThread(th.getName(), th, th::run, false);
    workerThreads.add(t);
    w.t = t;
    return true;
  }

  private final class Worker implements Runnable {

    Runnable first;
    T t;

    Worker(Runnable first) {
      this.first = first;
    }

    @Override
    public void run() {
      boolean abrupt = true;
      try {
        while (true) {
          Runnable r = first;
          first = null;
          if (r == null) {
            r = next();
          }
          if (r == null) {
            break;
          }
          s().current.interrupted = stop; // as runWorker does before each task
          r.run();
        }
        abrupt = false;
      } catch (Abort a) {
        abrupt = false;
        throw a;
      } finally {
        if (!Mc.failed()) {
          workers--;
          busy--;
          if (abrupt && !stop && Sched.cur() != null) {
            s().op(Modes.R, null, -1, "replace dead worker");
            workers++;
            addWorker(s(), null);
          }
        }
      }
    }

    private Runnable next() {
      Sched s = s();
      T t = s.current;
      busy--;
      s.op(Modes.TAKE, loc, -1, "worker take", () -> !queue.isEmpty() || shutdown, false, true);
      busy++;
      Item i = queue.poll();
      if (i == null) {
        return null;
      }
      Sched.join(t.clock, i.clock);
      Sched.join(t.sc, i.sc);
      return i.r;
    }
  }

  @Override
  public void shutdown() {
    s().op(Modes.W, loc, -1, "executor shutdown");
    shutdown = true;
  }

  @Override
  public List<Runnable> shutdownNow() {
    s().op(Modes.W, loc, -1, "executor shutdownNow");
    shutdown = true;
    stop = true;
    List<Runnable> l = new ArrayList<>();
    for (Item i : queue) {
      l.add(i.r);
    }
    queue.clear();
    for (T t : workerThreads) {
      t.interrupted = true;
    }
    return l;
  }

  @Override
  public boolean isShutdown() {
    s().op(Modes.R, loc, -1, "executor isShutdown");
    return shutdown;
  }

  @Override
  public boolean isTerminated() {
    s().op(Modes.R, loc, -1, "executor isTerminated");
    return shutdown && workers == 0;
  }

  @Override
  public boolean awaitTermination(long timeout, TimeUnit unit) {
    Sched s = s();
    boolean ok = Rt.timed(s, s.current, true, () -> shutdown && workers == 0,
        "executor awaitTermination");
    s.joinAll(s.current);
    return ok;
  }

  public boolean remove(Runnable r) {
    s().op(Modes.W, loc, -1, "executor remove");
    return queue.removeIf(i -> i.r == r);
  }

  List<Runnable> tasks() {
    List<Runnable> l = new ArrayList<>();
    queue.forEach(i -> l.add(i.r));
    return l;
  }

  public int queueSize() {
    s().op(Modes.R, loc, -1, "executor queue size");
    return queue.size();
  }
}
