package mc;

import java.util.List;
import java.util.concurrent.BlockingQueue;
import java.util.concurrent.Executors;
import java.util.concurrent.RejectedExecutionHandler;
import java.util.concurrent.ThreadFactory;
import java.util.concurrent.ThreadPoolExecutor;
import java.util.concurrent.TimeUnit;

/** Stand-in for directly constructed thread pools; runs on the executor model. */
public class McTPE extends ThreadPoolExecutor {

  private final McExecutor x;

  public McTPE(int core, int max, long keep, TimeUnit unit, BlockingQueue<Runnable> q) {
    this(core, max, keep, unit, q, Executors.defaultThreadFactory());
  }

  public McTPE(int core, int max, long keep, TimeUnit unit, BlockingQueue<Runnable> q,
      RejectedExecutionHandler h) {
    this(core, max, keep, unit, q, Executors.defaultThreadFactory());
  }

  public McTPE(int core, int max, long keep, TimeUnit unit, BlockingQueue<Runnable> q,
      ThreadFactory f, RejectedExecutionHandler h) {
    this(core, max, keep, unit, q, f);
  }

  public McTPE(int core, int max, long keep, TimeUnit unit, BlockingQueue<Runnable> q,
      ThreadFactory f) {
    super(core, max, keep, unit, q, f);
    this.x = new McExecutor(q.remainingCapacity() < Integer.MAX_VALUE ? max : Math.max(1, core), f);
  }

  @Override
  public void execute(Runnable r) {
    x.execute(r);
  }

  @Override
  public void shutdown() {
    x.shutdown();
  }

  @Override
  public List<Runnable> shutdownNow() {
    return x.shutdownNow();
  }

  @Override
  public boolean isShutdown() {
    return x.isShutdown();
  }

  @Override
  public boolean isTerminated() {
    return x.isTerminated();
  }

  @Override
  public boolean awaitTermination(long n, TimeUnit u) {
    return x.awaitTermination(n, u);
  }

  @Override
  public boolean remove(Runnable r) {
    return x.remove(r);
  }
}
