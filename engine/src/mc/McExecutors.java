package mc;

import java.util.concurrent.Callable;
import java.util.concurrent.CompletableFuture;
import java.util.concurrent.Executor;
import java.util.concurrent.ExecutorService;
import java.util.concurrent.ThreadFactory;
import java.util.function.Supplier;

/** Stand-in for java.util.concurrent.Executors and the async methods of CompletableFuture. */
public final class McExecutors {

  private McExecutors() {
  }

  public static ThreadFactory defaultThreadFactory() {
    return r -> {
      Sched s = Sched.cur();
      return new Thread(r, "pool-thread-" + (s == null ? 0 : ++s.counter));
    };
  }

  public static ExecutorService newSingleThreadExecutor() {
    return new McExecutor(1, defaultThreadFactory());
  }

  public static ExecutorService newSingleThreadExecutor(ThreadFactory f) {
    return new McExecutor(1, f);
  }

  public static ExecutorService newFixedThreadPool(int n) {
    return new McExecutor(n, defaultThreadFactory());
  }

  public static ExecutorService newFixedThreadPool(int n, ThreadFactory f) {
    return new McExecutor(n, f);
  }

  public static ExecutorService newCachedThreadPool() {
    return new McExecutor(16, defaultThreadFactory());
  }

  public static ExecutorService newCachedThreadPool(ThreadFactory f) {
    return new McExecutor(16, f);
  }

  public static ExecutorService newWorkStealingPool() {
    return new McExecutor(16, defaultThreadFactory());
  }

  public static ExecutorService unconfigurableExecutorService(ExecutorService e) {
    return e;
  }

  public static <V> Callable<V> callable(Runnable r, V v) {
    return () -> {
      r.run();
      return v;
    };
  }

  public static CompletableFuture<Void> runAsync(Runnable r) {
    return CompletableFuture.runAsync(r, newCachedThreadPool());
  }

  public static CompletableFuture<Void> runAsync(Runnable r, Executor e) {
    return CompletableFuture.runAsync(r, e);
  }

  public static <U> CompletableFuture<U> supplyAsync(Supplier<U> r) {
    return CompletableFuture.supplyAsync(r, newCachedThreadPool());
  }

  public static <U> CompletableFuture<U> supplyAsync(Supplier<U> r, Executor e) {
    return CompletableFuture.supplyAsync(r, e);
  }
}
