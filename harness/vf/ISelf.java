package vf;

import java.util.concurrent.ConcurrentLinkedQueue;
import java.util.concurrent.CountDownLatch;
import java.util.concurrent.ExecutorService;
import java.util.concurrent.Executors;
import java.util.concurrent.atomic.AtomicInteger;
import java.util.concurrent.locks.ReentrantLock;
import mc.Mc;

/** Shared objects of the engine's own test programs (instrumented). */
public final class ISelf {

  int x;
  volatile int y;
  final AtomicInteger a = new AtomicInteger();
  final ConcurrentLinkedQueue<Integer> q = new ConcurrentLinkedQueue<>();
  final ReentrantLock l1 = new ReentrantLock();
  final Object l2 = new Object();
  final CountDownLatch latch = new CountDownLatch(1);
  final ExecutorService ex = Executors.newSingleThreadExecutor();
  static int st;

  void op(int o, int tag) {
    switch (o) {
      case 0 -> x = tag;
      case 1 -> Mc.note("x" + tag, x);
      case 2 -> y = tag;
      case 3 -> Mc.note("y" + tag, y);
      case 4 -> Mc.note("a" + tag, a.getAndIncrement());
      case 5 -> q.offer(tag);
      case 6 -> Mc.note("q" + tag, q.poll());
      case 7 -> {
        l1.lock();
        try {
          int v = x;
          x = v * 2 + 1;
        } finally {
          l1.unlock();
        }
      }
      case 8 -> {
        synchronized (l2) {
          synchronized (this) {
            y = y + 1;
          }
        }
      }
      case 9 -> {
        synchronized (this) {
          synchronized (l2) {
            x = x + 1;
          }
        }
      }
      case 10 -> {
        if (l1.tryLock()) {
          try {
            st = st + 1;
            Mc.note("t" + tag, 1);
          } finally {
            l1.unlock();
          }
        } else {
          Mc.note("t" + tag, 0);
        }
      }
      case 11 -> ex.execute(() -> Mc.note("e" + tag, a.getAndIncrement()));
      case 12 -> latch.countDown();
      case 13 -> {
        try {
          latch.await();
        } catch (InterruptedException e) {
          throw new IllegalStateException(e);
        }
        Mc.note("l" + tag, x);
      }
      case 14 -> Mc.note("s" + tag, q.stream().anyMatch(v -> v + x > 3));
      case 15 -> Mc.note("r" + tag, q.size());
      default -> synch(tag);
    }
  }

  synchronized void synch(int tag) {
    x = x * 3 + tag;
  }

  void fin() {
    Mc.note("fin", x, y, a.get(), st, q.toString());
  }
}
