package mc;

/** The only kind of real thread that runs instrumented code. */
final class Carrier extends Thread {

  Sched sched;
  boolean off;

  Carrier(Runnable r, String name) {
    super(null, r, name, 64L << 20);
    setDaemon(true);
  }
}
