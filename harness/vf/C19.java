package vf;

import static vf.Kit.*;

import com.webotech.statemachine.GenericStateMachine;
import com.webotech.statemachine.strategy.EventProcessingStrategyFactory.Config;
import com.webotech.statemachine.util.Threads;
import java.util.ArrayList;
import java.util.HashSet;
import java.util.List;
import java.util.Set;
import java.util.concurrent.ThreadFactory;
import mc.Mc;
import mc.Rec;
import mc.Scenario;

/** Which threads run what, and what they are called. */
public final class C19 {

  private static void named(String t, String base, String what) {
    Mc.check(t.matches(java.util.regex.Pattern.quote(base) + "-\\d+"),
        what + " on thread " + t + " instead of " + base + "-<number>");
  }

  /** every callback of an event ran on a thread called base-number */
  private static void callbacks(String base, int least) {
    int n = 0;
    for (Rec r : Mc.trace()) {
      boolean cb = r.what.startsWith("begin") || r.what.startsWith("end") || r.what.startsWith(
          "entry") || r.what.startsWith("exit") || r.what.startsWith("unmapped")
          || r.what.startsWith("exception");
      if (cb && !r.key().contains(IMMEDIATE)) {
        n++;
        named(r.thread, base, r.toString());
      }
    }
    Mc.check(n >= least, "only " + n + " callbacks");
  }

  public static void scenarios(boolean thorough, List<Scenario> out) {
    out.add(Scenario.of("threads of factories are named apart", () -> {
      ThreadFactory f = Threads.newNamedDaemonThreadFactory("x");
      ThreadFactory g = Mc.flip() ? f : Threads.newNamedDaemonThreadFactory("x");
      List<Thread> all = java.util.Collections.synchronizedList(new ArrayList<>());
      List<Mc.Th> ths = new ArrayList<>();
      for (int i = 0; i < 2; i++) {
        ths.add(Mc.spawn("t" + i, () -> {
          all.add(f.newThread(() -> {
          }));
          all.add(g.newThread(() -> {
          }));
        }));
      }
      all.add(f.newThread(() -> {
      }));
      for (Mc.Th t : ths) {
        t.join();
      }
      Set<String> names = new HashSet<>();
      for (Thread t : all) {
        named(t.getName(), "x", "created");
        Mc.check(names.add(t.getName()), "two threads are called " + t.getName());
        Mc.check(t.isDaemon(), t.getName() + " is no daemon thread");
      }
    }).weight(3));
    out.add(Scenario.seq("factories of every kind", () -> {
      String[] names = {"a", "", "a-1", "%s", "thread name"};
      String n = names[Mc.choose(names.length)];
      boolean withHandler = Mc.flip();
      Thread.UncaughtExceptionHandler h = (t, e) -> Mc.rec("handler", t.getName(), e);
      ThreadFactory f = withHandler ? Threads.newNamedDaemonThreadFactory(n, h)
          : Threads.newNamedDaemonThreadFactory(n);
      int k = new int[]{1, 2, 3, 700}[Mc.choose(4)];
      List<String> ran = new ArrayList<>();
      Set<String> seen = new HashSet<>();
      for (int i = 0; i < k; i++) {
        int j = i;
        Thread t = f.newThread(() -> ran.add("r" + j));
        named(t.getName(), n, "created");
        Mc.check(seen.add(t.getName()), "two threads are called " + t.getName());
        Mc.check(t.isDaemon(), "daemon");
        Mc.check(!withHandler || t.getUncaughtExceptionHandler() == h,
            "the uncaught exception handler is not the given one");
        t.run();
        Mc.eq(i + 1, ran.size(), "the task was run by the thread");
      }
    }));
    // machines: every callback of an event is on the thread of the configured executor
    String[] how = {"no name", "a name", "an executor", "two executor threads"};
    for (int dd = 0; dd < 2; dd++) {
      boolean drop = dd == 1;
      for (int hh = 0; hh < 4; hh++) {
        int h = hh;
        out.add(Scenario.of("callbacks of events, " + how[hh] + (drop ? ", drop-duplicates" : ""),
            () -> {
              Config<Object, Object> c = config("");
              String base = "state-machine";
              if (h == 1) {
                base = new String[]{"mine", "", " ", "%s"}[Mc.choose(4)];
                c.withThreadName(base);
              } else if (h >= 2) {
                c.withExecutor(Mc.executor(h - 1, "pool")).withThreadName("not used");
                base = "pool";
              }
              Ring r = drop ? dropRing(c, null) : ring(c, null);
              r.m.start();
              for (Rec x : Mc.trace()) {
                Mc.eq("main", x.thread, x + " of the thread that starts the machine");
              }
              Mc.eq(3, Mc.trace().size(), "callbacks of starting");
              Mc.Th t = Mc.spawn("f", () -> r.m.fire(ev("x")));
              r.m.fire(ev("u"));
              t.join();
              Mc.quiesce();
              callbacks(base, 5);
            }).weight(h == 3 ? 5 : 2));
        out.add(Scenario.seq("every sequence of events, " + how[hh] + (drop ? ", drop-duplicates"
            : ""), () -> {
          Config<Object, Object> c = config("");
          String base = "state-machine";
          if (h == 1) {
            c.withThreadName("mine");
            base = "mine";
          } else if (h >= 2) {
            c.withExecutor(Mc.executor(h - 1, "pool")).withThreadName("not used");
            base = "pool";
          }
          int fail = Mc.choose(3);
          Hook k = (w, s, e, sm) -> {
            if (fail > 0 && w.equals(fail == 1 ? "entry" : "exit") && nm(e).equals("x")) {
              throw new IllegalStateException("boom");
            }
          };
          Ring r = drop ? dropRing(c, k) : ring(c, k);
          r.m.start();
          for (int i = 0; i < (thorough ? 6 : 4); i++) {
            r.m.fire(ev(new String[]{"x", "n", "u", "e"}[Mc.choose(4)]));
            if (Mc.flip()) {
              Mc.quiesce();
            }
          }
          Mc.quiesce();
          callbacks(base, 1);
          for (Rec x : Mc.trace()) {
            if (x.what.equals("exception")) {
              Mc.check(x.args[2] instanceof String || ((Thread) x.args[2]).getName().equals(
                  x.thread), "the report names thread " + x.args[2] + " but is made on " + x.thread);
            }
          }
        }));
      }
    }
    out.add(Scenario.of("an action fires: the event is processed later, on the executor's thread",
        () -> {
          GenericStateMachine<Object, Object>[] m = new GenericStateMachine[1];
          Hook h = (w, s, e, sm) -> {
            if (w.equals("entry") && !nm(e).equals("n")) {
              sm.fire(ev("n"));
            }
          };
          Ring r = ring(config(""), h);
          r.m.start();
          r.m.fire(ev("x"));
          Mc.quiesce();
          callbacks("state-machine", 6);
        }).weight(3));
    // a worker that died of an error is replaced by one with the same kind of name
    out.add(Scenario.seq("after an error in an action", () -> {
      Throwable[] kinds = {new AssertionError("boom"), new StackOverflowError(),
          new OutOfMemoryError("driver"), new Error("plain"), new NoClassDefFoundError("x"),
          new ExceptionInInitializerError(new IllegalStateException()),
          new IllegalStateException("no error"), new InterruptedException()};
      Throwable boom = kinds[Mc.choose(kinds.length)];
      boolean named = Mc.flip();
      Config<Object, Object> c = config("");
      if (named) {
        c.withThreadName("mine");
      }
      Hook h = (w, s, e, sm) -> {
        if (w.equals("exit") && nm(e).equals("x")) {
          Kit.<RuntimeException>sneak(boom);
        }
      };
      Ring r = ring(c, h);
      r.m.start();
      for (int i = 0; i < 4; i++) {
        r.m.fire(ev(Mc.flip() ? "x" : "n"));
        Mc.quiesce();
      }
      callbacks(named ? "mine" : "state-machine", 4);
    }));
    // apps
    for (int kk = 0; kk < 3; kk++) {
      int k = kk;
      out.add(Scenario.of("apps, " + new String[]{"default thread name", "own thread name",
          "context class with its own thread name"}[kk], () -> {
        String[] base = {"app", "worker", "fixed"};
        KApp.Ctx c = KApp.ctx(2, null);
        if (k == 1) {
          c.withAppThreadName("worker");
        }
        if (k == 2) {
          Fixed f = new Fixed();
          FixedApp a = new FixedApp(f);
          Mc.Th t = Mc.spawn("start()", a::start);
          Mc.quiesce();
          a.stop();
          t.join();
          Mc.quiesce();
        } else {
          KApp.App a = new KApp.App(c, 2, true);
          a.setStateMachineListener(KApp.changes(null));
          Mc.Th t = KApp.launch(a);
          Mc.quiesce();
          a.stop();
          t.join();
          Mc.quiesce();
          callbacks(base[k], 10);
        }
        int n = 0;
        for (Rec r : Mc.trace()) {
          if (r.what.startsWith("start") && r.args.length == 1 && r.args[0] instanceof Integer
              || r.what.startsWith("stop") && r.args.length == 1 && r.args[0] instanceof Integer) {
            n++;
            named(r.thread, base[k], r.toString());
          }
        }
        Mc.eq(k == 2 ? 2 : 8, n, "calls of subsystems");
        Mc.eq(base[k], k == 2 ? "fixed" : c.getAppThreadName(), "thread name");
      }).asWritten());
    }
  }

  static final class Fixed extends com.webotech.statemachine.service.AbstractAppContext<Fixed> {

    Fixed() {
      super("Fixed");
      withSubsystems(List.of(new com.webotech.statemachine.service.api.Subsystem<Fixed>() {
        @Override
        public void start(Fixed f) {
          Mc.rec("start", 0);
        }

        @Override
        public void stop(Fixed f) {
          Mc.rec("stop", 0);
        }
      }));
    }

    @Override
    public String getAppThreadName() {
      return "fixed";
    }
  }

  static final class FixedApp extends
      com.webotech.statemachine.service.AbstractAppService<Fixed> {

    FixedApp(Fixed f) {
      super(f);
    }
  }
}
