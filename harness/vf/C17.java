package vf;

import static vf.KApp.*;

import java.util.List;
import mc.Mc;
import mc.Scenario;

/** start() of an app blocks exactly until the app has ended, and then returns normally. */
public final class C17 {

  private static boolean over(boolean exit) {
    for (String k : Mc.keys()) {
      if (k.equals("begin[STOPPED, stop, _END_]") || exit && k.startsWith("begin[") && k.endsWith(
          ", STOPPED]")) {
        return true;
      }
    }
    return false;
  }

  /** launches the app on its own thread; start() must not come back before the app is over */
  private static Mc.Th launch(App a, boolean exit, boolean interrupted) {
    return Mc.spawn("start()", () -> {
      try {
        a.start();
      } catch (RuntimeException e) {
        Mc.fail("start() of a fresh app failed: " + e);
      }
      Mc.rec("returned");
      Mc.check(over(exit), "start() has returned but the app has not ended: " + a.state());
      Mc.eq(interrupted, Mc.interrupted(), "interrupt status after start()");
    });
  }

  private static void ended(App a, Mc.Th t) {
    Mc.quiesce();
    Mc.check(t.finished(), "the app has ended but start() still blocks");
    Mc.eq(1, Mc.count("returned"), "normal returns of start()");
    Mc.eq("_END_", a.state(), "state");
    checkLife(a.n, null);
  }

  private static void blocks(Mc.Th t, String when) {
    Mc.check(!t.finished(), "start() does not block " + when);
  }

  public static void scenarios(boolean thorough, List<Scenario> out) {
    for (int xx = 0; xx < 2; xx++) {
      boolean exit = xx == 1;
      String mode = exit ? ", exits when stopped" : ", restartable";
      out.add(Scenario.of("stopped" + mode, () -> {
        App a = app(1, exit, null);
        Mc.Th t = launch(a, exit, false);
        Mc.quiesce();
        blocks(t, "while the app is STARTED");
        a.stop();
        Mc.quiesce();
        if (!exit) {
          blocks(t, "while the app is STOPPED and can be started again");
          a.stop();
        }
        ended(a, t);
      }));
      out.add(Scenario.of("stopped as soon as possible" + mode, () -> {
        App a = app(0, exit, null);
        Mc.Th t = launch(a, exit, false);
        Mc.Th s = Mc.spawn("s", () -> Mc.note(call(a, "stop")));
        s.join();
        Mc.quiesce();
        if ("STARTED".equals(a.state())) {
          blocks(t, "while the app is STARTED");
          a.stop();
          Mc.quiesce();
        }
        if ("STOPPED".equals(a.state())) {
          Mc.check(!exit, "the app stays STOPPED");
          blocks(t, "while the app is STOPPED and can be started again");
          a.stop();
        }
        ended(a, t);
      }).weight(3));
      out.add(Scenario.of("an error at any time" + mode, () -> {
        App a = app(1, exit, null);
        Mc.Th t = launch(a, exit, false);
        Mc.Th s = Mc.spawn("s", () -> a.error(new IllegalStateException("driver")));
        s.join();
        Mc.quiesce();
        if ("STARTED".equals(a.state())) {
          blocks(t, "while the app is STARTED");
          a.stop();
          Mc.quiesce();
        }
        if (!exit) {
          blocks(t, "while the app is STOPPED and can be started again");
          a.stop();
        }
        ended(a, t);
      }).weight(3));
      out.add(Scenario.of("an error while it is stopped" + mode, () -> {
        App a = app(1, exit, null);
        Mc.Th t = launch(a, exit, false);
        Mc.quiesce();
        Mc.Th s = Mc.spawn("s", () -> a.error(new IllegalStateException("driver")));
        Mc.note(call(a, "stop"));
        s.join();
        Mc.quiesce();
        if ("STOPPED".equals(a.state())) {
          Mc.check(!exit, "the app stays STOPPED");
          blocks(t, "while the app is STOPPED and can be started again");
          a.stop();
        }
        ended(a, t);
      }).weight(3));
      out.add(Scenario.seq("a subsystem fails" + mode, () -> {
        boolean inStart = Mc.flip();
        int bad = Mc.choose(2);
        App a = app(2, exit, (w, i) -> {
          if (i == bad && w.equals(inStart ? "start" : "stop")) {
            throw new IllegalArgumentException("subsystem " + i);
          }
        });
        Mc.Th t = Mc.spawn("start()", () -> {
          a.start();
          Mc.rec("returned");
          Mc.check(over(exit), "start() has returned but the app has not ended: " + a.state());
        });
        Mc.quiesce();
        if (!inStart) {
          blocks(t, "while the app is STARTED");
          a.stop();
          Mc.quiesce();
        }
        if (!exit) {
          blocks(t, "while the app is STOPPED and can be started again");
          a.stop();
          Mc.quiesce();
        }
        Mc.check(t.finished(), "the app has ended but start() still blocks");
        Mc.eq("_END_", a.state(), "state");
      }));
      out.add(Scenario.of("interrupted while it runs" + mode, () -> {
        App a = app(2, exit, null);
        Mc.Th t = Mc.spawn("start()", () -> {
          a.start();
          Mc.rec("returned");
          Mc.check(Mc.interrupted(), "start() has cleared the interrupt status");
        });
        Mc.quiesce();
        blocks(t, "while the app is STARTED");
        Mc.interrupt(t);
        Mc.quiesce();
        Mc.check(t.finished(), "start() still blocks although its thread was interrupted");
        Mc.eq(1, Mc.count("returned"), "normal returns of start()");
        Mc.eq(exit ? "_END_" : "STOPPED", a.state(), "state after the interrupt");
        Mc.eq(1, Mc.count("stopped", 0), "stops of subsystem 0");
        Mc.eq(1, Mc.count("stopped", 1), "stops of subsystem 1");
        checkLife(2, null);
      }).weight(2));
      out.add(Scenario.of("interrupted after the app has ended" + mode, () -> {
        App a = app(0, exit, null);
        Mc.Th t = Mc.spawn("start()", () -> {
          a.start();
          Mc.rec("returned");
        });
        Mc.quiesce();
        a.stop();
        Mc.quiesce();
        if (!exit) {
          a.stop();
          Mc.quiesce();
        }
        Mc.check(t.finished(), "the app has ended but start() still blocks");
        Mc.interrupt(t);
        ended(a, t);
      }));
      for (int ww = 0; ww < 2; ww++) {
        boolean stopInListener = ww == 0;
        out.add(Scenario.of((stopInListener ? "stopped by a listener" : "an error in a listener")
            + mode, () -> {
          App[] a = new App[1];
          a[0] = app(1, exit, null);
          a[0].setStateMachineListener(changes((w, i) -> {
            if (w.equals("end STARTED")) {
              Mc.rec(call(a[0], stopInListener ? "stop" : "error"));
            }
          }));
          Mc.Th t = launch(a[0], exit, false);
          Mc.quiesce();
          Mc.eq(1, Mc.count(stopInListener ? "stop returned" : "error returned"), "calls accepted");
          if (!exit) {
            blocks(t, "while the app is STOPPED and can be started again");
            Mc.eq("STOPPED", a[0].state(), "state");
            a[0].stop();
          }
          ended(a[0], t);
        }));
      }
    }
    for (int nn = 1; nn <= 3; nn += 2) {
      int n = nn;
      int rounds = n == 1 ? thorough ? 5 : 4 : 3;
      out.add(Scenario.seq("failures one after another, " + n + " subsystems", () -> {
        // what went wrong before makes no difference to the next time
        int[] plan = {0, 0};
        Exception[] kinds = {new IllegalStateException("driver"), new NullPointerException(),
            new RuntimeException("with a cause", new InterruptedException()),
            new InterruptedException(), null};
        App a = app(n, false, (w, i) -> {
          if (i == n - 1 && (w.equals("start") && plan[0] == 1 || w.equals("stop") && plan[0] == 2)) {
            if (kinds[plan[1]] instanceof RuntimeException e) {
              throw e;
            }
            Kit.sneak(kinds[plan[1]] == null ? new Exception() : kinds[plan[1]]);
          }
        });
        Mc.Th t = launch(a, false, false);
        Mc.quiesce();
        for (int k = 0; k < rounds; k++) {
          if (k > 0) {
            plan[0] = Mc.choose(4);
            plan[1] = plan[0] == 0 ? 0 : Mc.choose(kinds.length);
            Mc.note(call(a, "start"));
            Mc.quiesce();
          } else {
            plan[0] = Mc.flip() ? 3 : 0;
          }
          if (plan[0] != 1) {
            Mc.eq("STARTED", a.state(), "state after a start, " + k);
            if (plan[0] == 3) {
              a.error(kinds[plan[1]]);
            } else {
              Mc.note(call(a, "stop"));
            }
            Mc.quiesce();
          }
          Mc.eq("STOPPED", a.state(), "state in the end of round " + k);
          blocks(t, "while the app is STOPPED and can be started again");
        }
        plan[0] = 0;
        a.stop();
        Mc.quiesce();
        Mc.check(t.finished(), "the app has ended but start() still blocks");
        Mc.eq("_END_", a.state(), "state");
      }).weight(2));
    }
    out.add(Scenario.of("starting it again does not block", () -> {
      App a = app(1, false, null);
      Mc.Th t = launch(a, false, false);
      Mc.quiesce();
      a.stop();
      Mc.quiesce();
      blocks(t, "while the app is STOPPED and can be started again");
      Mc.Th u = Mc.spawn("again", () -> a.start());
      Mc.quiesce();
      Mc.check(u.finished(), "the second start() blocks");
      Mc.eq("STARTED", a.state(), "state");
      blocks(t, "after the app was started again");
      a.stop();
      Mc.quiesce();
      blocks(t, "while the app is STOPPED and can be started again");
      a.stop();
      ended(a, t);
    }).weight(2));
    out.add(Scenario.of("restarted and ended at once", () -> {
      App a = app(0, false, null);
      Mc.Th t = launch(a, false, false);
      Mc.quiesce();
      a.stop();
      Mc.quiesce();
      Mc.Th u = Mc.spawn("again", () -> Mc.note(call(a, "start")));
      Mc.note(call(a, "stop"));
      u.join();
      Mc.quiesce();
      for (int i = 0; i < 2 && !"_END_".equals(a.state()); i++) {
        blocks(t, "while the app has not ended");
        a.stop();
        Mc.quiesce();
      }
      ended(a, t);
    }).weight(3));
  }
}
