package vf;

import static vf.KApp.*;

import java.util.ArrayList;
import java.util.List;
import mc.Mc;
import mc.Scenario;

/** Subsystems are started in order and stopped in reverse order, once per cycle. */
public final class C16 {

  private static String mode(boolean exit) {
    return exit ? ", exits when stopped" : ", restartable";
  }

  private static List<String> up(int n, String from) {
    List<String> l = new ArrayList<>();
    l.add("begin[" + from + ", start, STARTING]");
    for (int i = 0; i < n; i++) {
      l.add("start[" + i + "]");
      l.add("started[" + i + "]");
    }
    l.add("end[" + from + ", start, STARTING]");
    l.add("begin[STARTING, complete, STARTED]");
    l.add("end[STARTING, complete, STARTED]");
    return l;
  }

  private static List<String> down(int n, boolean exit) {
    List<String> l = new ArrayList<>();
    l.add("begin[STARTED, stop, STOPPING]");
    for (int i = n - 1; i >= 0; i--) {
      l.add("stop[" + i + "]");
      l.add("stopped[" + i + "]");
    }
    l.add("end[STARTED, stop, STOPPING]");
    l.add("begin[STOPPING, complete, STOPPED]");
    l.add("end[STOPPING, complete, STOPPED]");
    if (exit) {
      l.add("begin[STOPPED, stop, _END_]");
      l.add("end[STOPPED, stop, _END_]");
    }
    return l;
  }

  private static final List<String> INIT = List.of(
      "begin[_UNINITIALISED_, _immediate_, UNINITIALISED]",
      "end[_UNINITIALISED_, _immediate_, UNINITIALISED]");

  public static void scenarios(boolean thorough, List<Scenario> out) {
    for (int nn = 0; nn < 4; nn++) {
      for (int xx = 0; xx < 2; xx++) {
        int n = nn;
        boolean exit = xx == 1;
        out.add(Scenario.of(n + " subsystems, started and stopped" + mode(exit), () -> {
          App a = app(n, exit, null);
          Mc.Th t = launch(a);
          Mc.quiesce();
          List<String> want = new ArrayList<>(INIT);
          want.addAll(up(n, "UNINITIALISED"));
          Mc.eq(want, life(), "starting");
          Mc.eq("STARTED", a.state(), "state");
          a.stop();
          Mc.quiesce();
          want.addAll(down(n, exit));
          Mc.eq(want, life(), "stopping");
          Mc.eq(exit ? "_END_" : "STOPPED", a.state(), "state");
          if (!exit) {
            a.stop();
          }
          t.join();
          Mc.quiesce();
          checkLife(n, null);
        }));
        out.add(Scenario.seq(n + " subsystems, ten cycles" + mode(exit), () -> {
          App a = app(n, exit, null);
          Mc.Th t = launch(a);
          List<String> want = new ArrayList<>(INIT);
          for (int i = 0; i < 10; i++) {
            if (i > 0) {
              if (exit) {
                Mc.eq("start refused", call(a, "start"), "start after the end");
                break;
              }
              a.start();
            }
            Mc.quiesce();
            want.addAll(up(n, i == 0 ? "UNINITIALISED" : "STOPPED"));
            Mc.eq("STARTED", a.state(), "state");
            a.stop();
            Mc.quiesce();
            want.addAll(down(n, exit));
            Mc.eq(want, life(), "cycle " + i);
          }
          if (!exit) {
            a.stop();
          }
          t.join();
          Mc.quiesce();
        }));
      }
    }
    out.add(Scenario.seq("many subsystems, many cycles", () -> {
      int n = new int[]{5, 40, 150}[Mc.choose(3)];
      int cycles = new int[]{1, 2, 60}[Mc.choose(n > 100 ? 2 : 3)];
      boolean exit = cycles == 1;
      int bad = Mc.choose(3) - 1;
      int[] cycle = {0};
      App a = app(n, exit, (w, i) -> {
        if (w.equals("start") && cycle[0] == cycles - 1 && bad >= 0 && i == (bad == 0 ? 0 : n - 2)) {
          throw new IllegalStateException("boom");
        }
      });
      Mc.Th t = launch(a);
      List<String> want = new ArrayList<>(INIT);
      for (; cycle[0] < cycles; cycle[0]++) {
        if (cycle[0] > 0) {
          a.start();
        }
        Mc.quiesce();
        if (cycle[0] == cycles - 1 && bad >= 0) {
          break;
        }
        want.addAll(up(n, cycle[0] == 0 ? "UNINITIALISED" : "STOPPED"));
        Mc.eq("STARTED", a.state(), "state");
        a.stop();
        Mc.quiesce();
        want.addAll(down(n, exit));
        Mc.eq(want, life(), "cycle " + cycle[0]);
      }
      Mc.eq(exit ? "_END_" : "STOPPED", a.state(), "state");
      if (!exit) {
        a.stop();
      }
      t.join();
      Mc.quiesce();
      int k = bad < 0 ? n : bad == 0 ? 0 : n - 2;
      for (int i = 0; i < n; i++) {
        Mc.eq(cycles - (i >= k ? 1 : 0), Mc.count("started", i), "starts of subsystem " + i);
        Mc.eq(cycles - (bad >= 0 ? 1 : 0), Mc.count("stopped", i), "stops of subsystem " + i);
      }
    }));
    for (int xx = 0; xx < 2; xx++) {
      boolean exit = xx == 1;
      out.add(Scenario.seq("subsystems that fail" + mode(exit), () -> {
        int n = 1 + Mc.choose(4);
        boolean inStart = Mc.flip();
        int bad = Mc.choose(n);
        int cycle = Mc.choose(exit ? 1 : 3);
        int[] c = {0};
        App a = app(n, exit, (w, i) -> {
          if (c[0] == cycle && i == bad && w.equals(inStart ? "start" : "stop")) {
            throw new IllegalArgumentException("subsystem " + i);
          }
        });
        Mc.Th t = launch(a);
        for (c[0] = 0; c[0] < (exit ? 1 : 4); c[0]++) {
          if (c[0] > 0) {
            a.start();
          }
          Mc.quiesce();
          boolean fails = c[0] == cycle;
          Mc.eq(fails && inStart ? exit ? "_END_" : "STOPPED" : "STARTED", a.state(),
              "state after starting");
          Mc.eq(fails && inStart ? c[0] : c[0] + 1 - (inStart && c[0] > cycle ? 1 : 0),
              Mc.count("end", "STARTING", "complete", "STARTED"), "times STARTED");
          if (!(fails && inStart)) {
            a.stop();
            Mc.quiesce();
          }
          Mc.eq(exit ? "_END_" : "STOPPED", a.state(), "state after stopping");
          for (int i = 0; i < n; i++) {
            int up = 0;
            int down = 0;
            for (int k = 0; k <= c[0]; k++) {
              boolean f = k == cycle;
              up += f && inStart && i > bad ? 0 : 1;
              down += f && inStart || f && i < bad ? 0 : 1;
            }
            Mc.eq(up, Mc.count("start", i), "starts of subsystem " + i);
            if (!(c[0] >= cycle && !inStart && i < bad)) {
              Mc.eq(down, Mc.count("stop", i), "stops of subsystem " + i);
            }
          }
        }
        if (!exit) {
          a.stop();
        }
        t.join();
        Mc.quiesce();
        Mc.eq("_END_", a.state(), "state at the end");
      }));
      out.add(Scenario.of("an error while it starts" + mode(exit), () -> {
        App a = app(2, exit, null);
        Mc.Th t = launch(a);
        Mc.Th e = Mc.spawn("e", () -> a.error(new IllegalStateException("driver")));
        e.join();
        Mc.quiesce();
        boolean early = !Mc.keys().toString().contains("error");
        if (early && a.state().equals("STARTED")) {
          a.stop();
          Mc.quiesce();
        }
        Mc.eq(exit ? "_END_" : "STOPPED", a.state(), "state");
        for (int i = 0; i < 2; i++) {
          Mc.eq(1, Mc.count("start", i), "starts of subsystem " + i);
        }
        if (!exit) {
          a.stop();
        }
        t.join();
        Mc.quiesce();
        checkLife(2, null);
      }).weight(3));
      out.add(Scenario.of("two threads stop it" + mode(exit), () -> {
        App a = app(2, exit, null);
        Mc.Th t = launch(a);
        Mc.quiesce();
        Mc.Th s = launch(a, "stop");
        String r = call(a, "stop");
        s.join();
        Mc.check(r.equals("stop returned") || Mc.count("stop returned", "interrupted=false") == 1,
            "both stops were refused");
        Mc.quiesce();
        for (int i = 0; i < 2; i++) {
          Mc.eq(1, Mc.count("start", i), "starts of subsystem " + i);
          Mc.eq(1, Mc.count("stop", i), "stops of subsystem " + i);
        }
        checkLife(2, null);
        if (a.state().equals("STOPPED")) {
          a.stop();
        }
        t.join();
        Mc.quiesce();
        Mc.eq("_END_", a.state(), "state");
      }).weight(5));
      out.add(Scenario.of("stopped by one thread, an error on another" + mode(exit), () -> {
        App a = app(2, exit, null);
        Mc.Th t = launch(a);
        Mc.quiesce();
        Mc.Th e = launch(a, "error");
        Mc.note(call(a, "stop"));
        e.join();
        Mc.quiesce();
        checkLife(2, null);
        int stops = Mc.count("stop", 1);
        Mc.check(stops <= 1 && Mc.count("stop", 0) == stops, "subsystems stopped as a whole");
        Mc.check(List.of("STOPPED", "_END_").contains(a.state()), "state " + a.state());
        if (a.state().equals("STOPPED")) {
          a.stop();
        }
        t.join();
        Mc.quiesce();
      }).weight(5));
    }
    out.add(Scenario.seq("subsystems that are equal to each other, set more than once", () -> {
      class Sub implements com.webotech.statemachine.service.api.Subsystem<Ctx> {

        final int i;

        Sub(int i) {
          this.i = i;
        }

        @Override
        public void start(Ctx c) {
          Mc.rec("start", i);
          Mc.rec("started", i);
        }

        @Override
        public void stop(Ctx c) {
          Mc.rec("stop", i);
          Mc.rec("stopped", i);
        }

        @Override
        public boolean equals(Object o) {
          return o instanceof Sub;
        }

        @Override
        public int hashCode() {
          return 1;
        }
      }
      int n = 1 + Mc.choose(3);
      boolean exit = Mc.flip();
      int list = Mc.choose(3);
      boolean twice = Mc.flip();
      Ctx c = new Ctx("App");
      Mc.eq(List.of(), c.getSubsystems(), "subsystems of a new context");
      if (twice) {
        c.withSubsystems(List.of(new Sub(7), new Sub(8)));
        if (Mc.flip()) {
          c.getSubsystems();
        }
      }
      List<com.webotech.statemachine.service.api.Subsystem<Ctx>> l = list == 0 ? new ArrayList<>()
          : list == 1 ? new java.util.LinkedList<>()
              : new java.util.concurrent.CopyOnWriteArrayList<>();
      for (int i = 0; i < n; i++) {
        l.add(new Sub(i));
      }
      Mc.check(c.withSubsystems(l) == c, "withSubsystems returns the context");
      App a = new App(c, n, exit);
      a.setStateMachineListener(changes(null));
      Mc.Th t = launch(a);
      List<String> want = new ArrayList<>(INIT);
      for (int k = 0; k < (exit ? 1 : 2); k++) {
        if (k > 0) {
          a.start();
        }
        Mc.quiesce();
        want.addAll(up(n, k == 0 ? "UNINITIALISED" : "STOPPED"));
        Mc.eq(want, life(), "starting");
        a.stop();
        Mc.quiesce();
        want.addAll(down(n, exit));
        Mc.eq(want, life(), "stopping");
      }
      if (!exit) {
        a.stop();
      }
      t.join();
      Mc.quiesce();
    }));
    out.add(Scenario.seq("the same subsystem twice", () -> {
      boolean exit = Mc.flip();
      Ctx c = ctx(1, null);
      int i = Math.min(1, c.getSubsystems().size() - 1); // the first that records itself
      c.withSubsystems(List.of(c.getSubsystems().get(i), c.getSubsystems().get(i)));
      App a = new App(c, 2, exit);
      Mc.Th t = launch(a);
      Mc.quiesce();
      Mc.eq(2, Mc.count("started", 0), "starts");
      a.stop();
      Mc.quiesce();
      Mc.eq(2, Mc.count("stopped", 0), "stops");
      if (!exit) {
        a.stop();
      }
      t.join();
      Mc.quiesce();
    }));
    out.add(Scenario.of("two apps with subsystems of their own", () -> {
      boolean exit = Mc.flip();
      App[] a = new App[2];
      Mc.Th[] t = new Mc.Th[2];
      for (int k = 0; k < 2; k++) {
        int me = k;
        a[k] = new App(new Ctx("App" + k).withSubsystems(List.of(
            new com.webotech.statemachine.service.api.Subsystem<>() {
              @Override
              public void start(Ctx c) {
                Mc.note("up" + me, c.getAppName());
              }

              @Override
              public void stop(Ctx c) {
                Mc.note("down" + me, c.getAppName());
              }
            })), 1, exit);
      }
      for (int k = 0; k < 2; k++) {
        t[k] = launch(a[k]);
        Mc.quiesce();
        Mc.eq("STARTED", a[k].state(), "state of app " + k);
      }
      a[0].stop();
      a[1].stop();
      Mc.quiesce();
      for (int k = 0; k < 2; k++) {
        Mc.eq(1, Mc.count("up" + k), "starts in app " + k);
        Mc.eq(1, Mc.count("up" + k, "App" + k), "starts in app " + k);
        Mc.eq(1, Mc.count("down" + k), "stops in app " + k);
        Mc.eq(1, Mc.count("down" + k, "App" + k), "stops in app " + k);
        if (!exit) {
          a[k].stop();
        }
        t[k].join();
      }
      Mc.quiesce();
    }).weight(3));
    for (int xx = 0; xx < 2; xx++) {
      boolean exit = xx == 1;
      out.add(Scenario.of("an error while a subsystem is starting or stopping" + mode(exit), () -> {
        Mc.Latch gate = Mc.latch(1);
        boolean inStart = Mc.flip();
        int at = Mc.choose(2);
        int errors = 1 + Mc.choose(2);
        App a = app(2, exit, (w, i) -> {
          if (w.equals(inStart ? "start" : "stop") && i == at) {
            gate.await();
          }
        });
        Mc.Th t = launch(a);
        Mc.quiesce();
        if (!inStart) {
          a.stop();
          Mc.quiesce();
        }
        for (int i = 0; i < errors; i++) {
          a.error(new IllegalStateException("driver"));
        }
        Mc.eq(inStart ? "STARTING" : "STOPPING", a.state(), "state");
        gate.countDown();
        Mc.quiesce();
        Mc.eq(exit ? "_END_" : "STOPPED", a.state(), "state");
        for (int i = 0; i < 2; i++) {
          Mc.eq(1, Mc.count("started", i), "starts of subsystem " + i);
          Mc.eq(inStart ? 0 : 1, Mc.count("stopped", i), "stops of subsystem " + i);
        }
        checkLife(2, null);
        if (!exit) {
          a.start();
          Mc.quiesce();
          Mc.eq("STARTED", a.state(), "state");
          a.stop();
          Mc.quiesce();
          a.stop();
        }
        t.join();
        Mc.quiesce();
        checkLife(2, null);
      }).weight(3));
    }
    out.add(Scenario.of("two threads restart it", () -> {
      App a = app(2, false, null);
      Mc.Th t = launch(a);
      Mc.quiesce();
      a.stop();
      Mc.quiesce();
      Mc.Th s = launch(a, "start");
      String r = call(a, "start");
      s.join();
      Mc.check(r.equals("start returned") || Mc.count("start returned", "interrupted=false") == 1,
          "both starts were refused");
      Mc.quiesce();
      Mc.eq("STARTED", a.state(), "state");
      for (int i = 0; i < 2; i++) {
        Mc.eq(2, Mc.count("start", i), "starts of subsystem " + i);
        Mc.eq(1, Mc.count("stop", i), "stops of subsystem " + i);
      }
      checkLife(2, null);
      a.stop();
      Mc.quiesce();
      a.stop();
      t.join();
      Mc.quiesce();
      checkLife(2, null);
    }).weight(5));
    out.add(Scenario.of("restarted and stopped at once", () -> {
      App a = app(1, false, null);
      Mc.Th t = launch(a);
      Mc.quiesce();
      a.stop();
      Mc.quiesce();
      Mc.Th s = launch(a, "start");
      Mc.note(call(a, "stop"));
      s.join();
      Mc.quiesce();
      checkLife(1, null);
      if (a.state().equals("STARTED")) {
        a.stop();
        Mc.quiesce();
        Mc.eq("STOPPED", a.state(), "state");
      }
      if (a.state().equals("STOPPED")) {
        a.stop();
      }
      t.join();
      Mc.quiesce();
      checkLife(1, null);
      Mc.eq("_END_", a.state(), "state");
      Mc.eq(Mc.count("started", 0), Mc.count("stopped", 0), "starts and stops");
    }).weight(5));
    out.add(Scenario.of("two threads launch it", () -> {
      App a = app(2, Mc.flip(), null);
      Mc.Th s = launch(a);
      Mc.Th t = launch(a);
      Mc.quiesce();
      Mc.eq("STARTED", a.state(), "state");
      Mc.check(s.finished() != t.finished(), "one call of start() runs the app");
      Mc.eq(1, Mc.count("start refused", "interrupted=false"), "the other one is refused");
      for (int i = 0; i < 2; i++) {
        Mc.eq(1, Mc.count("start", i), "starts of subsystem " + i);
      }
      a.stop();
      Mc.quiesce();
      if (a.state().equals("STOPPED")) {
        a.stop();
      }
      s.join();
      t.join();
      Mc.quiesce();
      checkLife(2, null);
    }).weight(5));
  }
}
