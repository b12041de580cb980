package vf;

import static vf.KApp.*;

import java.util.ArrayList;
import java.util.List;
import mc.Mc;
import mc.Rec;
import mc.Scenario;

/** start() and stop() of an app are accepted exactly in the states that permit them. */
public final class C18 {

  private static final String[] OPS = {"start", "stop", "error"};

  /** what the documentation says an app at rest does with a call */
  private static final class Ref {

    final boolean exit;
    /** subsystem start or stop that fails, cycle by cycle */
    final String fails;
    String state;
    int cycle = -1;
    int n;
    final List<String> log = new ArrayList<>();

    Ref(int n, boolean exit, String fails) {
      this.n = n;
      this.exit = exit;
      this.fails = fails;
    }

    private void go(String event, String to) {
      log.add("[" + state + ", " + event + ", " + to + "]");
      state = to;
      if (to.equals("STARTING")) {
        cycle++;
        go(fails.equals("start") && cycle % 2 == 0 ? "error" : "complete",
            fails.equals("start") && cycle % 2 == 0 ? "STOPPED" : "STARTED");
      } else if (to.equals("STOPPING")) {
        go(fails.equals("stop") ? "error" : "complete", "STOPPED");
      } else if (to.equals("STOPPED") && exit) {
        go("stop", "_END_");
      }
    }

    String call(String op) {
      boolean running = "STARTED".equals(state);
      boolean stopped = "STOPPED".equals(state);
      switch (op) {
        case "start" -> {
          if (state == null) {
            log.add("[_UNINITIALISED_, _immediate_, UNINITIALISED]");
            state = "UNINITIALISED";
          } else if (!stopped) {
            return "start refused";
          }
          go("start", "STARTING");
          return "start returned";
        }
        case "stop" -> {
          if (running) {
            go("stop", "STOPPING");
          } else if (stopped) {
            go("stop", "_END_");
          } else {
            return "stop refused";
          }
          return "stop returned";
        }
        default -> {
          if (running) {
            go("error", "STOPPED");
          }
          return "error returned";
        }
      }
    }
  }

  private static List<String> walk() {
    List<String> l = new ArrayList<>();
    for (Rec r : Mc.trace()) {
      if (r.what.equals("end")) {
        l.add(r.key().substring(3));
      }
    }
    return l;
  }

  public static void scenarios(boolean thorough, List<Scenario> out) {
    for (int xx = 0; xx < 2; xx++) {
      boolean exit = xx == 1;
      String mode = exit ? ", exits when stopped" : ", restartable";
      int len = thorough ? 7 : 5;
      for (String fails : new String[]{"none", "start", "stop"}) {
        out.add(Scenario.seq("every sequence of " + len + " calls, failing: " + fails + mode, () -> {
          Ref ref = new Ref(2, exit, fails);
          int bad = fails.equals("none") ? 0 : Mc.choose(2);
          App a = app(2, exit, (w, i) -> {
            if (i == bad && w.equals(fails) && (w.equals("stop")
                || (Mc.count("end", "STARTING", "complete", "STARTED") + Mc.count("end", "STARTING",
                "error", "STOPPED")) % 2 == 0)) {
              throw new IllegalArgumentException("subsystem " + i);
            }
          });
          Mc.Th runner = null;
          for (int i = 0; i < len; i++) {
            String op = OPS[Mc.choose(3)];
            boolean first = op.equals("start") && ref.state == null;
            String want = ref.call(op);
            if (first) {
              runner = launch(a);
            } else {
              String at = a.state();
              Mc.eq(want, call(a, op), op + " in state " + at);
            }
            Mc.quiesce();
            Mc.eq(ref.state, a.state(), "state after " + op);
            Mc.eq(ref.log, walk(), "state changes");
            if (runner != null) {
              Mc.eq("_END_".equals(ref.state), runner.finished(), "start() has returned");
            }
          }
          if (runner != null) {
            while (!"_END_".equals(a.state())) {
              a.stop();
              Mc.quiesce();
            }
            Mc.eq(0, Mc.count("start refused", "interrupted=false"), "first start() refused");
          }
        }));
      }
      out.add(Scenario.seq("many cycles" + mode, () -> {
        Ref ref = new Ref(2, exit, "none");
        App a = app(2, exit, null);
        Mc.Th runner = launch(a);
        ref.call("start");
        int p = Mc.choose(3);
        int q = Mc.choose(3);
        int n = thorough ? 300 : 60;
        for (int i = 0; i < n; i++) {
          Mc.quiesce();
          Mc.eq(ref.state, a.state(), "state after " + i + " calls");
          String op = i % 5 == 3 ? OPS[p] : i % 5 == 4 ? OPS[q]
              : "STARTED".equals(ref.state) ? i % 2 == 0 ? "stop" : "error" : exit ? "stop" : "start";
          Mc.eq(ref.call(op), call(a, op), op);
        }
        Mc.quiesce();
        Mc.eq(ref.log, walk(), "state changes");
        while (!"_END_".equals(a.state())) {
          a.stop();
          Mc.quiesce();
        }
        runner.join();
      }));
      // a subsystem or a listener calls the app while it changes state
      for (String when : new String[]{"start 0", "start 1", "stop 0", "stop 1"}) {
        for (String op : OPS) {
          out.add(Scenario.of(op + " from subsystem " + when + mode, () -> {
            App[] a = new App[1];
            a[0] = app(2, exit, (w, i) -> {
              if ((w + " " + i).equals(when)) {
                Mc.rec("call", a[0].state(), call(a[0], op));
              }
            });
            Mc.Th t = launch(a[0]);
            Mc.quiesce();
            if ("STARTED".equals(a[0].state())) {
              a[0].stop();
              Mc.quiesce();
            }
            String in = when.startsWith("start") ? "STARTING" : "STOPPING";
            Mc.eq(1, Mc.count("call", in, op.equals("error") ? "error returned" : op + " refused"),
                op + " in " + in);
            List<String> want = new ArrayList<>(List.of(
                "[_UNINITIALISED_, _immediate_, UNINITIALISED]",
                "[UNINITIALISED, start, STARTING]"));
            boolean err = op.equals("error");
            if (err && in.equals("STARTING")) {
              want.add("[STARTING, error, STOPPED]");
            } else {
              want.add("[STARTING, complete, STARTED]");
              want.add("[STARTED, stop, STOPPING]");
              want.add("[STOPPING, " + (err ? "error" : "complete") + ", STOPPED]");
            }
            if (exit) {
              want.add("[STOPPED, stop, _END_]");
            }
            Mc.eq(want, walk(), "state changes");
            if (!exit) {
              a[0].stop();
            }
            t.join();
            Mc.quiesce();
          }));
        }
      }
      for (String op : OPS) {
        for (String when : new String[]{"begin STARTING", "end UNINITIALISED", "end STARTING",
            "begin STARTED", "end STARTED", "begin STOPPING", "end STOPPING", "begin STOPPED",
            "end STOPPED", "begin _END_", "end _END_"}) {
          out.add(Scenario.seq(op + " from a listener at " + when + mode, () -> {
            App[] a = new App[1];
            a[0] = app(1, exit, null);
            boolean[] done = {false};
            a[0].setStateMachineListener(changes((w, i) -> {
              if (w.equals(when) && !done[0]) {
                done[0] = true;
                String s = a[0].state();
                boolean ok = op.equals("error") || op.equals("stop") && (s.equals("STARTED")
                    || s.equals("STOPPED")) || op.equals("start") && !exit && s.equals("STOPPED");
                Mc.eq(op + (ok ? " returned" : " refused"), call(a[0], op), op + " in " + s);
              }
            }));
            Mc.Th t = launch(a[0]);
            Mc.quiesce();
            for (int i = 0; i < 4 && !"_END_".equals(a[0].state()); i++) {
              Mc.eq("stop returned", call(a[0], "stop"), "stop in " + a[0].state());
              Mc.quiesce();
            }
            Mc.eq("_END_", a[0].state(), "state");
            Mc.check(t.finished(), "the app has ended but start() still blocks");
            checkLife(1, null);
            Mc.check(done[0], "never reached " + when);
          }));
        }
      }
      // calls that meet a change of state
      for (String op : OPS) {
        out.add(Scenario.of(op + " while it starts" + mode, () -> {
          App a = app(1, exit, null);
          Mc.Th t = launch(a);
          Mc.Th c = Mc.spawn("c", () -> {
            String before = a.state();
            String r = call(a, op);
            String after = a.state();
            if (op.equals("stop") && "STARTED".equals(before)) {
              Mc.eq("stop returned", r, "stop of an app that is STARTED");
            }
            if (op.equals("stop") && r.equals("stop returned")) {
              Mc.check(!"UNINITIALISED".equals(after) && !"STARTING".equals(after),
                  "stop was accepted in " + after);
            }
            if (op.equals("start") && before != null) {
              Mc.eq("start refused", r, "start in " + before);
            }
            if (op.equals("start")) {
              Mc.rec("ran", r);
            }
          });
          Mc.quiesce();
          for (int i = 0; i < 3 && !"_END_".equals(a.state()); i++) {
            Mc.eq("stop returned", call(a, "stop"), "stop in " + a.state());
            Mc.quiesce();
          }
          t.join();
          c.join();
          Mc.quiesce();
          Mc.eq("_END_", a.state(), "state");
          if (op.equals("start")) {
            Mc.eq(1, Mc.count("ran", "start refused") + Mc.count("start refused",
                "interrupted=false"), "calls of start() refused");
          }
          checkLife(1, null);
        }).weight(4));
      }
    }
    out.add(Scenario.seq("an app that was never started", () -> {
      App a = app(2, Mc.flip(), null);
      for (int i = 0; i < 4; i++) {
        String op = OPS[1 + Mc.choose(2)];
        Mc.eq(op.equals("stop") ? "stop refused" : "error returned", call(a, op), op);
        Mc.eq(null, a.state(), "state");
      }
      Mc.quiesce();
      Mc.eq(List.of(), Mc.keys(), "effects");
    }));
  }
}
