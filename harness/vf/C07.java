package vf;

import static vf.Kit.*;

import com.webotech.statemachine.GenericStateMachine;
import com.webotech.statemachine.NamedState;
import java.util.ArrayList;
import java.util.List;
import mc.Mc;
import mc.Scenario;

/** A machine is started once, completely. */
public final class C07 {

  private static final String[] WRONG = {"nowhere", END, NOOP, UNINIT, null};

  private static boolean attempt(Mc.Task t) {
    try {
      t.run();
      return true;
    } catch (IllegalStateException e) {
      return false;
    } catch (Throwable e) {
      throw Mc.fail("unexpected " + e);
    }
  }

  private static void startedOnce(boolean... ok) {
    int n = 0;
    for (boolean b : ok) {
      n += b ? 1 : 0;
    }
    Mc.eq(1, n, "number of successful starts");
  }

  public static void scenarios(boolean thorough, List<Scenario> out) {
    List<String> init = List.of("begin[" + UNINIT + ", " + IMMEDIATE + ", A]",
        "entry[A, " + IMMEDIATE + "]", "end[" + UNINIT + ", " + IMMEDIATE + ", A]");
    for (int n = 2; n <= 3; n++) {
      int k = n;
      out.add(Scenario.of(n + " threads start", () -> {
        Ring r = ring();
        boolean[] ok = new boolean[k];
        Mc.Th[] t = new Mc.Th[k];
        for (int i = 0; i < k; i++) {
          int me = i;
          t[i] = Mc.spawn("s" + i, () -> {
            ok[me] = attempt(r.m::start);
            Mc.check(r.m.isStarted(), "start() returned or refused, but not started");
            Mc.check(r.m.getCurrentState() != null, "started without a state");
          });
        }
        for (Mc.Th x : t) {
          x.join();
        }
        Mc.quiesce();
        startedOnce(ok);
        Mc.eq(init, Mc.keys(), "effects");
        Mc.eq("A", nm(r.m.getCurrentState()), "state");
      }).weight(3));
    }
    out.add(Scenario.of("two threads start in different states", () -> {
      Ring r = ring();
      boolean[] ok = new boolean[2];
      Mc.Th t0 = Mc.spawn("s0", () -> ok[0] = attempt(() -> r.m.startInState(r.a)));
      Mc.Th t1 = Mc.spawn("s1", () -> ok[1] = attempt(() -> r.m.startInState(r.b)));
      t0.join();
      t1.join();
      startedOnce(ok);
      Mc.eq(ok[0] ? "A" : "B", nm(r.m.getCurrentState()), "state of the successful call");
      Mc.eq(List.of(), Mc.keys(), "effects");
    }));
    out.add(Scenario.of("start races startInState, watched", () -> {
      Ring r = ring();
      boolean[] ok = new boolean[2];
      Mc.Th t0 = Mc.spawn("s0", () -> ok[0] = attempt(r.m::start));
      Mc.Th t1 = Mc.spawn("s1", () -> ok[1] = attempt(() -> r.m.startInState(r.b)));
      boolean started = r.m.isStarted();
      String s = nm(r.m.getCurrentState());
      Mc.check(!started || !s.equals("null"), "started without a state");
      t0.join();
      t1.join();
      startedOnce(ok);
      Mc.eq(ok[0] ? "A" : "B", nm(r.m.getCurrentState()), "state of the successful call");
      Mc.eq(ok[0] ? init : List.of(), Mc.keys(), "effects");
    }).weight(2));
    out.add(Scenario.of("start is complete when it returns", () -> {
      Ring r = ring();
      Mc.Th w = Mc.spawn("watcher", () -> {
        boolean st = r.m.isStarted();
        Mc.check(!st || r.m.getCurrentState() != null, "started without a state");
        Mc.check(!r.m.isEnded(), "ended");
      });
      r.m.start();
      Mc.eq(init, Mc.keys(), "effects when start() returns");
      Mc.eq("A", nm(r.m.getCurrentState()), "state");
      w.join();
    }));
    out.add(Scenario.of("start inside the initial entry action is refused", () -> {
      boolean[] ok = {true, true};
      Ring[] r = new Ring[1];
      r[0] = ring(config(""), (w, s, e, sm) -> {
        if (w.equals("entry") && nm(e).equals(IMMEDIATE)) {
          ok[0] = attempt(sm::start);
          ok[1] = attempt(() -> sm.startInState(r[0].b));
        }
      });
      r[0].m.start();
      Mc.check(!ok[0] && !ok[1], "a starting machine was started again");
      Mc.eq(init, Mc.keys(), "effects");
      Mc.eq("A", nm(r[0].m.getCurrentState()), "state");
    }));
    out.add(Scenario.of("start while events are processed is refused", () -> {
      Ring r = ring();
      r.m.start();
      r.m.fire(ev("x"));
      r.m.fire(ev("n"));
      int k = Mc.choose(3);
      Mc.check(!attempt(() -> {
        if (k == 0) {
          r.m.start();
        } else {
          r.m.startInState(k == 1 ? r.a : r.b);
        }
      }), "a started machine was started again");
      Mc.quiesce();
      Mc.eq("B", nm(r.m.getCurrentState()), "state");
      Mc.eq(1, Mc.count("entry", "A"), "entries into the initial state");
    }).weight(2));
    int depth = thorough ? 6 : 5;
    out.add(Scenario.seq("every sequence of " + depth + " lifecycle calls", () -> {
      boolean drop = Mc.flip();
      Ring r = drop ? dropRing(config(""), null) : ring();
      boolean started = false;
      boolean ended = false;
      String st = "null";
      List<String> want = new ArrayList<>();
      for (int i = 0; i < depth; i++) {
        switch (Mc.choose(6)) {
          case 0 -> {
            Mc.eq(!started, attempt(r.m::start), "start() succeeds");
            if (!started) {
              want.addAll(init);
              started = true;
              st = "A";
            }
          }
          case 1 -> {
            Mc.eq(!started, attempt(() -> r.m.startInState(r.b)), "startInState(B) succeeds");
            if (!started) {
              started = true;
              st = "B";
            }
          }
          case 2 -> {
            String n = WRONG[Mc.choose(WRONG.length)];
            Mc.check(!attempt(() -> r.m.startInState(n == null ? null : st(n))),
                "started in a state that is not configured: " + n);
          }
          case 3 -> {
            r.m.fire(ev("n"));
            Mc.quiesce();
            if (!started || ended) {
              want.add((ended ? "afterEnd" : "beforeStart") + "[n, " + KRef.GSM + "]");
            } else {
              want.add("begin[" + st + ", n, " + NOOP + "]");
              want.add("end[" + st + ", n, " + NOOP + "]");
            }
          }
          case 4 -> {
            if (started) {
              r.m.stop();
              ended = true;
              st = END;
            }
          }
          default -> {
            r.m.fire(ev("x"));
            Mc.quiesce();
            if (!started || ended) {
              want.add((ended ? "afterEnd" : "beforeStart") + "[x, " + KRef.GSM + "]");
            } else {
              String to = st.equals("A") ? "B" : "A";
              want.add("begin[" + st + ", x, " + to + "]");
              want.add("exit[" + st + ", x]");
              want.add("entry[" + to + ", x]");
              want.add("end[" + st + ", x, " + to + "]");
              st = to;
            }
          }
        }
        Mc.eq(started, r.m.isStarted(), "isStarted");
        Mc.eq(ended, r.m.isEnded(), "isEnded");
        Mc.eq(st, nm(r.m.getCurrentState()), "state");
        Mc.eq(want, Mc.keys(), "effects");
      }
    }).weight(3));
    out.add(Scenario.seq("incomplete configurations are not started", () -> {
      var m = machine(config(""), listener("", null));
      var a = state("A");
      var b = state("B");
      int k = Mc.choose(5);
      switch (k) {
        case 0 -> {
        }
        case 1 -> m.initialSate(a).receives(ev("x"));
        case 2 -> {
          m.initialSate(a).receives(ev("x")).itTransitionsTo(b);
          m.when(b).receives(ev("x"));
        }
        case 3 -> {
          m.initialSate(a).receives(ev("x")).itTransitionsTo(b);
          m.when(a).receives(ev("y"));
        }
        default -> {
          m.initialSate(a).receives(ev("x"));
          m.receives(ev("y")).itTransitionsTo(b);
        }
      }
      int tries = 1 + Mc.choose(2);
      for (int i = 0; i < tries; i++) {
        Mc.check(!attempt(m::start), "an incomplete machine was started");
        Mc.check(!m.isStarted() && !m.isEnded() && m.getCurrentState() == null,
            "a refused start changed the machine");
      }
      m.fire(ev("x"));
      Mc.quiesce();
      Mc.eq(List.of("beforeStart[x, " + KRef.GSM + "]"), Mc.keys(), "effects");
      if (k == 0) {
        Mc.check(!attempt(() -> m.startInState(a)), "started without any configuration");
        m.initialSate(a).receives(ev("x")).itTransitionsTo(b);
        m.when(b).receives(ev("x")).itTransitionsTo(a);
      } else if (k == 1 || k == 2) {
        m.itTransitionsTo(k == 1 ? b : a);
        if (k == 1) {
          m.when(b).receives(ev("x")).itTransitionsTo(a);
        }
      } else if (k == 3) {
        m.itEnds();
        m.when(b).receives(ev("x")).itTransitionsTo(a);
      } else {
        m.when(a).receives(ev("x")).itTransitionsTo(b);
        m.when(b).receives(ev("x")).itTransitionsTo(a);
      }
      m.start();
      Mc.eq("A", nm(m.getCurrentState()), "state of the completed machine");
      m.fire(ev("x"));
      Mc.quiesce();
      Mc.eq("B", nm(m.getCurrentState()), "state after x");
      Mc.eq(1, Mc.count("exit", "A", "x"), "exit actions");
    }));
    out.add(Scenario.seq("startInState in a state that others only lead to", () -> {
      boolean drop = Mc.flip();
      var m = drop ? dropMachine(config(""), listener("", null))
          : machine(config(""), listener("", null));
      var a = state("A");
      var f = state("F");
      m.initialSate(a).receives(ev("x")).itTransitionsTo(f);
      int n = 1 + Mc.choose(2);
      for (int i = 0; i < n; i++) {
        Mc.check(!attempt(() -> m.startInState(Mc.flip() ? f : st("F"))),
            "started in a state that is not configured");
        Mc.check(!m.isStarted() && !m.isEnded() && m.getCurrentState() == null,
            "a refused start changed the machine");
      }
      Mc.quiesce();
      Mc.eq(List.of(), Mc.keys(), "effects of a refused start");
      boolean inA = Mc.flip();
      if (inA) {
        m.startInState(a);
      } else {
        m.start();
      }
      Mc.eq("A", nm(m.getCurrentState()), "state");
      m.fire(ev("x"));
      Mc.quiesce();
      Mc.check(m.isEnded(), "ended by entering F");
      Mc.eq(inA ? 1 : 2, Mc.count("entry"), "entry actions");
    }));
    out.add(Scenario.seq("startInState in a final state only sets that state", () -> {
      boolean drop = Mc.flip();
      var m = drop ? dropMachine(config(""), listener("", null))
          : machine(config(""), listener("", null));
      var a = state("A");
      var f = state("F");
      boolean initial = Mc.flip();
      if (initial) {
        m.initialSate(f).itEnds();
        m.when(a).receives(ev("x")).itTransitionsTo(f);
      } else {
        m.initialSate(a).receives(ev("x")).itTransitionsTo(f);
        m.when(f).itEnds();
      }
      m.startInState(Mc.flip() ? f : st("F"));
      Mc.quiesce();
      Mc.eq(List.of(), Mc.keys(), "effects of startInState");
      Mc.eq("F", nm(m.getCurrentState()), "state");
      Mc.check(m.isStarted() && !m.isEnded(), "started, not ended");
    }));
    out.add(Scenario.seq("start in an initial state that ends", () -> {
      boolean drop = Mc.flip();
      var m = drop ? dropMachine(config(""), listener("", null))
          : machine(config(""), listener("", null));
      var a = state("A");
      m.initialSate(a).itEnds();
      if (Mc.flip()) {
        m.when(state("B")).receives(ev("x")).itTransitionsTo(a);
      }
      m.start();
      Mc.quiesce();
      Mc.eq(List.of("begin[" + UNINIT + ", " + IMMEDIATE + ", A]", "entry[A, " + IMMEDIATE + "]",
          "end[" + UNINIT + ", " + IMMEDIATE + ", A]"), Mc.keys(), "effects of start");
      Mc.check(m.isStarted() && m.isEnded(), "started and ended");
      Mc.check(!attempt(m::start) && !attempt(() -> m.startInState(a)), "started again");
      Mc.eq(END, nm(m.getCurrentState()), "state");
      Mc.eq(3, Mc.keys().size(), "effects");
    }));
    out.add(Scenario.seq("startInState runs nothing, from every state", () -> {
      boolean drop = Mc.flip();
      Ring r = drop ? dropRing(config(""), null) : ring();
      boolean inB = Mc.flip();
      r.m.startInState(inB ? r.b : r.a);
      Mc.quiesce();
      Mc.eq(List.of(), Mc.keys(), "effects of startInState");
      Mc.eq(inB ? "B" : "A", nm(r.m.getCurrentState()), "state");
      Mc.check(r.m.isStarted() && !r.m.isEnded(), "started");
      GenericStateMachine<Object, Object> m = r.m;
      m.fire(ev("x"));
      Mc.quiesce();
      String f = inB ? "B" : "A";
      String t = inB ? "A" : "B";
      Mc.eq(List.of("begin[" + f + ", x, " + t + "]", "exit[" + f + ", x]", "entry[" + t + ", x]",
          "end[" + f + ", x, " + t + "]"), Mc.keys(), "effects of x");
    }));
  }
}
