package vf;

import static vf.Kit.*;

import com.webotech.statemachine.GenericStateMachine;
import com.webotech.statemachine.NamedState;
import com.webotech.statemachine.api.State;
import java.util.List;
import mc.Mc;
import mc.Rec;
import mc.Scenario;

/** The end is final. */
public final class C05 {

  private static void ended(GenericStateMachine<Object, Object> m) {
    Mc.check(m.isEnded(), "the machine must be ended");
    Mc.eq(END, nm(m.getCurrentState()), "state of an ended machine");
    Mc.check(m.isStarted(), "an ended machine was started");
  }

  /** ended, and nothing brings it back */
  private static void stays(GenericStateMachine<Object, Object> m,
      State<Object, Object> other) {
    ended(m);
    int n = Mc.trace().size();
    for (String e : new String[]{"x", "n", "e", "u"}) {
      m.fire(ev(e));
    }
    m.stop();
    for (int i = 0; i < 2; i++) {
      try {
        if (i == 0) {
          m.start();
        } else {
          m.startInState(other);
        }
        Mc.fail("an ended machine was started again");
      } catch (IllegalStateException x) {
        // documented
      }
    }
    Mc.quiesce();
    ended(m);
    for (Rec r : Mc.trace().subList(n, Mc.trace().size())) {
      Mc.check(r.what.equals("afterEnd"), "an ended machine did " + r);
    }
  }

  /** a thread that watches: once ended, always ended and in the end state */
  private static Mc.Th watcher(GenericStateMachine<Object, Object> m, int looks) {
    return Mc.spawn("watcher", () -> {
      boolean was = false;
      boolean inEnd = false;
      for (int i = 0; i < looks; i++) {
        boolean is = m.isEnded();
        String st = nm(m.getCurrentState());
        Mc.check(!was || is, "the machine was ended and now it is not");
        Mc.check(!is || st.equals(END), "ended, but in state " + st);
        Mc.check(!inEnd || st.equals(END), "left the end state for " + st);
        was = is;
        inEnd = st.equals(END);
      }
    });
  }

  private static int begunAfter(String mark) {
    int at = Mc.index(mark);
    int n = 0;
    for (Rec r : Mc.trace()) {
      if (at >= 0 && r.seq > at && (r.what.equals("begin") || r.what.equals("unmapped"))) {
        n++;
      }
    }
    return n;
  }

  /** nothing at all happens in the machine after the notification that it reached its end */
  private static void silentAfterEnd() {
    int end = -1;
    for (Rec r : Mc.trace()) {
      if (end >= 0) {
        Mc.check(r.what.equals("afterEnd"), r + " after the machine has ended");
      }
      if (r.is("end", null, null, END)) {
        end = r.seq;
      }
    }
    Mc.check(end >= 0, "the machine never ended");
  }

  public static void scenarios(boolean thorough, List<Scenario> out) {
    for (int kk = 0; kk < 3; kk++) {
      int kind = kk;
      String kn = new String[]{"default", "drop-duplicates", "two executor threads"}[kk];
      out.add(Scenario.of("an ending event races other events, " + kn, () -> {
        var c = config("");
        if (kind == 2) {
          c.withExecutor(Mc.executor(2, "pool"));
        }
        Ring r = kind == 1 ? dropRing(c, null) : ring(c, null);
        r.m.start();
        Mc.Th t1 = Mc.spawn("f1", () -> r.m.fire(ev("e")));
        Mc.Th t2 = Mc.spawn("f2", () -> {
          r.m.fire(ev("x"));
          if (kind == 0) {
            r.m.fire(ev("u"));
          }
        });
        t1.join();
        t2.join();
        Mc.quiesce();
        checkAtomic("", true);
        silentAfterEnd();
        stays(r.m, r.b);
      }).weight(7));
    }
    for (int kk = 0; kk < 2; kk++) {
      boolean pool = kk == 1;
      out.add(Scenario.of("stop races a transition" + (pool ? ", two executor threads" : ""), () -> {
        var c = config("");
        if (pool) {
          c.withExecutor(Mc.executor(2, "pool"));
        }
        Ring r = ring(c, null);
        r.m.start();
        Mc.Th t = Mc.spawn("stopper", () -> {
          r.m.stop();
          ended(r.m);
          Mc.rec("stopped");
        });
        r.m.fire(ev("x"));
        if (!pool || thorough) {
          r.m.fire(ev("n"));
        }
        t.join();
        ended(r.m);
        Mc.quiesce();
        Mc.check(begunAfter("stopped") <= 1, "events begun after stop() returned");
        stays(r.m, r.b);
      }).weight(6));
    }
    out.add(Scenario.of("stop races an ending event, watched", () -> {
      Ring r = ring();
      r.m.start();
      Mc.Th w = watcher(r.m, 3);
      Mc.Th t = Mc.spawn("stopper", () -> r.m.stop());
      r.m.fire(ev("e"));
      t.join();
      w.join();
      Mc.quiesce();
      stays(r.m, r.b);
    }).weight(7));
    out.add(Scenario.of("stop races a transition, watched", () -> {
      Ring r = ring();
      r.m.start();
      Mc.Th w = watcher(r.m, 3);
      r.m.fire(ev("x"));
      r.m.stop();
      w.join();
      Mc.quiesce();
      stays(r.m, r.b);
    }).weight(7));
    out.add(Scenario.of("reaching a final state, watched", () -> {
      boolean declared = Mc.flip();
      var m = machine(config(""), listener("", null));
      var a = state("A");
      var f = state("F");
      m.initialSate(a).receives(ev("x")).itTransitionsTo(f);
      if (declared) {
        m.when(f).itEnds();
      }
      m.start();
      Mc.Th w = watcher(m, 3);
      m.fire(ev("x"));
      m.fire(ev("n"));
      w.join();
      Mc.quiesce();
      ended(m);
      Mc.eq(0, Mc.count("unmapped"), "events handled after the end");
      stays(m, a);
    }).weight(6));
    out.add(Scenario.of("two stops race each other and a firer", () -> {
      Ring r = ring();
      r.m.start();
      Mc.Th t1 = Mc.spawn("s1", () -> r.m.stop());
      Mc.Th t2 = Mc.spawn("s2", () -> r.m.stop());
      r.m.fire(ev("x"));
      t1.join();
      t2.join();
      Mc.quiesce();
      stays(r.m, r.b);
    }).weight(6));
    // ended while it is being started
    out.add(Scenario.of("stop from the initial entry action or notifications", () -> {
      String at = new String[]{"begin", "entry", "end"}[Mc.choose(3)];
      GenericStateMachine<Object, Object>[] m = new GenericStateMachine[1];
      Ring r = ring(config(""), (w, s, e, sm) -> {
        if (w.equals(at) && nm(e).equals(IMMEDIATE)) {
          m[0].stop();
        }
      });
      m[0] = r.m;
      Mc.Th t = Mc.spawn("f", () -> r.m.fire(ev("x")));
      r.m.start();
      ended(r.m);
      t.join();
      Mc.quiesce();
      stays(r.m, r.b);
    }).weight(4));
    out.add(Scenario.of("stop races start", () -> {
      Ring r = ring();
      Mc.Th t = Mc.spawn("stopper", () -> {
        if (r.m.isStarted()) {
          r.m.stop();
          Mc.rec("stopped");
          ended(r.m);
        }
      });
      r.m.start();
      t.join();
      Mc.quiesce();
      if (Mc.index("stopped") >= 0) {
        stays(r.m, r.b);
      } else {
        Mc.eq("A", nm(r.m.getCurrentState()), "state");
      }
    }).weight(2));
    out.add(Scenario.of("the initial entry action fires the ending event", () -> {
      Ring r = ring(config(""), (w, s, e, sm) -> {
        if (w.equals("entry") && nm(e).equals(IMMEDIATE)) {
          sm.fire(ev("e"));
          sm.fire(ev("x"));
        }
      });
      r.m.start();
      Mc.quiesce();
      silentAfterEnd();
      stays(r.m, r.b);
    }).weight(2));
    out.add(Scenario.of("stop races startInState", () -> {
      Ring r = ring();
      Mc.Th t = Mc.spawn("stopper", () -> {
        if (r.m.isStarted()) {
          r.m.stop();
          Mc.rec("stopped");
        }
      });
      r.m.startInState(r.b);
      t.join();
      Mc.quiesce();
      if (Mc.index("stopped") >= 0) {
        stays(r.m, r.b);
      } else {
        Mc.eq("B", nm(r.m.getCurrentState()), "state");
      }
    }).weight(2));
    // in-flight and waiting events when the machine is stopped
    out.add(Scenario.of("stop while an action runs and events wait", () -> {
      String at = new String[]{"begin", "exit", "entry", "end"}[Mc.choose(4)];
      Mc.Latch in = Mc.latch(1);
      Mc.Latch gate = Mc.latch(1);
      Ring r = ring(config(""), (w, s, e, sm) -> {
        if (w.equals(at) && nm(e).equals("x")) {
          in.countDown();
          gate.await();
        }
      });
      r.m.start();
      r.m.fire(ev("x"));
      r.m.fire(ev("n"));
      r.m.fire(ev("u"));
      in.await();
      r.m.stop();
      ended(r.m);
      gate.countDown();
      Mc.quiesce();
      Mc.eq(0, handled("n") + handled("u"), "waiting events handled after stop");
      stays(r.m, r.b);
    }).weight(4));
    for (int i = 0; i < 4; i++) {
      String at = new String[]{"begin", "exit", "entry", "end"}[i];
      out.add(Scenario.of("an action stops its own machine in " + at, () -> {
        GenericStateMachine<Object, Object>[] m = new GenericStateMachine[1];
        Ring r = ring(config(""), (w, s, e, sm) -> {
          if (w.equals(at) && nm(e).equals("x")) {
            m[0].stop();
          }
        });
        m[0] = r.m;
        r.m.start();
        r.m.fire(ev("x"));
        r.m.fire(ev("n"));
        Mc.quiesce();
        Mc.eq(0, handled("n") - Mc.count("afterEnd", "n"), "n handled after stop");
        stays(r.m, r.b);
      }).weight(2));
    }
    // every way to end, every sequence
    int depth = thorough ? 6 : 5;
    out.add(Scenario.seq("every way to end, every event sequence up to length " + depth, () -> {
      int how = Mc.choose(5);
      boolean drop = Mc.flip();
      var c = config("");
      if (Mc.flip()) {
        c.withUnmappedEventHandler((e, sm) -> {
          throw new IllegalStateException("driver");
        });
      }
      var m = drop ? dropMachine(c, listener("", null)) : machine(c, listener("", null));
      var a = state("A");
      var b = state("B");
      var f = state("F");
      if (how == 4) {
        m.initialSate(a).itEnds();
        m.start();
        stays(m, a);
        return;
      }
      m.initialSate(a).receives(ev("x")).itTransitionsTo(b);
      if (how == 0) {
        m.when(b).receives(ev("e")).itEnds();
      } else {
        m.when(b).receives(ev("e")).itTransitionsTo(f);
        if (how == 1) {
          m.when(f).itEnds();
        }
      }
      m.when(b).receives(ev("x")).itTransitionsTo(a);
      m.start();
      boolean over = false;
      String at = "A";
      for (int i = 0; i < depth; i++) {
        int k = Mc.choose(how == 3 ? 4 : 3);
        if (k == 3) {
          m.stop();
          over = true;
        } else {
          String e = new String[]{"x", "e", "u"}[k];
          m.fire(ev(e));
          Mc.quiesce();
          if (!over && e.equals("x")) {
            at = at.equals("A") ? "B" : "A";
          } else if (!over && e.equals("e") && at.equals("B")) {
            over = true;
          }
        }
        Mc.eq(over, m.isEnded(), "ended");
        Mc.eq(over ? END : at, nm(m.getCurrentState()), "state");
      }
      if (over) {
        stays(m, a);
      }
    }));
    int steps = thorough ? 9 : 7;
    out.add(Scenario.seq("every sequence of " + steps + " fires, completions and stops", () -> {
      KStep k = new KStep(false, 0);
      boolean stopped = false;
      int begun = 0;
      for (int i = 0; i < steps; i++) {
        switch (Mc.choose(4)) {
          case 0 -> k.fire("u");
          case 1 -> k.step();
          case 2 -> k.fire("e");
          default -> {
            if (!stopped && k.current != null) {
              stopped = true;
              k.r.m.stop();
              k.ended = true;
              begun = KStep.begun().size();
            }
          }
        }
        if (k.ended) {
          Mc.check(k.r.m.isEnded(), "ended");
          Mc.eq(END, nm(k.r.m.getCurrentState()), "state of an ended machine");
        }
        if (stopped) {
          Mc.eq(begun, KStep.begun().size(), "events begun after the stop");
        }
      }
      k.drain();
      Mc.eq(k.handled, KStep.begun(), "handled");
    }).weight(3));
  }
}
