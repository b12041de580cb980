package vf;

import static vf.Kit.*;

import com.webotech.statemachine.GenericStateMachine;
import com.webotech.statemachine.api.StateEvent;
import com.webotech.statemachine.api.StateMachine;
import com.webotech.statemachine.UnexpectedFlowListener;
import java.util.List;
import mc.Mc;
import mc.Rec;
import mc.Scenario;

/** Events outside a machine's life are reported once and have no effect. */
public final class C06 {

  private static Ring make(int kind, Hook h) {
    return kind == 0 ? ring(config(""), h) : kind == 1 ? dropRing(config(""), h)
        : ring(config("").withMaxQueueSize(1), h);
  }

  private static int machineEffects() {
    int n = 0;
    for (Rec r : Mc.trace()) {
      if (r.what.equals("begin") || r.what.equals("end") || r.what.equals("entry") || r.what.equals(
          "exit") || r.what.equals("unmapped") || r.what.equals("exception")) {
        n++;
      }
    }
    return n;
  }

  public static void scenarios(boolean thorough, List<Scenario> out) {
    String[] names = {"default", "drop-duplicates", "bounded"};
    for (int kk = 0; kk < 3; kk++) {
      int kind = kk;
      int depth = thorough ? 5 : 4;
      out.add(Scenario.seq("every sequence before start and after end, " + names[kk], () -> {
        Ring r = make(kind, null);
        // a machine without a listener shows the same by its states
        boolean heard = Mc.flip();
        if (!heard) {
          r.m.setStateMachineListener(null);
        }
        String[] al = {"x", "u", "e"};
        int nb = Mc.choose(depth);
        for (int i = 0; i < nb; i++) {
          String e = al[Mc.choose(3)];
          int b = Mc.count("beforeStart", e);
          r.m.fire(ev(e));
          Mc.eq(b + 1, Mc.count("beforeStart", e), "reports of " + e + " before start");
          Mc.quiesce();
          Mc.eq("null", nm(r.m.getCurrentState()), "state before start");
          Mc.eq(false, r.m.isStarted() || r.m.isEnded(), "started or ended");
        }
        Mc.eq(nb, Mc.count("beforeStart"), "reports before start");
        Mc.eq(0, machineEffects(), "effects before start");
        Mc.eq(0, r.m.getEventQueueSize(), "queue before start");
        r.m.start();
        Mc.quiesce();
        Mc.eq(heard ? 3 : 1, machineEffects(), "effects of start");
        int how = Mc.choose(3);
        if (how == 0) {
          r.m.fire(ev("e"));
        } else if (how == 1) {
          r.m.stop();
        } else {
          r.m.fire(ev("x"));
          Mc.quiesce();
          r.m.fire(ev("e"));
        }
        Mc.quiesce();
        Mc.check(r.m.isEnded(), "ended");
        int before = machineEffects();
        int na = Mc.choose(depth);
        for (int i = 0; i < na; i++) {
          String e = al[Mc.choose(3)];
          int b = Mc.count("afterEnd", e);
          r.m.fire(ev(e));
          Mc.eq(b + 1, Mc.count("afterEnd", e), "reports of " + e + " after the end");
          Mc.quiesce();
        }
        Mc.eq(na, Mc.count("afterEnd"), "reports after the end");
        Mc.eq(nb, Mc.count("beforeStart"), "reports before start");
        Mc.eq(before, machineEffects(), "effects after the end");
        Mc.eq(0, r.m.getEventQueueSize(), "queue after the end");
        for (Rec x : Mc.trace()) {
          if (x.what.equals("beforeStart") || x.what.equals("afterEnd")) {
            Mc.check(x.args[1] == r.m, "the report names another machine");
          }
        }
      }));
    }
    out.add(Scenario.of("two firers before start", () -> {
      Ring r = make(Mc.choose(3), null);
      Mc.Th t = Mc.spawn("f", () -> r.m.fire(ev("x")));
      r.m.fire(ev("x"));
      t.join();
      Mc.eq(2, Mc.count("beforeStart", "x"), "reports");
      r.m.start();
      Mc.quiesce();
      Mc.eq(3, machineEffects(), "effects of start alone");
    }));
    out.add(Scenario.of("two firers after the end", () -> {
      Ring r = make(Mc.choose(3), null);
      r.m.start();
      r.m.stop();
      Mc.Th t = Mc.spawn("f", () -> r.m.fire(ev("x")));
      r.m.fire(ev("x"));
      t.join();
      Mc.quiesce();
      Mc.eq(2, Mc.count("afterEnd", "x"), "reports");
      Mc.eq(3, machineEffects(), "effects of start alone");
    }));
    for (int kk = 0; kk < 2; kk++) {
      boolean inState = kk == 1;
      out.add(Scenario.of("fire races " + (inState ? "startInState" : "start") + ": one of both",
          () -> {
            Ring r = make(Mc.choose(3), null);
            Mc.Th t = Mc.spawn("f", () -> r.m.fire(ev("x")));
            Mc.Th t2 = Mc.spawn("f2", () -> {
              boolean seen = r.m.isStarted();
              r.m.fire(ev("u"));
              Mc.check(!seen || Mc.count("beforeStart", "u") == 0,
                  "an event fired at a started machine was reported as too early");
            });
            if (inState) {
              r.m.startInState(r.a);
            } else {
              r.m.start();
            }
            t.join();
            t2.join();
            Mc.quiesce();
            for (String e : new String[]{"x", "u"}) {
              int refused = 0;
              for (Rec x : Mc.trace()) {
                if (x.is("exception", e)) {
                  refused++;
                }
              }
              Mc.eq(1, handled(e), "times " + e + " was handled or reported");
              Mc.eq(0, refused * (1 - refused), "refusals");
            }
            Mc.eq(Mc.count("beforeStart", "x") > 0 || Mc.count("exception", "x") > 0 ? "A" : "B",
                nm(r.m.getCurrentState()), "state");
          }).weight(6));
    }
    for (int kk = 0; kk < 3; kk++) {
      int kind = kk;
      out.add(Scenario.of("fire races the end, " + names[kk], () -> {
        boolean stop = Mc.flip();
        Ring r = make(kind, null);
        r.m.start();
        Mc.Th t = Mc.spawn("f", () -> {
          boolean over = r.m.isEnded();
          r.m.fire(ev("u"));
          if (over) {
            Mc.eq(1, Mc.count("afterEnd", "u"), "reports of an event fired after the end");
          }
        });
        if (stop) {
          r.m.stop();
        } else {
          r.m.fire(ev("e"));
        }
        t.join();
        Mc.quiesce();
        Mc.check(handled("u") <= 1, "u handled or reported twice");
        if (stop || Mc.count("exception") == 0) {
          Mc.check(r.m.isEnded(), "not ended");
        }
        Mc.check(Mc.count("afterEnd", "e") == 0, "the ending event was reported");
      }).weight(5));
    }
    out.add(Scenario.seq("at every stage of the configuration", () -> {
      GenericStateMachine<Object, Object> m = Mc.flip() ? machine(config(""), listener("", null))
          : dropMachine(config(""), null);
      int stage = Mc.choose(5);
      var a = state("A");
      var b = state("B");
      int n = 0;
      for (int i = 0; i <= stage; i++) {
        switch (i) {
          case 1 -> m.initialSate(a);
          case 2 -> m.receives(ev("x"));
          case 3 -> m.itTransitionsTo(b);
          case 4 -> m.when(b);
          default -> {
          }
        }
        String e = Mc.flip() ? "x" : "u";
        int c = Mc.count("beforeStart", e);
        m.fire(ev(e));
        Mc.quiesce();
        Mc.eq(c + 1, Mc.count("beforeStart", e), "reports of " + e);
        Mc.eq(++n, Mc.trace().size(), "effects");
        Mc.eq(0, m.getEventQueueSize(), "queue");
      }
    }));
    out.add(Scenario.seq("stopped before it was started", () -> {
      // whether that counts as too early or too late is not said, but it is one of them
      Ring r = make(Mc.choose(3), null);
      if (Mc.flip()) {
        r.m.fire(ev("n"));
      }
      r.m.stop();
      int n = Mc.trace().size();
      String[] al = {"x", "u", "e"};
      for (int i = 0; i < 3; i++) {
        r.m.fire(ev(al[Mc.choose(3)]));
        Mc.quiesce();
        Mc.eq(n + i + 1, Mc.trace().size(), "reports");
        Mc.eq(n + i + 1, Mc.count("beforeStart") + Mc.count("afterEnd"), "reports");
        Mc.eq(0, r.m.getEventQueueSize(), "queue");
      }
    }));
    out.add(Scenario.of("fired from inside a callback", () -> {
      // from the first notification of start() on, a machine counts as started
      String at = new String[]{"begin", "entry", "end"}[Mc.choose(3)];
      GenericStateMachine<Object, Object>[] m = new GenericStateMachine[1];
      Ring r = make(Mc.choose(3), (w, s, e, sm) -> {
        if (w.equals(at) && nm(e).equals(IMMEDIATE)) {
          m[0].fire(ev("x"));
        }
      });
      m[0] = r.m;
      r.m.start();
      Mc.quiesce();
      Mc.eq(0, Mc.count("beforeStart"), "reports");
      Mc.eq(1, handled("x"), "x handled");
    }).weight(3));
    for (int kk = 0; kk < 3; kk++) {
      int kind = kk;
      out.add(Scenario.of("fired from inside the last callbacks, " + names[kk], () -> {
        // whatever the machine says of itself in that callback is what counts
        String at = new String[]{"begin", "exit", "entry", "end"}[Mc.choose(4)];
        String e = new String[]{"x", "u"}[Mc.choose(2)];
        boolean stop = Mc.flip();
        boolean[] over = {false, false};
        GenericStateMachine<Object, Object>[] m = new GenericStateMachine[1];
        Ring r = make(kind, (w, s, ev, sm) -> {
          if (w.equals(at) && !nm(ev).equals(IMMEDIATE) && !over[1]) {
            over[1] = true;
            over[0] = m[0].isEnded();
            m[0].fire(ev(e));
          }
        });
        m[0] = r.m;
        r.m.start();
        if (stop) {
          Mc.locked(r.m, () -> {
            r.m.stop();
            boolean ended = r.m.isEnded();
            r.m.fire(ev("n"));
            if (ended) {
              Mc.eq(1, Mc.count("afterEnd", "n"), "reports of n");
            }
          });
        } else {
          r.m.fire(ev("e"));
        }
        Mc.quiesce();
        Mc.check(handled(e) <= 1, e + " handled or reported twice");
        if (over[0]) {
          Mc.eq(1, Mc.count("afterEnd", e), "reports of " + e);
        }
        if (r.m.isEnded()) {
          int n = machineEffects();
          r.m.fire(ev("n"));
          Mc.quiesce();
          Mc.eq(n, machineEffects(), "effects after the end");
        }
      }).weight(2));
    }
    out.add(Scenario.of("an event that is fired by its own report is reported again", () -> {
      // reports come on the firing thread, and a listener may use the machine
      GenericStateMachine<Object, Object>[] m = new GenericStateMachine[1];
      int[] n = {0, 0};
      boolean early = Mc.flip();
      UnexpectedFlowListener<Object, Object> f = new UnexpectedFlowListener<>() {
        @Override
        public void onExceptionDuringEventProcessing(StateEvent<Object> e,
            StateMachine<Object, Object> sm, Thread thread, Exception x) {
          Mc.fail("exception " + x);
        }

        @Override
        public void onEventAfterMachineEnd(StateEvent<Object> e, StateMachine<Object, Object> sm) {
          if (n[0]++ == 0) {
            sm.fire(ev("again"));
          }
        }

        @Override
        public void onEventBeforeMachineStart(StateEvent<Object> e,
            StateMachine<Object, Object> sm) {
          if (n[1]++ == 0) {
            sm.start();
            sm.fire(e);
          }
        }
      };
      Ring r = ring(config("").withUnexpectedFlowListener(f), null);
      if (early) {
        r.m.fire(ev("x"));
        Mc.quiesce();
        Mc.eq(1, n[1], "reports");
        Mc.eq("B", nm(r.m.getCurrentState()), "state");
      } else {
        r.m.start();
        r.m.stop();
        r.m.fire(ev("x"));
        Mc.quiesce();
        Mc.eq(2, n[0], "reports");
      }
    }));
  }
}
