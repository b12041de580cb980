package vf;

import static vf.Kit.*;

import com.webotech.statemachine.GenericStateMachine;
import com.webotech.statemachine.UnexpectedFlowListener;
import com.webotech.statemachine.api.StateEvent;
import com.webotech.statemachine.api.StateMachine;
import java.util.ArrayList;
import java.util.List;
import mc.Mc;
import mc.Rec;
import mc.Scenario;

/** A failing callback concerns its event only. */
public final class C09 {

  private static final String[] POINTS = {"begin", "exit", "entry", "end", "unmapped"};

  private static Exception boom(int kind) {
    return switch (kind) {
      case 0 -> new IllegalArgumentException("boom");
      case 1 -> new java.io.IOException("boom");
      case 2 -> new IllegalStateException();
      case 3 -> new InterruptedException("boom");
      case 4 -> new RuntimeException("outer", new java.io.IOException("inner"));
      case 5 -> new java.util.concurrent.ExecutionException(new AssertionError("inner"));
      case 6 -> new java.util.concurrent.CancellationException();
      case 7 -> new Own();
      default -> new NullPointerException();
    };
  }

  /** nobody knows this one */
  static final class Own extends Exception {

    Own() {
      super(null, new Own2(), true, false);
    }
  }

  static final class Own2 extends RuntimeException {
  }

  /** fails the nth time a callback of the given kind runs for an event that was fired */
  static class Bomb implements Hook {

    final String point;
    final int nth;
    final int times;
    final Exception x;
    boolean interrupts;
    int seen;

    Bomb(String point, int nth, int times, Exception x) {
      this.point = point;
      this.nth = nth;
      this.times = times;
      this.x = x;
    }

    @Override
    public void at(String what, String state, StateEvent<Object> e,
        StateMachine<Object, Object> sm) {
      if (!interrupts && Mc.dress() != 1 && (what.equals("begin") || what.equals("unmapped"))) {
        Mc.check(!Mc.interrupted(), "the first callback of " + nm(e) + " runs interrupted");
      }
      if (what.equals(point) && !nm(e).equals(IMMEDIATE)) {
        int i = seen++;
        if (i >= nth && i < nth + times) {
          Mc.rec("boom", point, nm(e));
          Kit.<RuntimeException>sneak(x);
        }
      }
    }
  }

  private static Ring make(int kind, Hook h) {
    var c = config("");
    c.withUnmappedEventHandler((e, sm) -> {
      Mc.rec("unmapped", nm(e), nm(sm.getCurrentState()));
      h.at("unmapped", nm(sm.getCurrentState()), e, sm);
    });
    return kind == 0 ? ring(c, h) : kind == 1 ? dropRing(c, h) : ring(c.withMaxQueueSize(50), h);
  }

  /** the state after each event and what was called, given what failed */
  private static final class Model {

    String state = "A";
    boolean ended;
    final List<String> log = new ArrayList<>();
    final Bomb b;
    int seen;

    Model(Bomb b) {
      this.b = b;
    }

    boolean call(String point, String rec, String e) {
      log.add(rec);
      if (point.equals(b.point)) {
        int i = seen++;
        if (i >= b.nth && i < b.nth + b.times) {
          log.add("boom[" + point + ", " + e + "]");
          return false;
        }
      }
      return true;
    }

    void fire(String e) {
      if (ended) {
        log.add("afterEnd[" + e + ", " + KRef.GSM + "]");
        return;
      }
      if (!run(e)) {
        log.add("exception[" + (e.equals("v") ? "u" : e) + ", " + b.x.getClass().getSimpleName() + "]");
      }
    }

    boolean run(String e) {
      if (e.startsWith("u")) {
        return call("unmapped", "unmapped[" + e + ", " + state + "]", e);
      }
      String to = e.equals("n") ? NOOP : e.equals("e") ? END : state.equals("A") ? "B" : "A";
      String f = state;
      String t = "[" + f + ", " + e + ", " + to + "]";
      if (!call("begin", "begin" + t, e)) {
        return false;
      }
      if (!e.equals("n")) {
        if (!call("exit", "exit[" + f + ", " + e + "]", e)) {
          return false;
        }
        state = to;
        ended = e.equals("e");
        if (!ended && !call("entry", "entry[" + to + ", " + e + "]", e)) {
          return false;
        }
      }
      return call("end", "end" + t, e);
    }
  }

  private static List<String> seen() {
    List<String> l = new ArrayList<>();
    for (Rec r : Mc.trace()) {
      String k = r.key();
      if (r.what.equals("exception")) {
        k = "exception[" + r.args[0] + ", " + r.args[1].getClass().getSimpleName() + "]";
      }
      if (!k.contains(IMMEDIATE)) {
        l.add(k);
      }
    }
    return l;
  }

  private static void reports(GenericStateMachine<Object, Object> m, Exception x) {
    for (Rec r : Mc.trace()) {
      if (r.what.equals("exception")) {
        Mc.check(r.args[1] == x, "another exception was reported: " + r.args[1]);
        Mc.check(r.args[3] == m, "the report names another machine");
        Mc.eq(r.thread, ((Thread) r.args[2]).getName(), "thread named by the report");
      }
    }
  }

  public static void scenarios(boolean thorough, List<Scenario> out) {
    int len = thorough ? 5 : 4;
    for (int pp = 0; pp < POINTS.length; pp++) {
      String point = POINTS[pp];
      int pi = pp + 1;
      out.add(Scenario.seq("failure in " + point + ", every event sequence", () -> {
        int kind = Mc.choose(3);
        Bomb b = new Bomb(point, Mc.choose(3), 1 + Mc.choose(2), boom(Mc.choose(thorough ? 9 : 4) + (thorough ? 0 : pi)));
        Ring r = make(kind, b);
        Model md = new Model(b);
        r.m.start();
        boolean wait = kind == 1 || Mc.flip();
        for (int i = 0; i < len; i++) {
          String e = new String[]{"x", "n", "u", "e"}[Mc.choose(i >= len - 2 ? 4 : 3)];
          r.m.fire(ev(e));
          if (wait) {
            Mc.quiesce();
          }
          if (wait || !md.ended) {
            md.fire(e);
          }
          if (wait) {
            Mc.eq(md.state, nm(r.m.getCurrentState()), "state");
          }
        }
        Mc.quiesce();
        Mc.eq(md.log, seen(), "effects");
        Mc.eq(md.state, nm(r.m.getCurrentState()), "state");
        Mc.eq(md.ended, r.m.isEnded(), "ended");
        Mc.eq(0, r.m.getEventQueueSize(), "queue");
        reports(r.m, b.x);
      }).weight(3));
      out.add(Scenario.of("failure in " + point + " races other events", () -> {
        Bomb b = new Bomb(point, 0, 1, boom(Mc.choose(2)));
        Ring r = make(0, b);
        r.m.start();
        Mc.Th t = Mc.spawn("f", () -> r.m.fire(ev("n")));
        r.m.fire(ev(point.equals("unmapped") ? "u" : "x"));
        t.join();
        Mc.quiesce();
        Mc.eq(1, Mc.count("exception"), "reports");
        String e = (String) Mc.trace().get(Mc.index("boom")).args[1];
        Mc.eq(1, Mc.count("exception", e), "reports of the failed event");
        String other = e.equals("n") ? point.equals("unmapped") ? "u" : "x" : "n";
        Mc.eq(1, handled(other), "times the other event was handled");
        Mc.eq(1, Mc.count("begin", null, e) + Mc.count("unmapped", e), "times the failed event ran");
        int before = Mc.trace().size();
        r.m.fire(ev("x"));
        Mc.quiesce();
        Mc.check(Mc.trace().size() > before && Mc.count("exception") == 1,
            "an event after the failure must be handled");
        reports(r.m, b.x);
      }).weight(4));
    }
    out.add(Scenario.of("failure with two executor threads", () -> {
      Bomb b = new Bomb(POINTS[Mc.choose(4)], 0, 1, boom(0));
      Ring r = ring(config("").withExecutor(Mc.executor(2, "pool")), b);
      r.m.start();
      Mc.Th t = Mc.spawn("f", () -> r.m.fire(ev("x")));
      r.m.fire(ev("x"));
      t.join();
      Mc.quiesce();
      Mc.eq(1, Mc.count("exception", "x"), "reports");
      Mc.eq(2, Mc.count("begin", null, "x"), "transitions begun");
      r.m.fire(ev("n"));
      Mc.quiesce();
      Mc.eq(1, Mc.count("end", null, "n"), "n");
      reports(r.m, b.x);
    }).weight(6));
    for (int kk = 0; kk < 2; kk++) {
      boolean error = kk == 1;
      out.add(Scenario.of(
          "the failure report itself fails with " + (error ? "an error" : "an exception"), () -> {
            int[] n = {0};
            UnexpectedFlowListener<Object, Object> f = new UnexpectedFlowListener<>() {
              @Override
              public void onExceptionDuringEventProcessing(StateEvent<Object> e,
                  StateMachine<Object, Object> sm, Thread thread, Exception x) {
                n[0]++;
                if (error) {
                  throw new AssertionError("in report");
                }
                throw new IllegalStateException("in report");
              }

              @Override
              public void onEventAfterMachineEnd(StateEvent<Object> e,
                  StateMachine<Object, Object> sm) {
              }

              @Override
              public void onEventBeforeMachineStart(StateEvent<Object> e,
                  StateMachine<Object, Object> sm) {
              }
            };
            Bomb b = new Bomb("entry", 0, 1, boom(0));
            Ring r = ring(config("").withUnexpectedFlowListener(f), b);
            r.m.start();
            r.m.fire(ev("x"));
            r.m.fire(ev("n"));
            Mc.quiesce();
            Mc.eq(1, n[0], "reports");
            Mc.eq(1, handled("n"), "n");
            r.m.fire(ev("u"));
            Mc.quiesce();
            Mc.eq(1, handled("u"), "u");
            Mc.eq("B", nm(r.m.getCurrentState()), "state");
          }).weight(3));
    }
    out.add(Scenario.seq("a failing callback leaves its thread interrupted", () -> {
      String point = POINTS[Mc.choose(5)];
      int kind = Mc.choose(3);
      Bomb b = new Bomb(point, 0, 1, boom(3)) {
        @Override
        public void at(String what, String state, StateEvent<Object> e,
            StateMachine<Object, Object> sm) {
          if (what.equals(point) && seen == 0 && !nm(e).equals(IMMEDIATE)) {
            Mc.interruptMe();
            interrupts = true;
          }
          super.at(what, state, e, sm);
        }
      };
      Ring r = make(kind, b);
      Model md = new Model(b);
      r.m.start();
      for (String e : new String[]{"x", "u", "n", "v"}) {
        r.m.fire(ev(e));
        if (!e.equals("v")) {
          md.fire(e);
        } else {
          md.fire("u");
        }
      }
      Mc.quiesce();
      Mc.eq(md.log, seen().stream().map(k -> k.replace("[v", "[u")).toList(), "effects");
      reports(r.m, b.x);
    }));
    out.add(Scenario.seq("many failures in a row", () -> {
      int kind = Mc.choose(3);
      Bomb b = new Bomb(POINTS[Mc.choose(5)], 0, 100000, boom(Mc.flip() ? 0 : 3));
      Ring r = make(kind, b);
      Model md = new Model(b);
      r.m.start();
      String[] al = {"x", "n", "u"};
      int p = Mc.choose(3);
      int q = Mc.choose(3);
      for (int i = 0; i < (thorough ? 2500 : 700); i++) {
        String e = al[i % 2 == 0 ? p : q];
        r.m.fire(ev(e));
        md.fire(e);
        if (kind > 0) {
          Mc.quiesce();
        }
      }
      Mc.quiesce();
      Mc.eq(md.log, seen(), "effects");
      Mc.eq(md.state, nm(r.m.getCurrentState()), "state");
    }));
  }
}
