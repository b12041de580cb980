package vf;

import static vf.Kit.*;

import com.webotech.statemachine.GenericStateMachine;
import com.webotech.statemachine.HandleExceptionAction;
import com.webotech.statemachine.MultiConsumerStateMachineListener;
import com.webotech.statemachine.NamedState;
import com.webotech.statemachine.UnexpectedFlowListener;
import com.webotech.statemachine.api.State;
import com.webotech.statemachine.api.StateEvent;
import com.webotech.statemachine.api.StateMachine;
import com.webotech.statemachine.api.StateMachineListener;
import com.webotech.statemachine.strategy.EventProcessingStrategyFactory;
import com.webotech.statemachine.strategy.EventProcessingStrategyFactory.Config;
import com.webotech.statemachine.util.Threads;
import java.util.ArrayList;
import java.util.List;
import mc.Mc;
import mc.Scenario;

/** No data races, and effects made before firing are visible to the callbacks of the event. */
public final class C20 {

  /** callbacks that touch nothing shared and record without ordering anything */
  static StateMachineListener<Object, Object> quiet(String tag) {
    return new StateMachineListener<>() {
      @Override
      public void onStateChangeBegin(State<Object, Object> f, StateEvent<Object> e,
          State<Object, Object> t) {
        Mc.note("begin" + tag, nm(e), e.getPayload());
      }

      @Override
      public void onStateChangeEnd(State<Object, Object> f, StateEvent<Object> e,
          State<Object, Object> t) {
        Mc.note("end" + tag, nm(e), e.getPayload());
      }

      @Override
      public int hashCode() {
        return tag.hashCode();
      }

      @Override
      public boolean equals(Object o) {
        return this == o;
      }
    };
  }

  static UnexpectedFlowListener<Object, Object> quietFlow() {
    return new UnexpectedFlowListener<>() {
      @Override
      public void onExceptionDuringEventProcessing(StateEvent<Object> e,
          StateMachine<Object, Object> sm, Thread thread, Exception x) {
        Mc.note("exception", nm(e), e.getPayload(), sm.toString());
      }

      @Override
      public void onEventAfterMachineEnd(StateEvent<Object> e, StateMachine<Object, Object> sm) {
        Mc.note("afterEnd", nm(e), e.getPayload());
      }

      @Override
      public void onEventBeforeMachineStart(StateEvent<Object> e,
          StateMachine<Object, Object> sm) {
        Mc.note("beforeStart", nm(e), e.getPayload());
      }
    };
  }

  static final String[] KIND = {"default", "drop-duplicates", "bounded",
      "two executor threads"};

  static GenericStateMachine<Object, Object> make(int kind) {
    Config<Object, Object> c = new Config<Object, Object>().withUnexpectedFlowListener(quietFlow())
        .withUnmappedEventHandler((e, sm) -> Mc.note("unmapped", nm(e), e.getPayload(),
            sm.toString()));
    if (kind == 2) {
      c.withMaxQueueSize(1);
    } else if (kind == 3) {
      c.withExecutor(Mc.executor(2, "pool"));
    }
    GenericStateMachine<Object, Object> m = kind == 1 ? dropMachine(c, quiet("")) : machine(c,
        quiet(""));
    wire(m);
    return m;
  }

  @SuppressWarnings("unchecked")
  static void wire(GenericStateMachine<Object, Object> m) {
    State<Object, Object> a = new NamedState<>("A");
    State<Object, Object> b = new NamedState<>("B");
    for (State<Object, Object> s : List.of(a, b)) {
      s.appendEntryActions((e, sm) -> Mc.note("entry", nm(e), e.getPayload(), sm.toString()));
      s.appendExitActions((e, sm) -> {
        if (nm(e).equals("f")) {
          throw new IllegalStateException("boom");
        }
      });
    }
    m.initialSate(a).receives(ev("x")).itTransitionsTo(b);
    m.when(a).receives(ev("n")).itDoesNotTransition();
    m.when(a).receives(ev("f")).itTransitionsTo(b);
    m.when(a).receives(ev("e")).itEnds();
    m.when(b).receives(ev("x")).itTransitionsTo(a);
    m.when(b).receives(ev("n")).itDoesNotTransition();
    m.when(b).receives(ev("f")).itTransitionsTo(a);
    m.when(b).receives(ev("e")).itEnds();
  }

  static final String[] OPS = {"fire x", "fire n", "fire u", "fire e", "fire f", "stop", "start",
      "current state", "flags", "queue size", "text", "set listener", "remove listener",
      "start in state"};

  static void op(GenericStateMachine<Object, Object> m, String op) {
    switch (op) {
      case "stop" -> m.stop();
      case "start" -> {
        try {
          m.start();
        } catch (IllegalStateException e) {
          Mc.note("refused");
        }
      }
      case "start in state" -> {
        try {
          m.startInState(new NamedState<>("B"));
        } catch (IllegalStateException e) {
          Mc.note("refused");
        }
      }
      case "current state" -> Mc.note("state", nm(m.getCurrentState()));
      case "flags" -> Mc.note("flags", m.isStarted(), m.isEnded(), m.getContext());
      case "queue size" -> Mc.note("size", m.getEventQueueSize());
      case "text" -> Mc.note("text", m.toString());
      case "set listener" -> m.setStateMachineListener(quiet("new"));
      case "remove listener" -> m.setStateMachineListener(null);
      default -> {
        StateEvent<Object> e = ev(op.substring(5));
        load(e, "p");
        m.fire(e);
        load(e, "changed");
      }
    }
  }

  public static void scenarios(boolean thorough, List<Scenario> out) {
    for (int kk = 0; kk < KIND.length; kk++) {
      int kind = kk;
      for (int i = 0; i < OPS.length; i++) {
        for (int j = i; j < OPS.length; j++) {
          String p = OPS[i];
          String q = OPS[j];
          boolean fires = p.startsWith("fire") && q.startsWith("fire");
          if (!thorough && kind > 0 && (fires && i != j || i >= 5 && j >= 5)) {
            continue;
          }
          out.add(Scenario.of(p + " and " + q + " at once, " + KIND[kind], () -> {
            GenericStateMachine<Object, Object> m = make(kind);
            m.start();
            Mc.Th t = Mc.spawn("t", () -> op(m, p));
            op(m, q);
            t.join();
            Mc.quiesce();
          }).races().weight(fires ? kind == 3 ? 6 : 3 : 1));
        }
      }
      for (String p : OPS) {
        out.add(Scenario.of(p + " while an event is processed, " + KIND[kind], () -> {
          GenericStateMachine<Object, Object> m = make(kind);
          m.start();
          op(m, "fire x");
          op(m, p);
          Mc.quiesce();
          op(m, "fire x");
          Mc.quiesce();
        }).races().weight(2));
        out.add(Scenario.of(p + " while another thread starts the machine, " + KIND[kind], () -> {
          GenericStateMachine<Object, Object> m = make(kind);
          Mc.Th t = Mc.spawn("t", () -> op(m, p));
          op(m, "start");
          t.join();
          Mc.quiesce();
        }).races().weight(2));
      }
      // what happened before fire is seen by the callbacks, and so on along the events
      out.add(Scenario.of("effects are handed on, " + KIND[kind], () -> {
        List<Mc.Stamp> before = new ArrayList<>();
        List<Mc.Stamp> seen = new ArrayList<>();
        Config<Object, Object> c = new Config<Object, Object>().withUnexpectedFlowListener(
            quietFlow()).withUnmappedEventHandler((e, sm) -> {
        });
        if (kind == 2) {
          c.withMaxQueueSize(5);
        } else if (kind == 3) {
          c.withExecutor(Mc.executor(2, "pool"));
        }
        GenericStateMachine<Object, Object> m = kind == 1 ? dropMachine(c, null) : machine(c, null);
        State<Object, Object> a = new NamedState<>("A");
        State<Object, Object> b = new NamedState<>("B");
        for (State<Object, Object> s : List.of(a, b)) {
          s.appendEntryActions((e, sm) -> {
            if (e.getPayload() != null) {
              Mc.check(((Mc.Stamp) e.getPayload()).seen(),
                  "effects of the firing thread before fire(" + nm(e) + ") may not be visible");
            }
            for (Mc.Stamp p : seen) {
              Mc.check(p.seen(), "effects of an earlier action may not be visible to a later one");
            }
            seen.add(Mc.stamp());
          });
          s.appendExitActions((e, sm) -> {
            for (Mc.Stamp p : seen) {
              Mc.check(p.seen(), "effects of an earlier action may not be visible to a later one");
            }
          });
        }
        m.initialSate(a).receives(ev("x")).itTransitionsTo(b);
        m.when(a).receives(ev("y")).itTransitionsTo(b);
        m.when(b).receives(ev("x")).itTransitionsTo(a);
        m.when(b).receives(ev("y")).itTransitionsTo(a);
        m.start();
        Mc.Th t = Mc.spawn("t", () -> {
          StateEvent<Object> e = ev("y");
          e.setPayload(Mc.stamp());
          m.fire(e);
        });
        StateEvent<Object> e = ev("x");
        e.setPayload(Mc.stamp());
        m.fire(e);
        t.join();
        Mc.quiesce();
        Mc.eq(3, seen.size(), "entry actions");
      }).named().races().weight(kind == 3 ? 9 : 5));
      out.add(Scenario.of("an empty queue brings the effects of the events, " + KIND[kind], () -> {
        String e = new String[]{"x", "u", "f"}[Mc.choose(3)];
        Mc.Stamp[] s = new Mc.Stamp[1];
        Config<Object, Object> c = new Config<Object, Object>().withUnexpectedFlowListener(
            quietFlow()).withUnmappedEventHandler((x, sm) -> s[0] = Mc.stamp());
        if (kind == 2) {
          c.withMaxQueueSize(5);
        } else if (kind == 3) {
          c.withExecutor(Mc.executor(2, "pool"));
        }
        GenericStateMachine<Object, Object> m = kind == 1 ? dropMachine(c, null) : machine(c, null);
        State<Object, Object> a = new NamedState<>("A");
        a.appendEntryActions((x, sm) -> {
          s[0] = Mc.stamp();
          if (nm(x).equals("f")) {
            throw new IllegalStateException("boom");
          }
        });
        m.initialSate(a).receives(ev("x")).itTransitionsTo(a);
        m.when(a).receives(ev("f")).itTransitionsTo(a);
        m.start();
        s[0] = null;
        m.fire(ev(e));
        Mc.Th t = Mc.spawn("t", () -> {
          if (m.getEventQueueSize() == 0) {
            Mc.check(s[0] != null && s[0].seen(),
                "the queue is empty but what the callbacks of " + e + " did may not be visible");
          }
        });
        t.join();
        Mc.quiesce();
      }).races().weight(2));
      out.add(Scenario.of("a state that is seen brings the effects of entering it, " + KIND[kind],
          () -> {
            GenericStateMachine<Object, Object> m = make(kind);
            m.start();
            Mc.Stamp[] s = new Mc.Stamp[2];
            m.setStateMachineListener(new StateMachineListener<>() {
              @Override
              public void onStateChangeBegin(State<Object, Object> f, StateEvent<Object> e,
                  State<Object, Object> t) {
                s[nm(e).equals("x") ? 0 : 1] = Mc.stamp();
              }

              @Override
              public void onStateChangeEnd(State<Object, Object> f, StateEvent<Object> e,
                  State<Object, Object> t) {
              }
            });
            Mc.Th t = Mc.spawn("t", () -> {
              if (nm(m.getCurrentState()).equals("B")) {
                Mc.check(s[0].seen(), "B is seen but not what was done before entering it");
              }
              if (m.isEnded()) {
                Mc.check(s[1].seen(), "the end is seen but not what was done before it");
              }
            });
            op(m, "fire x");
            op(m, "fire e");
            t.join();
            Mc.quiesce();
          }).races().weight(4));
    }
    for (int kk = 0; kk < 3; kk++) {
      int kind = kk;
      out.add(Scenario.of("machines built and used by two threads, " + new String[]{
          "no strategy given", "default strategies", "one configuration"}[kk], () -> {
        Config<Object, Object> c = new Config<>();
        Mc.Task r = () -> {
          var b = new GenericStateMachine.Builder<Object, Object>();
          if (kind == 1) {
            b.setEventProcessingStrategy(
                EventProcessingStrategyFactory.createDropDuplicateStrategy());
          } else if (kind == 2) {
            b.setEventProcessingStrategy(EventProcessingStrategyFactory.createDefaultStrategy(c));
          }
          GenericStateMachine<Object, Object> m = b.build();
          wire(m);
          m.start();
          op(m, "fire x");
          op(m, "text");
        };
        Mc.Th t = Mc.spawn("t", r);
        r.run();
        t.join();
        Mc.quiesce();
        Mc.eq(4, Mc.count("entry"), "entry actions");
      }).races().weight(8));
    }
    String[] mops = {"add 0", "add 1", "remove 0", "remove 1", "begin", "end"};
    for (int i = 0; i < mops.length; i++) {
      for (int j = i; j < mops.length; j++) {
        String p = mops[i];
        String q = mops[j];
        out.add(Scenario.of("fan-out listener: " + p + " and " + q + " at once", () -> {
          List<StateMachineListener<Object, Object>> l = List.of(quiet("0"), quiet("1"));
          var m = new MultiConsumerStateMachineListener<Object, Object>(l.get(0));
          Mc.Th t = Mc.spawn("t", () -> mop(m, l, p));
          mop(m, l, q);
          t.join();
          mop(m, l, "begin");
        }).races());
      }
    }
    out.add(Scenario.of("thread factories at once", () -> {
      var f = Threads.newNamedDaemonThreadFactory("f");
      Mc.Th t = Mc.spawn("t", () -> f.newThread(() -> {
      }));
      f.newThread(() -> {
      });
      Threads.newNamedDaemonThreadFactory("g").newThread(() -> {
      });
      t.join();
    }).races());
    out.add(Scenario.of("exceptions handled on two machines at once", () -> {
      HandleExceptionAction<Object, Object> h = new HandleExceptionAction<>((e, sm) -> {
        throw new IllegalStateException("boom");
      }, (e, sm, x) -> Mc.note("handled", nm(e)));
      for (int i = 0; i < 2; i++) {
        var m = machine(new Config<>(), null);
        State<Object, Object> a = new NamedState<>("A");
        a.appendEntryActions(h);
        m.initialSate(a).receives(ev("x")).itTransitionsTo(a);
        m.start();
        m.fire(ev("x"));
      }
      Mc.quiesce();
      Mc.eq(4, Mc.count("handled"), "handled");
    }).races().weight(3));
    String[] aops = {"start", "stop", "error", "state", "context", "listener"};
    for (int xx = 0; xx < 2; xx++) {
      boolean exit = xx == 1;
      for (int i = 0; i < aops.length; i++) {
        for (int j = i; j < aops.length; j++) {
          String p = aops[i];
          String q = aops[j];
          out.add(Scenario.of("app: " + p + " and " + q + " at once" + (exit
              ? ", exits when stopped" : ", restartable"), () -> {
            KApp.App a = new KApp.App(appCtx(), 1, exit);
            Mc.Th s = Mc.spawn("s", a::start).mayBlock();
            Mc.quiesce();
            Mc.Th t = Mc.spawn("t", () -> aop(a, p)).mayBlock();
            aop(a, q);
            Mc.quiesce();
            t.join();
          }).races());
        }
        String p = aops[i];
        if (!p.equals("start")) {
          out.add(Scenario.of("app: " + p + " while it starts" + (exit ? ", exits when stopped"
              : ", restartable"), () -> {
            KApp.App a = new KApp.App(appCtx(), 1, exit);
            Mc.Th s = Mc.spawn("s", a::start).mayBlock();
            aop(a, p);
            Mc.quiesce();
          }).races().weight(2));
        }
      }
    }
  }

  private static KApp.Ctx appCtx() {
    Mc.Stamp[] up = new Mc.Stamp[1];
    return new KApp.Ctx("App").withSubsystems(
        List.of(new com.webotech.statemachine.service.api.Subsystem<>() {
          @Override
          public void start(KApp.Ctx c) {
            Mc.note("start", c.getAppName());
            up[0] = Mc.stamp();
          }

          @Override
          public void stop(KApp.Ctx c) {
            Mc.note("stop", c.getAppName());
            Mc.check(up[0].seen(), "stopping does not see the effects of starting");
          }
        }));
  }

  private static void aop(KApp.App a, String op) {
    switch (op) {
      case "state" -> Mc.note("state", a.state());
      case "context" -> Mc.note("context", a.getAppContext().getSubsystems().size(),
          a.getAppContext().withAppThreadName("later").getAppThreadName());
      case "listener" -> a.setStateMachineListener(null);
      default -> Mc.note(KApp.call(a, op));
    }
  }

  private static void mop(MultiConsumerStateMachineListener<Object, Object> m,
      List<StateMachineListener<Object, Object>> l, String op) {
    switch (op) {
      case "begin" -> m.onStateChangeBegin(new NamedState<>("A"), ev("x"), new NamedState<>("B"));
      case "end" -> m.onStateChangeEnd(new NamedState<>("A"), ev("x"), new NamedState<>("B"));
      case "add 0" -> m.add(l.get(0));
      case "add 1" -> m.add(l.get(1));
      case "remove 0" -> m.remove(l.get(0));
      default -> m.remove(l.get(1));
    }
  }
}
