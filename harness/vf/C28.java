package vf;

import static vf.Kit.*;

import com.webotech.statemachine.GenericStateMachine;
import com.webotech.statemachine.HandleExceptionAction;
import com.webotech.statemachine.LoggingStateMachineListener;
import com.webotech.statemachine.MultiConsumerStateMachineListener;
import com.webotech.statemachine.NamedState;
import com.webotech.statemachine.NamedStateEvent;
import com.webotech.statemachine.UnexpectedFlowListener;
import com.webotech.statemachine.api.State;
import com.webotech.statemachine.api.StateEvent;
import com.webotech.statemachine.api.StateMachine;
import com.webotech.statemachine.api.StateMachineListener;
import com.webotech.statemachine.service.AbstractAppContext;
import com.webotech.statemachine.service.AbstractAppService;
import com.webotech.statemachine.service.api.Subsystem;
import com.webotech.statemachine.strategy.EventProcessingStrategyFactory;
import com.webotech.statemachine.strategy.EventProcessingStrategyFactory.Config;
import com.webotech.statemachine.util.Threads;
import java.util.ArrayList;
import java.util.List;
import java.util.concurrent.ThreadFactory;
import mc.Mc;
import mc.Scenario;

/** Memory does not grow with the number of things that have been done. */
public final class C28 {

  private interface Cycle {

    void run(int i);
  }

  /** what is held after three times the same number of cycles, each of which leaves nothing behind */
  private static void steady(String what, Cycle c, Object... roots) {
    int n = 120;
    int[] held = new int[3];
    for (int k = 0; k < 3; k++) {
      for (int i = 0; i < n; i++) {
        c.run(k * n + i);
      }
      Mc.quiesce();
      held[k] = Mc.reach(roots);
      Mc.rec("held " + what, held[k]);
    }
    Mc.check(held[1] - held[0] < n / 2 || held[2] - held[1] < n / 2,
        what + ": objects held after " + n + ", " + 2 * n + ", " + 3 * n + " times: " + held[0]
            + ", " + held[1] + ", " + held[2]);
  }

  private static StateMachineListener<Object, Object> quiet() {
    return new StateMachineListener<>() {
      @Override
      public void onStateChangeBegin(State<Object, Object> f, StateEvent<Object> e,
          State<Object, Object> t) {
      }

      @Override
      public void onStateChangeEnd(State<Object, Object> f, StateEvent<Object> e,
          State<Object, Object> t) {
      }
    };
  }

  private static UnexpectedFlowListener<Object, Object> silent() {
    return new UnexpectedFlowListener<>() {
      @Override
      public void onExceptionDuringEventProcessing(StateEvent<Object> e,
          StateMachine<Object, Object> m, Thread t, Exception x) {
      }

      @Override
      public void onEventAfterMachineEnd(StateEvent<Object> e, StateMachine<Object, Object> m) {
      }

      @Override
      public void onEventBeforeMachineStart(StateEvent<Object> e, StateMachine<Object, Object> m) {
      }
    };
  }

  private static final String[] KINDS = {"default", "drop-duplicates", "bounded",
      "two executor threads", "own bounded queue"};

  /** a machine with everything a long-running one may have */
  private static final class Box {

    final GenericStateMachine<Object, Object> m;
    final MultiConsumerStateMachineListener<Object, Object> fan =
        new MultiConsumerStateMachineListener<>();
    final StateMachineListener<Object, Object> known = quiet();
    Mc.Latch gate;

    @SuppressWarnings("unchecked")
    Box(int kind) {
      Config<Object, Object> c = new Config<Object, Object>();
      if (kind != 1) {
        c.withUnexpectedFlowListener(silent());
      }
      if (kind != 2) {
        c.withUnmappedEventHandler((e, sm) -> {
        });
      } else {
        c.withMaxQueueSize(2);
      }
      if (kind == 3) {
        c.withExecutor(Mc.executor(2, "pool"));
      }
      if (kind == 4) {
        c.withEventQueue(new java.util.concurrent.ArrayBlockingQueue<>(2));
      }
      m = new GenericStateMachine.Builder<Object, Object>().setStateMachineListener(fan)
          .setEventProcessingStrategy(
              kind == 1 ? EventProcessingStrategyFactory.createDropDuplicateStrategy(c)
                  : EventProcessingStrategyFactory.createDefaultStrategy(c)).build();
      fan.add(known);
      State<Object, Object> a = new NamedState<>("A");
      State<Object, Object> b = new NamedState<>("B");
      State<Object, Object> end = new NamedState<>("Z");
      b.appendEntryActions((e, sm) -> {
        switch (nm(e)) {
          case "fail" -> throw new IllegalArgumentException("fail");
          case "gate" -> gate.await();
          case "again" -> sm.fire(ev("n"));
          default -> {
          }
        }
      }, new HandleExceptionAction<>((e, sm) -> {
        if (nm(e).equals("handled")) {
          throw new IllegalArgumentException("handled");
        }
      }, (e, sm, x) -> {
      }));
      m.initialSate(a).receives(ev("x")).itTransitionsTo(b);
      for (State<Object, Object> s : List.of(a, b)) {
        m.when(s).receives(ev("n")).itDoesNotTransition();
        m.when(s).receives(ev("e")).itTransitionsTo(end);
        for (String n : new String[]{"fail", "gate", "again", "handled"}) {
          m.when(s).receives(ev(n)).itTransitionsTo(b);
        }
      }
      m.when(b).receives(ev("x")).itTransitionsTo(a);
    }

    void refused(Runnable r) {
      try {
        r.run();
      } catch (IllegalStateException e) {
        return;
      }
      Mc.fail("not refused");
    }

    void at(int op, int i) {
      switch (op) {
        case 0 -> m.fire(ev("x"));
        case 1 -> {
          StateEvent<Object> e = ev("n");
          load(e, "payload " + i);
          m.fire(e);
        }
        case 2 -> m.fire(ev("unknown " + i));
        case 3 -> m.fire(ev("fail"));
        case 4 -> {
          Mc.quiesce();
          gate = Mc.latch(1);
          m.fire(ev("gate"));
          Mc.quiesce();
          for (String n : new String[]{"x", "n", "x", "n"}) {
            m.fire(ev(n));
          }
          gate.countDown();
          Mc.quiesce();
        }
        case 5 -> m.fire(ev("again"));
        case 6 -> {
          m.setStateMachineListener(quiet());
          m.fire(ev("n"));
          Mc.quiesce();
          m.setStateMachineListener(fan);
        }
        case 7 -> {
          StateMachineListener<Object, Object> l = quiet();
          fan.add(l);
          m.fire(ev("n"));
          Mc.quiesce();
          fan.remove(l);
        }
        case 8 -> {
          fan.add(known);
          fan.remove(quiet());
        }
        case 9 -> {
          refused(m::start);
          refused(() -> m.initialSate(new NamedState<>("other " + i)));
          refused(() -> m.receives(ev("other " + i)));
          refused(() -> m.startInState(new NamedState<>("other " + i)));
          refused(() -> m.when(new NamedState<>(END)));
        }
        case 10 -> {
          m.getCurrentState();
          m.getEventQueueSize();
          m.getContext();
          m.isStarted();
          m.isEnded();
          String.valueOf(m);
        }
        case 11 -> m.fire(ev("handled"));
        default -> {
          m.stop();
          m.fire(ev("e"));
        }
      }
    }
  }

  public static final class Ctx extends AbstractAppContext<Ctx> {

    public Ctx(String name) {
      super(name);
    }
  }

  public static final class App extends AbstractAppService<Ctx> {

    public App(Ctx c, boolean exit) {
      super(c, exit);
    }
  }

  public static void scenarios(boolean thorough, List<Scenario> out) {
    int len = thorough ? 4 : 2;
    for (int kk = 0; kk < 5; kk++) {
      int kind = kk;
      out.add(Scenario.seq("every cycle of a running machine, " + KINDS[kind], () -> {
        Box b = new Box(kind);
        int[] ops = new int[len];
        for (int i = 0; i < len; i++) {
          ops[i] = Mc.choose(12);
        }
        b.m.start();
        steady(java.util.Arrays.toString(ops), i -> {
          for (int op : ops) {
            b.at(op, i);
          }
          Mc.quiesce();
        }, b.m, b.fan);
      }).weight(9));
      out.add(Scenario.seq("every cycle before the start and after the end, " + KINDS[kind], () -> {
        Box b = new Box(kind);
        int phase = Mc.choose(3);
        if (phase > 0) {
          b.m.start();
          if (phase == 1) {
            b.m.stop();
          } else {
            b.m.fire(ev("e"));
            Mc.quiesce();
          }
          Mc.check(b.m.isEnded(), "not ended");
        }
        int[] all = phase == 0 ? new int[]{0, 1, 2, 6, 7, 8, 10} : new int[]{0, 1, 2, 6, 7, 8, 9, 10,
            12};
        int[] ops = new int[len];
        for (int i = 0; i < len; i++) {
          ops[i] = all[Mc.choose(all.length)];
        }
        steady("phase " + phase + " " + java.util.Arrays.toString(ops), i -> {
          for (int op : ops) {
            b.at(op, i);
          }
        }, b.m, b.fan);
      }).weight(5));
      out.add(Scenario.seq("events that wait when the machine ends, machines that are dropped, "
          + KINDS[kind], () -> {
        Config<Object, Object> c = new Config<Object, Object>().withUnexpectedFlowListener(silent());
        boolean one = Mc.flip();
        if (one) {
          c.withExecutor(Mc.executor(kind == 3 ? 2 : 1, "pool"));
        }
        if (kind == 2) {
          c.withMaxQueueSize(2);
        }
        GenericStateMachine.Builder<Object, Object> builder =
            new GenericStateMachine.Builder<Object, Object>().setStateMachineListener(quiet());
        int life = Mc.choose(5);
        steady("life " + life, i -> {
          builder.setEventProcessingStrategy(
              kind == 1 ? EventProcessingStrategyFactory.createDropDuplicateStrategy(c)
                  : EventProcessingStrategyFactory.createDefaultStrategy(c));
          GenericStateMachine<Object, Object> m = builder.setContext("c" + i).build();
          State<Object, Object> a = new NamedState<>("A" + i);
          m.initialSate(a).receives(ev("x")).itTransitionsTo(new NamedState<>("B"));
          m.when(a).receives(ev("e")).itEnds();
          if (life == 1) {
            m.fire(ev("x"));
          } else if (life > 1) {
            m.start();
            m.fire(ev("x"));
            m.fire(ev("e"));
            if (life == 3) {
              m.stop();
            }
            if (life == 4) {
              Mc.quiesce();
              m.fire(ev("x"));
            }
            Mc.quiesce();
          }
        }, builder, c);
      }).weight(4));
    }
    for (boolean exit : new boolean[]{false, true}) {
      String mode = exit ? ", exits when stopped" : ", restartable";
      out.add(Scenario.seq("every cycle of calls of an app" + mode, () -> {
        int[] now = {0};
        boolean failing = Mc.flip();
        Ctx c = new Ctx("app");
        List<Subsystem<Ctx>> subs = new ArrayList<>();
        for (int k = 0; k < 2; k++) {
          int i = k;
          subs.add(new Subsystem<>() {
            @Override
            public void start(Ctx x) {
              if (failing && i == 1 && now[0]++ % 2 == 1) {
                throw new IllegalArgumentException("start " + now[0]);
              }
            }

            @Override
            public void stop(Ctx x) {
              if (failing && i == 0 && now[0] % 3 == 0) {
                throw new IllegalArgumentException("stop " + now[0]);
              }
            }
          });
        }
        App app = new App(c.withSubsystems(subs), exit);
        Mc.spawn("main", app::start);
        Mc.quiesce();
        int n = thorough ? 5 : 3;
        int[] ops = new int[n];
        for (int i = 0; i < n; i++) {
          ops[i] = Mc.choose(4);
        }
        steady(java.util.Arrays.toString(ops), i -> {
          for (int op : ops) {
            try {
              switch (op) {
                case 0 -> app.start();
                case 1 -> app.stop();
                case 2 -> app.error(new IllegalStateException("error " + i));
                default -> app.setStateMachineListener(new LoggingStateMachineListener<>("app"));
              }
            } catch (IllegalStateException e) {
              // not permitted at this point
            }
            Mc.quiesce();
          }
        }, app, c);
        if (!END.equals(app.getLifecycleState().getName())) {
          app.error(new IllegalStateException("the end"));
          Mc.quiesce();
        }
        if (!END.equals(app.getLifecycleState().getName())) {
          app.stop();
        }
        Mc.quiesce();
        Mc.eq(END, app.getLifecycleState().getName(), "state");
      }).weight(6));
    }
    out.add(Scenario.seq("parts on their own", () -> {
      int part = Mc.choose(4);
      switch (part) {
        case 0 -> {
          State<Object, Object> s = new NamedState<>("A");
          Mc.check(s.equals(new NamedState<>("A")), "not equal");
          steady("state", i -> {
            s.onEntry(ev("x" + i), null);
            s.onExit(ev("x" + i), null);
            String.valueOf(s);
            s.equals(new NamedState<>("B" + i));
          }, s);
        }
        case 1 -> {
          StateEvent<Object> e = ev("x");
          steady("event", i -> {
            load(e, "p" + i);
            new NamedStateEvent<>(e);
            String.valueOf(e);
            e.equals(ev("y" + i));
          }, e);
        }
        case 2 -> {
          HandleExceptionAction<Object, Object> h = new HandleExceptionAction<>((e, sm) -> {
            if (nm(e).endsWith("3")) {
              throw new IllegalArgumentException(nm(e));
            }
          }, (e, sm, x) -> {
          });
          steady("action", i -> h.execute(ev("x" + i), null), h);
          steady("failing action", i -> h.execute(ev("x3"), null), h);
        }
        default -> {
          LoggingStateMachineListener<Object, Object> l = new LoggingStateMachineListener<>("l");
          State<Object, Object> s = new NamedState<>("A");
          steady("listener", i -> {
            l.onStateChangeBegin(s, ev("x" + i), new NamedState<>("B" + i));
            l.onStateChangeEnd(s, ev("x" + i), new NamedState<>("B" + i));
          }, l);
        }
      }
    }));
    out.add(Scenario.seq("threads and factories", () -> {
      boolean each = Mc.flip();
      ThreadFactory f = Threads.newNamedDaemonThreadFactory("t");
      steady("threads", i -> (each ? Threads.newNamedDaemonThreadFactory("t" + i) : f).newThread(
          () -> {
          }), f);
    }).threads(500));
  }
}
