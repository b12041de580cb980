package vf;

import static vf.Kit.*;

import com.webotech.statemachine.GenericStateMachine;
import com.webotech.statemachine.HandleExceptionAction;
import com.webotech.statemachine.HandleExceptionAction.ExceptionHandler;
import com.webotech.statemachine.NamedState;
import com.webotech.statemachine.api.StateAction;
import com.webotech.statemachine.api.StateEvent;
import com.webotech.statemachine.api.StateMachine;
import com.webotech.statemachine.api.State;
import java.util.ArrayList;
import java.util.List;
import mc.Mc;
import mc.Scenario;

/** HandleExceptionAction routes exceptions of its action to its handler, and nothing else. */
public final class C21 {

  static final class Checked extends Exception {

  }

  static final class Own extends RuntimeException {

  }

  static Throwable[] kinds() {
    return new Throwable[]{null, new IllegalStateException("a"), new NullPointerException(),
        new Checked(), new Own(), new InterruptedException(),
        new java.util.concurrent.CancellationException(), new java.io.IOException("io"),
        new AssertionError("e"), new StackOverflowError(), new OutOfMemoryError("driver"),
        new Error("plain"), new IllegalStateException("wrapper", new java.io.IOException("cause")),
        new java.util.concurrent.ExecutionException(new AssertionError("cause")),
        new java.lang.reflect.UndeclaredThrowableException(new Checked()),
        new RuntimeException(new RuntimeException(new Own())),
        new java.util.concurrent.CompletionException(new InterruptedException()),
        new ExceptionInInitializerError(new IllegalStateException())};
  }

  public static void scenarios(boolean thorough, List<Scenario> out) {
    out.add(Scenario.seq("every kind of outcome of action and handler", () -> {
      GenericStateMachine<Object, Object> m = ring().m;
      StateEvent<Object> e = ev("x");
      load(e, "p");
      int rounds = 1 + Mc.choose(2);
      boolean interrupted = Mc.flip();
      if (interrupted) {
        Mc.interruptMe();
      }
      Throwable[] now = new Throwable[2];
      List<Object> calls = new ArrayList<>();
      StateAction<Object, Object> act = (ev, sm) -> {
        calls.add("action");
        Mc.check(ev == e && sm == m, "the action gets other arguments");
        if (now[0] != null) {
          Kit.<RuntimeException>sneak(now[0]);
        }
      };
      ExceptionHandler<Object, Object> h = (ev, sm, x) -> {
        calls.add("handler");
        Mc.check(ev == e && sm == m, "the handler gets another event or machine");
        Mc.check(x == now[0], "the handler gets " + x + " instead of " + now[0]);
        if (now[1] != null) {
          Kit.<RuntimeException>sneak(now[1]);
        }
      };
      HandleExceptionAction<Object, Object> a = new HandleExceptionAction<>(act, h);
      for (int i = 0; i < rounds; i++) {
        now[0] = kinds()[Mc.choose(kinds().length)];
        boolean handled = now[0] instanceof Exception;
        now[1] = handled ? i == 0 ? kinds()[Mc.choose(kinds().length)]
            : new Throwable[]{null, new Own(), new AssertionError()}[Mc.choose(3)] : null;
        calls.clear();
        Throwable thrown = null;
        try {
          a.execute(e, m);
        } catch (Throwable t) {
          thrown = t;
        }
        Mc.eq(handled ? List.of("action", "handler") : List.of("action"), calls, "calls");
        Throwable want = handled ? now[1] : now[0];
        Mc.check(thrown == want, "execute threw " + thrown + " instead of " + want);
      }
    }));
    out.add(Scenario.seq("the same exception again and again", () -> {
      Exception[] two = {new Own(), Mc.flip() ? new Own() : new Checked()};
      Exception[] now = new Exception[1];
      List<Object> calls = new ArrayList<>();
      GenericStateMachine<Object, Object> m = ring().m;
      HandleExceptionAction<Object, Object> a = new HandleExceptionAction<>((ev, sm) -> {
        calls.add(ev);
        if (now[0] != null) {
          Kit.<RuntimeException>sneak(now[0]);
        }
      }, (ev, sm, x) -> {
        calls.add(sm);
        calls.add(x);
      });
      int n = Mc.flip() ? 6 : 1200;
      int pat = Mc.choose(27);
      for (int i = 0; i < n; i++) {
        int p = i % 3 == 0 ? pat / 9 : i % 3 == 1 ? pat / 3 % 3 : pat % 3;
        now[0] = p == 2 ? null : two[p];
        StateEvent<Object> e = ev("e");
        calls.clear();
        a.execute(e, m);
        Mc.eq(now[0] == null ? 1 : 3, calls.size(), "calls of action and handler, round " + i);
        Mc.check(calls.get(0) == e && (now[0] == null || calls.get(1) == m && calls.get(2) == now[0]),
            "arguments, round " + i);
      }
    }));
    out.add(Scenario.seq("wrapped actions of a machine", () -> {
      int where = Mc.choose(4);
      Throwable[] ks = kinds();
      Throwable boom = ks[Mc.choose(ks.length)];
      boolean again = Mc.flip();
      List<Throwable> got = new ArrayList<>();
      ExceptionHandler<Object, Object> h = (e, sm, x) -> {
        got.add(x);
        Mc.rec("handler", nm(e), nm(sm.getCurrentState()));
        if (again) {
          throw new IllegalArgumentException("handler");
        }
      };
      StateAction<Object, Object> bad = (e, sm) -> {
        Mc.rec("bad", nm(e));
        if (boom != null && nm(e).equals("x")) {
          Kit.<RuntimeException>sneak(boom);
        }
      };
      Ring r = ring();
      StateAction<Object, Object> w = new HandleExceptionAction<>(bad, h);
      StateAction<Object, Object> next = (e, sm) -> Mc.rec("next", nm(e));
      State<Object, Object> s = where < 2 ? r.a : r.b;
      if (where % 2 == 0) {
        s.appendEntryActions(w, next);
      } else {
        s.appendExitActions(w, next);
      }
      r.m.start();
      r.m.fire(ev("x"));
      Mc.quiesce();
      r.m.fire(ev("n"));
      Mc.quiesce();
      boolean ran = where == 1 || where == 2;
      boolean ex = boom instanceof Exception;
      Mc.eq(ran && ex ? List.of(boom) : List.of(), got, "exceptions handled");
      if (ran && ex) {
        Mc.eq(1, Mc.count("handler", "x", where == 1 ? "A" : "B"), "handled in the state");
      }
      boolean stopped = ran && boom != null && (!ex || again);
      Mc.eq(ran && !stopped ? 1 : 0, Mc.count("next", "x"), "next action of the state");
      Mc.eq(stopped ? 0 : 1, Mc.count("end", "A", "x", "B"), "transition completed");
      Mc.eq(stopped && ex ? 1 : 0, Mc.count("exception", "x"), "reported");
      if (!stopped) {
        Mc.eq("B", nm(r.m.getCurrentState()), "state");
      }
      Mc.eq(1, Mc.count("end", nm(r.m.getCurrentState()), "n", NOOP), "the next event");
    }));
    out.add(Scenario.of("a handler fires an event", () -> {
      ExceptionHandler<Object, Object> h = (e, sm, x) -> {
        Mc.rec("handler", nm(e));
        sm.fire(ev("n"));
      };
      Ring r = ring();
      r.b.appendEntryActions(new HandleExceptionAction<>((e, sm) -> {
        throw new IllegalStateException("boom");
      }, h));
      r.m.start();
      r.m.fire(ev("x"));
      r.m.fire(ev("u"));
      Mc.quiesce();
      Mc.eq(1, Mc.count("handler", "x"), "handled");
      Mc.eq(1, Mc.count("end", "A", "x", "B"), "x completes");
      Mc.eq(1, Mc.count("end", "B", "n", NOOP), "n is processed");
      Mc.eq(0, Mc.count("exception"), "reports");
      Mc.eq("B", nm(r.m.getCurrentState()), "state");
      checkAtomic("", true);
    }).weight(3));
    out.add(Scenario.of("one wrapped action, its calls overlap", () -> {
      Mc.Latch[] in = {Mc.latch(1), Mc.latch(1)};
      GenericStateMachine<Object, Object> m1 = ring().m;
      GenericStateMachine<Object, Object> m2 = ring().m;
      StateEvent<Object> e1 = ev("x");
      StateEvent<Object> e2 = ev("n");
      boolean firstFails = Mc.flip();
      RuntimeException b1 = new IllegalStateException("one");
      RuntimeException b2 = new IllegalStateException("two");
      HandleExceptionAction<Object, Object> a = new HandleExceptionAction<>((e, sm) -> {
        Mc.check(e == e1 && sm == m1 || e == e2 && sm == m2, "the action gets other arguments");
        if (e == e1) {
          in[0].countDown();
          in[1].await();
          if (firstFails) {
            throw b1;
          }
        } else {
          in[0].await();
          in[1].countDown();
          throw b2;
        }
      }, (e, sm, x) -> {
        Mc.rec("handler", nm(e));
        Mc.check(x == b1 && e == e1 && sm == m1 || x == b2 && e == e2 && sm == m2,
            "the handler gets " + nm(e) + " with " + x);
      });
      Mc.Th t = Mc.spawn("t", () -> a.execute(e2, m2));
      a.execute(e1, m1);
      t.join();
      Mc.eq(firstFails ? 1 : 0, Mc.count("handler", "x"), "handler calls for x");
      Mc.eq(1, Mc.count("handler", "n"), "handler calls for n");
    }));
    out.add(Scenario.seq("a wrapped action inside a wrapped action", () -> {
      Throwable boom = kinds()[Mc.choose(kinds().length)];
      Throwable inner = kinds()[Mc.choose(kinds().length)];
      List<String> calls = new ArrayList<>();
      GenericStateMachine<Object, Object> m = ring().m;
      HandleExceptionAction<Object, Object> a = new HandleExceptionAction<>(
          new HandleExceptionAction<>((e, sm) -> {
            if (boom != null) {
              Kit.<RuntimeException>sneak(boom);
            }
          }, (e, sm, x) -> {
            calls.add("inner");
            Mc.check(x == boom, "the inner handler gets " + x);
            if (inner != null) {
              Kit.<RuntimeException>sneak(inner);
            }
          }), (e, sm, x) -> {
        calls.add("outer");
        Mc.check(x == inner, "the outer handler gets " + x);
      });
      Throwable thrown = null;
      try {
        a.execute(ev("x"), m);
      } catch (Throwable t) {
        thrown = t;
      }
      boolean in = boom instanceof Exception;
      Mc.eq(!in ? List.of() : inner instanceof Exception ? List.of("inner", "outer")
          : List.of("inner"), calls, "calls");
      Throwable want = !in ? boom : inner instanceof Exception ? null : inner;
      Mc.check(thrown == want, "execute threw " + thrown + " instead of " + want);
    }));
    out.add(Scenario.of("one wrapped action on two machines at once", () -> {
      ExceptionHandler<Object, Object> h = (e, sm, x) -> Mc.rec("handler", nm(e), x, sm.getContext());
      StateAction<Object, Object> w = new HandleExceptionAction<>((e, sm) -> {
        throw new IllegalStateException("boom " + sm.getContext());
      }, h);
      for (int i = 0; i < 2; i++) {
        GenericStateMachine<Object, Object> m = new GenericStateMachine.Builder<Object, Object>()
            .setContext("c" + i).build();
        State<Object, Object> a = new NamedState<>("A");
        State<Object, Object> b = new NamedState<>("B");
        b.appendEntryActions(w);
        m.initialSate(a).receives(ev("x")).itTransitionsTo(b);
        m.start();
        m.fire(ev("x"));
      }
      Mc.quiesce();
      Mc.eq(2, Mc.count("handler"), "handled");
      for (int i = 0; i < 2; i++) {
        int n = 0;
        for (mc.Rec r : Mc.trace()) {
          n += r.what.equals("handler") && r.args[2].equals("c" + i) && r.args[1].toString()
              .contains("boom c" + i) ? 1 : 0;
        }
        Mc.eq(1, n, "exceptions of machine " + i);
      }
    }).weight(3));
  }
}
