package vf;

import static vf.Kit.*;

import com.webotech.statemachine.MultiConsumerStateMachineListener;
import com.webotech.statemachine.NamedState;
import com.webotech.statemachine.api.State;
import com.webotech.statemachine.api.StateEvent;
import com.webotech.statemachine.api.StateMachineListener;
import java.util.ArrayList;
import java.util.LinkedHashSet;
import java.util.List;
import java.util.Set;
import mc.Mc;
import mc.Scenario;

/** The fan-out listener notifies each of its consumers once. */
public final class C15 {

  private static final NamedState<Object, Object> A = new NamedState<>("A");
  private static final NamedState<Object, Object> B = new NamedState<>("B");

  @SuppressWarnings("unchecked")
  private static StateMachineListener<Object, Object>[] listeners(int n) {
    StateMachineListener<Object, Object>[] l = new StateMachineListener[n];
    for (int i = 0; i < n; i++) {
      l[i] = listener("" + i, null);
    }
    return l;
  }

  private static int got(int i, boolean end) {
    return Mc.count((end ? "end" : "begin") + i);
  }

  public static void scenarios(boolean thorough, List<Scenario> out) {
    int len = thorough ? 6 : 5;
    out.add(Scenario.seq("every sequence of " + len + " add, remove and notify calls", () -> {
      StateMachineListener<Object, Object>[] l = listeners(3);
      Set<Integer> in = new LinkedHashSet<>();
      MultiConsumerStateMachineListener<Object, Object> m;
      switch (Mc.choose(5)) {
        case 0 -> m = new MultiConsumerStateMachineListener<>();
        case 1 -> {
          m = new MultiConsumerStateMachineListener<>(l[0], null, l[1]);
          in.add(0);
          in.add(1);
        }
        case 2 -> {
          m = new MultiConsumerStateMachineListener<>(l[0], l[0]);
          in.add(0);
        }
        case 3 -> {
          m = new MultiConsumerStateMachineListener<>(l);
          in.addAll(List.of(0, 1, 2));
        }
        default -> m = new MultiConsumerStateMachineListener<>(
            (StateMachineListener<Object, Object>) null);
      }
      int[] b = new int[3];
      int[] e = new int[3];
      for (int i = 0; i < len; i++) {
        int k = Mc.choose(8);
        if (k < 3) {
          Mc.eq(in.add(k), m.add(l[k]), "add returns");
        } else if (k < 6) {
          Mc.eq(in.remove(k - 3), m.remove(l[k - 3]), "remove returns");
        } else {
          if (k == 6) {
            m.onStateChangeBegin(A, ev("x"), B);
          } else {
            m.onStateChangeEnd(A, ev("x"), B);
          }
          for (int c : in) {
            (k == 6 ? b : e)[c]++;
          }
        }
        for (int c = 0; c < 3; c++) {
          Mc.eq(b[c], got(c, false), "begin notifications of consumer " + c);
          Mc.eq(e[c], got(c, true), "end notifications of consumer " + c);
        }
      }
      for (var r : Mc.trace()) {
        Mc.eq("A", r.args[0], "from");
        Mc.eq("x", r.args[1], "event");
        Mc.eq("B", r.args[2], "to");
      }
    }).weight(3));
    for (int ee = 0; ee < 2; ee++) {
      boolean end = ee == 1;
      String w = end ? "end" : "begin";
      out.add(Scenario.of("add and remove race a " + w + " notification", () -> {
        StateMachineListener<Object, Object>[] l = listeners(4);
        var m = new MultiConsumerStateMachineListener<>(l[0], l[1], l[3]);
        Mc.Th t = Mc.spawn("t", () -> Mc.check(m.add(l[2]), "add"));
        Mc.Th t2 = Mc.spawn("t2", () -> Mc.check(m.remove(l[1]), "remove"));
        if (end) {
          m.onStateChangeEnd(A, ev("x"), B);
        } else {
          m.onStateChangeBegin(A, ev("x"), B);
        }
        t.join();
        t2.join();
        Mc.eq(1, got(0, end), "consumer that stays");
        Mc.eq(1, got(3, end), "consumer that stays");
        Mc.check(got(1, end) <= 1, "removed consumer");
        Mc.check(got(2, end) <= 1, "added consumer");
        int[] before = {got(0, end), got(1, end), got(2, end), got(3, end)};
        if (end) {
          m.onStateChangeEnd(A, ev("x"), B);
        } else {
          m.onStateChangeBegin(A, ev("x"), B);
        }
        Mc.eq(1, got(0, end) - before[0], "consumer 0 afterwards");
        Mc.eq(0, got(1, end) - before[1], "removed consumer afterwards");
        Mc.eq(1, got(2, end) - before[2], "added consumer afterwards");
        Mc.eq(1, got(3, end) - before[3], "consumer 3 afterwards");
      }).weight(4));
    }
    out.add(Scenario.of("two threads add the same consumer", () -> {
      StateMachineListener<Object, Object>[] l = listeners(1);
      var m = new MultiConsumerStateMachineListener<Object, Object>();
      boolean[] ok = new boolean[2];
      Mc.Th t = Mc.spawn("t", () -> ok[0] = m.add(l[0]));
      ok[1] = m.add(l[0]);
      t.join();
      Mc.check(ok[0] != ok[1], "exactly one add succeeds");
      m.onStateChangeBegin(A, ev("x"), B);
      Mc.eq(1, got(0, false), "notifications");
      Mc.check(m.remove(l[0]), "remove");
      m.onStateChangeBegin(A, ev("x"), B);
      Mc.eq(1, got(0, false), "notifications after removal");
    }));
    out.add(Scenario.of("two threads remove the same consumer", () -> {
      StateMachineListener<Object, Object>[] l = listeners(2);
      var m = new MultiConsumerStateMachineListener<>(l);
      boolean[] ok = new boolean[2];
      Mc.Th t = Mc.spawn("t", () -> ok[0] = m.remove(l[0]));
      ok[1] = m.remove(l[0]);
      t.join();
      Mc.check(ok[0] != ok[1], "exactly one remove succeeds");
      m.onStateChangeBegin(A, ev("x"), B);
      Mc.eq(0, got(0, false), "removed consumer");
      Mc.eq(1, got(1, false), "other consumer");
    }));
    out.add(Scenario.of("add races remove of the same consumer", () -> {
      StateMachineListener<Object, Object>[] l = listeners(1);
      var m = new MultiConsumerStateMachineListener<Object, Object>();
      boolean[] ok = new boolean[2];
      Mc.Th t = Mc.spawn("t", () -> ok[0] = m.remove(l[0]));
      ok[1] = m.add(l[0]);
      t.join();
      Mc.check(ok[1], "add");
      m.onStateChangeBegin(A, ev("x"), B);
      Mc.eq(ok[0] ? 0 : 1, got(0, false), "notifications");
    }));
    out.add(Scenario.of("consumers change while a machine works", () -> {
      StateMachineListener<Object, Object>[] l = listeners(3);
      var m = new MultiConsumerStateMachineListener<>(l[0], l[1]);
      Ring r = new Ring("", machine(config(""), m), null);
      r.m.start();
      Mc.Th t = Mc.spawn("t", () -> {
        m.add(l[2]);
        m.remove(l[1]);
      });
      r.m.fire(ev("x"));
      t.join();
      Mc.quiesce();
      Mc.eq(1, Mc.count("begin0", "A", "x", "B"), "consumer 0, begin");
      Mc.eq(1, Mc.count("end0", "A", "x", "B"), "consumer 0, end");
      for (int c = 1; c < 3; c++) {
        Mc.check(Mc.count("begin" + c, "A", "x", "B") <= 1 && Mc.count("end" + c, "A", "x", "B") <= 1,
            "consumer " + c + " was notified twice");
      }
      Mc.check(Mc.count("end1", "A") <= Mc.count("begin1", "A"), "removed consumer was added");
      Mc.check(Mc.count("end2", "A") >= Mc.count("begin2", "A"), "added consumer was removed");
      r.m.fire(ev("x"));
      Mc.quiesce();
      Mc.eq(1, Mc.count("end0", "B", "x", "A"), "consumer 0 afterwards");
      Mc.eq(0, Mc.count("end1", "B", "x", "A"), "consumer 1 afterwards");
      Mc.eq(1, Mc.count("end2", "B", "x", "A"), "consumer 2 afterwards");
    }).weight(4));
    out.add(Scenario.seq("a consumer adds and removes consumers while it is notified", () -> {
      StateMachineListener<Object, Object>[] l = listeners(3);
      var m = new MultiConsumerStateMachineListener<Object, Object>();
      boolean self = Mc.flip();
      StateMachineListener<Object, Object>[] me = listeners(1);
      me[0] = listener("M", (w, s, e, sm) -> {
        if (Mc.count("beginM") + Mc.count("endM") == 1) {
          m.remove(self ? me[0] : l[0]);
          m.add(l[2]);
        }
      });
      m.add(me[0]);
      m.add(l[0]);
      m.add(l[1]);
      boolean end = Mc.flip();
      for (int i = 0; i < 2; i++) {
        if (end) {
          m.onStateChangeEnd(A, ev("x"), B);
        } else {
          m.onStateChangeBegin(A, ev("x"), B);
        }
      }
      Mc.eq(2, got(1, end), "consumer that stays");
      Mc.eq(self ? 1 : 2, Mc.count((end ? "end" : "begin") + "M"), "the consumer itself");
      Mc.check(got(2, end) == 1 || got(2, end) == 2, "added consumer");
      if (self) {
        Mc.eq(2, got(0, end), "consumer 0");
      } else {
        Mc.check(got(0, end) <= 1, "removed consumer");
      }
    }));
    out.add(Scenario.seq("whatever the change, it is passed on as it is", () -> {
      NamedState<Object, Object> end = new NamedState<>(END);
      NamedState<Object, Object> noop = new NamedState<>(NOOP);
      NamedState<Object, Object> uninit = new NamedState<>(UNINIT);
      NamedState<Object, Object> b2 = new NamedState<>("B");
      List<NamedState<Object, Object>> states = List.of(A, B, b2, end, noop, uninit);
      List<StateEvent<Object>> events = List.of(ev("x"), ev(IMMEDIATE), ev("x"), ev(""));
      int consumers = Mc.choose(4);
      List<Object> got = new ArrayList<>();
      var m = new MultiConsumerStateMachineListener<Object, Object>();
      for (int i = 0; i < consumers; i++) {
        m.add(new StateMachineListener<>() {
          @Override
          public void onStateChangeBegin(State<Object, Object> f, StateEvent<Object> e,
              State<Object, Object> t) {
            got.addAll(List.of("begin", f, e, t));
          }

          @Override
          public void onStateChangeEnd(State<Object, Object> f, StateEvent<Object> e,
              State<Object, Object> t) {
            got.addAll(List.of("end", f, e, t));
          }
        });
      }
      for (int i = 0; i < 2; i++) {
        got.clear();
        var f = states.get(Mc.choose(states.size()));
        var e = events.get(i == 0 ? Mc.choose(events.size()) : 0);
        var t = states.get(Mc.choose(states.size()));
        boolean ends = Mc.flip();
        if (ends) {
          m.onStateChangeEnd(f, e, t);
        } else {
          m.onStateChangeBegin(f, e, t);
        }
        Mc.eq(4 * consumers, got.size(), "notifications");
        for (int k = 0; k < got.size(); k += 4) {
          Mc.eq(ends ? "end" : "begin", got.get(k), "kind of notification");
          Mc.check(got.get(k + 1) == f && got.get(k + 2) == e && got.get(k + 3) == t,
              "a consumer gets other arguments");
        }
      }
    }));
    out.add(Scenario.seq("a consumer that fails stays registered", () -> {
      StateMachineListener<Object, Object>[] l = listeners(2);
      int failing = Mc.choose(3);
      Throwable boom = new Throwable[]{new IllegalStateException("boom"),
          new AssertionError("boom")}[Mc.choose(2)];
      int[] fails = {1 + Mc.choose(2)};
      var bad = listener("M", (w, s, e, sm) -> {
        if (fails[0]-- > 0) {
          Kit.<RuntimeException>sneak(boom);
        }
      });
      var m = new MultiConsumerStateMachineListener<Object, Object>();
      for (int i = 0; i < 3; i++) {
        Mc.check(m.add(i == failing ? bad : l[i < failing ? i : i - 1]), "add");
      }
      boolean machine = Mc.flip();
      boolean end = Mc.flip();
      for (int i = 0; i < 3; i++) {
        int at = Mc.trace().size();
        try {
          if (end) {
            m.onStateChangeEnd(A, ev("x"), B);
          } else {
            m.onStateChangeBegin(A, ev("x"), B);
          }
        } catch (IllegalStateException | AssertionError e) {
          Mc.check(e == boom, "another exception " + e);
        }
        for (var c : new String[]{"0", "1", "M"}) {
          int n = 0;
          for (int k = at; k < Mc.trace().size(); k++) {
            n += Mc.trace().get(k).what.equals((end ? "end" : "begin") + c) ? 1 : 0;
          }
          Mc.check(n <= 1, "consumer " + c + " was notified twice");
          if (fails[0] < 0 || c.equals("M")) {
            Mc.eq(1, n, "notifications of consumer " + c);
          }
        }
        if (machine) {
          Mc.check(!m.add(bad), "the failed consumer is registered");
        }
      }
      Mc.check(m.remove(bad), "the failed consumer was registered");
    }));
    out.add(Scenario.seq("many consumers", () -> {
      int n = new int[]{1, 12, 17, 100}[Mc.choose(4)];
      StateMachineListener<Object, Object>[] l = listeners(n);
      var m = new MultiConsumerStateMachineListener<Object, Object>();
      for (var x : l) {
        Mc.check(m.add(x), "add");
      }
      int drop = Mc.choose(2);
      List<Integer> in = new ArrayList<>();
      for (int i = 0; i < n; i++) {
        if (drop == 1 && i % 3 == 0) {
          Mc.check(m.remove(l[i]), "remove");
        } else {
          in.add(i);
        }
      }
      m.onStateChangeBegin(A, ev("x"), B);
      m.onStateChangeEnd(A, ev("x"), B);
      for (int i = 0; i < n; i++) {
        Mc.eq(in.contains(i) ? 1 : 0, got(i, false), "begin of consumer " + i);
        Mc.eq(in.contains(i) ? 1 : 0, got(i, true), "end of consumer " + i);
      }
    }));
  }
}
