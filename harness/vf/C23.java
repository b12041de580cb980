package vf;

import static vf.Kit.*;

import com.webotech.statemachine.GenericStateMachine;
import com.webotech.statemachine.LoggingStateMachineListener;
import com.webotech.statemachine.NamedState;
import com.webotech.statemachine.strategy.DefaultUnexpectedFlowListener;
import com.webotech.statemachine.strategy.EventProcessingStrategyFactory;
import com.webotech.statemachine.strategy.EventProcessingStrategyFactory.Config;
import com.webotech.statemachine.api.State;
import java.util.ArrayList;
import java.util.List;
import mc.Mc;
import mc.Rec;
import mc.Scenario;

/** What the defaults log: one line per occurrence, and nothing else happens. */
public final class C23 {

  private static List<String> logs() {
    List<String> l = new ArrayList<>();
    for (Rec r : Mc.trace()) {
      if (r.what.equals("log")) {
        l.add(r.args[0] + ": " + r.args[1]);
      }
    }
    return l;
  }

  private static void line(String got, String level, String... parts) {
    Mc.check(got.startsWith(level + ": "), "level of [" + got + "] is not " + level);
    for (String p : parts) {
      Mc.check(got.contains(p), "log line [" + got + "] does not mention " + p);
    }
  }

  @SuppressWarnings("unchecked")
  private static GenericStateMachine<Object, Object> machine(int how, boolean logging, String name,
      RuntimeException[] boom) {
    var b = new GenericStateMachine.Builder<Object, Object>();
    switch (how) {
      case 1 -> b.setEventProcessingStrategy(
          EventProcessingStrategyFactory.createDropDuplicateStrategy());
      case 2 -> b.setEventProcessingStrategy(EventProcessingStrategyFactory.createDefaultStrategy(
          new Config<Object, Object>().withMaxQueueSize(50)));
      case 3 -> b.setEventProcessingStrategy(EventProcessingStrategyFactory.createDefaultStrategy(
          new Config<Object, Object>().withUnexpectedFlowListener(
              new DefaultUnexpectedFlowListener<>())));
      default -> {
      }
    }
    if (logging) {
      b.setStateMachineListener(name == null ? new LoggingStateMachineListener<>()
          : new LoggingStateMachineListener<>(name));
    }
    var m = b.build();
    State<Object, Object> a = st("A");
    State<Object, Object> c = st("B");
    c.appendEntryActions((e, sm) -> {
      if (boom[0] != null) {
        throw boom[0];
      }
    });
    m.initialSate(a).receives(ev("x")).itTransitionsTo(c);
    m.when(a).receives(ev("n")).itDoesNotTransition();
    m.when(a).receives(ev("s")).itTransitionsTo(a);
    m.when(a).receives(ev("e")).itEnds();
    m.when(c).receives(ev("x")).itTransitionsTo(a);
    m.when(c).receives(ev("e")).itEnds();
    return m;
  }

  public static void scenarios(boolean thorough, List<Scenario> out) {
    String[] how = {"no strategy given", "default drop-duplicates strategy", "bounded",
        "default flow listener"};
    int len = thorough ? 6 : 5;
    for (int hh = 0; hh < 4; hh++) {
      int h = hh;
      out.add(Scenario.seq("every sequence of " + len + " events, " + how[hh], () -> {
        Mc.keepLogs();
        RuntimeException[] boom = new RuntimeException[1];
        if (Mc.flip()) {
          boom[0] = new IllegalStateException("boom");
        }
        var m = machine(h, false, null, boom);
        String at = null;
        int startAt = Mc.choose(2);
        for (int i = 0; i < len; i++) {
          if (i == startAt) {
            m.start();
            at = "A";
            Mc.eq(List.of(), logs(), "logged by starting");
          }
          String e = new String[]{"x", "n", "u", "e"}[Mc.choose(4)];
          m.fire(ev(e));
          Mc.quiesce();
          List<String> l = logs();
          Object thrown = Mc.trace().isEmpty() ? null : Mc.trace().get(0).args[2];
          Mc.trace().clear();
          if (at == null) {
            Mc.eq(1, l.size(), "lines for an event before the start " + l);
            line(l.get(0), "warn", en(e));
            Mc.eq(null, m.getCurrentState(), "state");
            continue;
          } else if (at.equals(END)) {
            Mc.eq(1, l.size(), "lines for an event after the end " + l);
            line(l.get(0), "warn", en(e));
          } else if (e.equals("u") || at.equals("B") && e.equals("n")) {
            Mc.eq(1, l.size(), "lines for an unmapped event " + l);
            line(l.get(0), "info", en(e), sn(at));
          } else if (e.equals("x") && at.equals("A") && boom[0] != null) {
            at = "B";
            Mc.eq(1, l.size(), "lines for a failing action " + l);
            line(l.get(0), "error", en(e), sn(at));
            Mc.check(thrown == boom[0], "the line comes with exception " + thrown);
          } else {
            at = e.equals("n") ? at : e.equals("e") ? END : at.equals("A") ? "B" : "A";
            Mc.eq(List.of(), l, "logged by a transition");
          }
          Mc.eq(at, nm(m.getCurrentState()), "state");
        }
      }));
      // the logging listener writes the documented lines and changes nothing
      out.add(Scenario.seq("logging listener, " + how[hh], () -> {
        Mc.keepLogs();
        String name = new String[]{null, "", "machine 1", "{}", " ", "A"}[Mc.choose(6)];
        var m = machine(h, true, name, new RuntimeException[1]);
        boolean named = name != null && !name.isEmpty();
        String begin = named ? "info: Begin " + name + " transition: " : "info: Begin transition: ";
        String end = named ? "info: " + name + " transitioned to " : "info: Transitioned to ";
        m.start();
        Mc.eq(List.of(begin + UNINIT + " + " + IMMEDIATE + " = " + sn("A"), end + sn("A")), logs(), "lines");
        String at = "A";
        for (int i = 0; i < len - 1 && !at.equals(END); i++) {
          Mc.trace().clear();
          String e = new String[]{"x", "n", "e", "s"}[Mc.choose(4)];
          if (at.equals("B") && (e.equals("n") || e.equals("s"))) {
            continue;
          }
          m.fire(ev(e));
          Mc.quiesce();
          String to = e.equals("n") ? NOOP : e.equals("s") ? "A" : e.equals("e") ? END : at.equals("A") ? "B" : "A";
          Mc.eq(List.of(begin + sn(at) + " + " + en(e) + " = " + sn(to), end + sn(to)), logs(), "lines");
          at = to.equals(NOOP) ? at : to;
          Mc.eq(at, nm(m.getCurrentState()), "state");
        }
      }));
      out.add(Scenario.of("two threads and the defaults, " + how[hh], () -> {
        Mc.keepLogs();
        var m = machine(h, false, null, new RuntimeException[1]);
        m.start();
        Mc.Th t = Mc.spawn("t", () -> m.fire(ev("u")));
        m.fire(ev("x"));
        t.join();
        Mc.quiesce();
        List<String> l = logs();
        Mc.eq(1, l.size(), "lines for one unmapped event " + l);
        line(l.get(0), "info", en("u"));
        Mc.eq("B", nm(m.getCurrentState()), "state");
      }).weight(3));
    }
    out.add(Scenario.seq("odd names in the lines", () -> {
      Mc.keepLogs();
      String[] odd = {"{}", "{0}", "%s", "$1", "a{}b{}", "\\{}", "", " ", "%", "a b"};
      String e = odd[Mc.choose(odd.length)];
      String st = odd[Mc.choose(odd.length)];
      int how1 = Mc.choose(2);
      boolean logging = Mc.flip();
      var b = new GenericStateMachine.Builder<Object, Object>();
      if (how1 == 1) {
        b.setEventProcessingStrategy(EventProcessingStrategyFactory.createDropDuplicateStrategy());
      }
      if (logging) {
        b.setStateMachineListener(new LoggingStateMachineListener<>("m"));
      }
      var m = b.build();
      State<Object, Object> s = new NamedState<>(st);
      boolean[] boom = {false};
      s.appendEntryActions((x, sm) -> {
        if (boom[0]) {
          throw new IllegalStateException("boom");
        }
      });
      m.initialSate(s).receives(ev("end")).itEnds();
      m.when(s).receives(ev(e + "x")).itTransitionsTo(s);
      m.fire(ev(e));
      line(logs().get(0), "warn", e);
      m.start();
      Mc.trace().clear();
      m.fire(ev(e));
      Mc.quiesce();
      Mc.eq(1, logs().size(), "lines for an unmapped event");
      line(logs().get(0), "info", "[" + e + "]", "[" + st + "]");
      Mc.trace().clear();
      m.fire(ev(e + "x"));
      Mc.quiesce();
      Mc.eq(logging ? List.of("info: Begin m transition: " + st + " + " + e + "x = " + st,
          "info: m transitioned to " + st) : List.of(), logs(), "lines of a transition");
      Mc.trace().clear();
      boom[0] = true;
      m.fire(ev(e + "x"));
      Mc.quiesce();
      Mc.eq(logging ? 2 : 1, logs().size(), "lines for a failure " + logs());
      line(logs().get(logging ? 1 : 0), "error", e + "x", st);
      m.fire(ev("end"));
      Mc.quiesce();
      Mc.trace().clear();
      m.fire(ev(e));
      line(logs().get(0), "warn", e);
    }).asWritten());
    out.add(Scenario.seq("the same occurrence again and again", () -> {
      Mc.keepLogs();
      int what = Mc.choose(6);
      int n = Mc.flip() ? 4 : thorough ? 3000 : 600;
      Mc.Latch gate = Mc.latch(1);
      RuntimeException x = new IllegalStateException("boom");
      Hook h = (w, s, e, sm) -> {
        if (w.equals("entry") && nm(e).equals("x") && what >= 4) {
          gate.await();
        }
        if (w.equals("begin") && nm(e).equals("n") && what == 3) {
          throw x;
        }
      };
      Config<Object, Object> c = new Config<>();
      if (what == 5) {
        c.withMaxQueueSize(1);
      }
      Ring r = what == 4 ? dropRing(c, h) : ring(c, h);
      if (what > 0) {
        r.m.start();
        Mc.trace().clear();
      }
      if (what == 1) {
        r.m.fire(ev("e"));
        Mc.quiesce();
      } else if (what >= 4) {
        r.m.fire(ev("x"));
        Mc.quiesce();
        r.m.fire(ev("n"));
      }
      for (int i = 0; i < n; i++) {
        r.m.fire(ev(what == 2 ? "u" : "n"));
        if (what == 2 || what == 3) {
          Mc.quiesce();
        }
        Mc.trace().removeIf(t -> !t.what.equals("log"));
        Mc.eq(i + 1, Mc.trace().size(), "lines");
        line(logs().get(i), what < 2 ? "warn" : what == 3 || what == 5 ? "error" : "info",
            en(what == 2 ? "u" : "n"));
        if (what == 3) {
          Mc.check(Mc.trace().get(i).args[2] == x, "exception of line " + i);
        }
      }
      gate.countDown();
      Mc.quiesce();
    }));
    out.add(Scenario.seq("dropped duplicates and refused events", () -> {
      Mc.keepLogs();
      boolean drop = Mc.flip();
      Config<Object, Object> c = new Config<>();
      if (!drop) {
        c.withMaxQueueSize(1);
      }
      Mc.Latch gate = Mc.latch(1);
      Hook h = (w, s, e, sm) -> {
        if (w.equals("entry") && nm(e).equals("x")) {
          gate.await();
        }
      };
      Ring r = drop ? dropRing(c, h) : ring(c, h);
      r.m.start();
      r.m.fire(ev("x"));
      Mc.quiesce();
      r.m.fire(ev("n"));
      int more = drop ? Mc.choose(3) : 0;
      for (int i = 0; i < more; i++) {
        r.m.fire(ev("u" + i));
      }
      Mc.eq(List.of(), logs(), "lines");
      int k = 1 + Mc.choose(3);
      for (int i = 0; i < k; i++) {
        r.m.fire(ev("n"));
        Mc.eq(i + 1, logs().size(), "lines");
        line(logs().get(i), drop ? "info" : "error", en("n"));
      }
      for (Rec x : Mc.trace()) {
        Mc.check(!x.what.equals("log") || drop == !(x.args[2] instanceof IllegalStateException),
            "exception of the line " + x);
      }
      gate.countDown();
      Mc.quiesce();
      Mc.eq(k + more, logs().size(), "lines, with those for " + more + " unmapped events");
      Mc.eq(1, Mc.count("end", "B", "n", NOOP), "n is processed once");
    }));
    out.add(Scenario.seq("an error kills the thread: logged, and the machine goes on", () -> {
      Mc.keepLogs();
      boolean given = Mc.flip();
      var m = new GenericStateMachine.Builder<Object, Object>().setEventProcessingStrategy(given
          ? EventProcessingStrategyFactory.createDefaultStrategy(
          new Config<Object, Object>().withThreadName("mine"))
          : EventProcessingStrategyFactory.createDefaultStrategy()).build();
      State<Object, Object> a = st("A");
      int[] n = {0};
      a.appendExitActions((e, sm) -> {
        n[0]++;
        throw new AssertionError("boom");
      });
      m.initialSate(a).receives(ev("x")).itTransitionsTo(a);
      m.start();
      int k = 1 + Mc.choose(3);
      for (int i = 0; i < k; i++) {
        m.fire(ev("x"));
        Mc.quiesce();
        Mc.eq(i + 1, n[0], "events processed");
        Mc.eq(i + 1, logs().size(), "lines " + logs());
        line(logs().get(i), "error", given ? "mine-" : "state-machine-");
      }
    }));
    out.add(Scenario.seq("a callback of any transition fails: logged with its exception", () -> {
      Mc.keepLogs();
      String at = new String[]{"begin", "exit", "entry", "end", "unmapped"}[Mc.choose(5)];
      String e = new String[]{"x", "n", "e", "s", "u"}[Mc.choose(5)];
      RuntimeException boom = new IllegalStateException("boom");
      boolean drop = Mc.flip();
      boolean[] hit = {false};
      boolean[] on = {false};
      Hook h = (w, s, ev, sm) -> {
        if (w.equals(at) && on[0]) {
          hit[0] = true;
          throw boom;
        }
      };
      Config<Object, Object> c = new Config<Object, Object>().withUnmappedEventHandler((ev, sm) -> {
        h.at("unmapped", null, ev, sm);
      });
      Ring r = drop ? dropRing(c, h) : ring(c, h);
      r.m.when(r.a).receives(ev("s")).itTransitionsTo(r.a);
      r.m.start();
      on[0] = true;
      r.m.fire(ev(e));
      Mc.quiesce();
      on[0] = false;
      Mc.eq(hit[0] ? 1 : 0, logs().size(), "lines " + logs());
      for (Rec x : Mc.trace()) {
        if (x.what.equals("log")) {
          line(x.args[0] + ": " + x.args[1], "error", en(e));
          Mc.check(x.args[2] == boom, "exception of the line");
        }
      }
      boolean ended = r.m.isEnded();
      r.m.fire(ev("u"));
      Mc.quiesce();
      Mc.eq((hit[0] ? 1 : 0) + (ended ? 1 : 0), logs().size(), "lines " + logs());
    }));
    // the default flow listener never throws and never touches the machine
    out.add(Scenario.seq("default flow listener called directly", () -> {
      Mc.keepLogs();
      var l = new DefaultUnexpectedFlowListener<Object, Object>();
      Ring r = ring();
      if (Mc.flip()) {
        r.m.start();
      }
      Mc.trace().clear();
      String at = nm(r.m.getCurrentState());
      var e = ev("x");
      switch (Mc.choose(3)) {
        case 0 -> {
          l.onEventBeforeMachineStart(e, r.m);
          Mc.eq(1, logs().size(), "lines");
          line(logs().get(0), "warn", en("x"));
        }
        case 1 -> {
          l.onEventAfterMachineEnd(e, r.m);
          Mc.eq(1, logs().size(), "lines");
          line(logs().get(0), "warn", en("x"));
        }
        default -> {
          l.onExceptionDuringEventProcessing(e, r.m, Mc.thread(),
              new IllegalStateException("boom"));
          Mc.eq(1, logs().size(), "lines");
          line(logs().get(0), "error", en("x"), at.equals("null") ? at : sn(at), "main");
          Mc.check(Mc.trace().get(0).args[2] instanceof IllegalStateException, "exception");
        }
      }
      Mc.quiesce();
      Mc.eq(1, Mc.trace().size(), "effects");
      Mc.eq(at, nm(r.m.getCurrentState()), "state");
    }));
  }
}
