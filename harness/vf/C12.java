package vf;

import static vf.Kit.*;

import com.webotech.statemachine.GenericStateMachine;
import com.webotech.statemachine.NamedState;
import com.webotech.statemachine.NamedStateEvent;
import com.webotech.statemachine.UnexpectedFlowListener;
import com.webotech.statemachine.api.State;
import com.webotech.statemachine.api.StateEvent;
import com.webotech.statemachine.api.StateMachine;
import com.webotech.statemachine.api.StateMachineListener;
import com.webotech.statemachine.strategy.EventProcessingStrategyFactory;
import com.webotech.statemachine.strategy.EventProcessingStrategyFactory.Config;
import java.util.ArrayList;
import java.util.List;
import mc.Mc;
import mc.Rec;
import mc.Scenario;

/** Every callback sees the payload the event had when it was fired. */
public final class C12 {

  /** x: A -> B -> A, n: no transition, f: A -> A whose entry action fails; all record payloads */
  private static final class Pm {

    final GenericStateMachine<Object, Object> m;
    Mc.Latch gate;

    @SuppressWarnings("unchecked")
    Pm(boolean drop, Config<Object, Object> c, boolean unordered) {
      c.withUnexpectedFlowListener(new UnexpectedFlowListener<>() {
        @Override
        public void onExceptionDuringEventProcessing(StateEvent<Object> e,
            StateMachine<Object, Object> sm, Thread thread, Exception x) {
          saw(unordered, "exception", e);
        }

        @Override
        public void onEventAfterMachineEnd(StateEvent<Object> e, StateMachine<Object, Object> sm) {
          saw(unordered, "afterEnd", e);
        }

        @Override
        public void onEventBeforeMachineStart(StateEvent<Object> e,
            StateMachine<Object, Object> sm) {
          saw(unordered, "beforeStart", e);
        }
      }).withUnmappedEventHandler((e, sm) -> {
        hold(e);
        saw(unordered, "unmapped", e);
      });
      StateMachineListener<Object, Object> l = new StateMachineListener<>() {
        @Override
        public void onStateChangeBegin(State<Object, Object> f, StateEvent<Object> e,
            State<Object, Object> t) {
          hold(e);
          saw(unordered, "begin", e);
        }

        @Override
        public void onStateChangeEnd(State<Object, Object> f, StateEvent<Object> e,
            State<Object, Object> t) {
          saw(unordered, "end", e);
        }
      };
      m = drop ? dropMachine(c, l) : machine(c, l);
      State<Object, Object> a = st("A");
      State<Object, Object> b = st("B");
      for (State<Object, Object> s : List.of(a, b)) {
        s.appendEntryActions((e, sm) -> {
          saw(unordered, "entry", e);
          if (nm(e).equals("f")) {
            throw new IllegalArgumentException("boom");
          }
        });
        s.appendExitActions((e, sm) -> saw(unordered, "exit", e));
      }
      m.initialSate(a).receives(bare("x")).itTransitionsTo(b);
      m.when(a).receives(bare("n")).itDoesNotTransition();
      m.when(a).receives(bare("f")).itTransitionsTo(a);
      m.when(b).receives(bare("x")).itTransitionsTo(a);
      m.when(b).receives(bare("n")).itDoesNotTransition();
      m.when(b).receives(bare("f")).itTransitionsTo(b);
    }

    void hold(StateEvent<Object> e) {
      if (gate != null && nm(e).equals("x")) {
        gate.await();
      }
    }

    static void saw(boolean unordered, String w, StateEvent<Object> e) {
      if (unordered) {
        Mc.note(w, nm(e), e.getPayload());
      } else {
        Mc.rec(w, nm(e), e.getPayload());
      }
    }
  }

  private static int per(String e) {
    return e.equals("x") ? 4 : e.equals("n") ? 2 : e.equals("f") ? 4 : 1;
  }

  /** the payloads seen, callback by callback, in order */
  private static void want(List<String> evs, List<Object> payloads) {
    List<String> want = new ArrayList<>();
    for (int i = 0; i < evs.size(); i++) {
      String tail = "[" + evs.get(i) + ", " + payloads.get(i) + "]";
      switch (evs.get(i)) {
        case "x" -> want.addAll(
            List.of("begin" + tail, "exit" + tail, "entry" + tail, "end" + tail));
        case "n" -> want.addAll(List.of("begin" + tail, "end" + tail));
        case "f" -> want.addAll(
            List.of("begin" + tail, "exit" + tail, "entry" + tail, "exception" + tail));
        default -> want.add("unmapped" + tail);
      }
    }
    List<String> got = new ArrayList<>();
    for (Rec r : Mc.trace()) {
      if (!IMMEDIATE.equals(r.args[0])) {
        got.add(r.what + "[" + r.args[0] + ", " + r.args[1] + "]");
      }
    }
    Mc.eq(want, got, "payloads seen");
  }

  public static void scenarios(boolean thorough, List<Scenario> out) {
    Object[] pay = {null, "p", "q"};
    // one event instance, its payload changed right after it was fired
    for (int dd = 0; dd < 2; dd++) {
      boolean drop = dd == 1;
      String dn = drop ? ", drop-duplicates" : "";
      for (int n = 0; n < 4; n++) {
        String e = new String[]{"x", "n", "f", "u"}[n];
        out.add(Scenario.of("payload of " + e + " changed after fire returned" + dn, () -> {
          Pm p = new Pm(drop, new Config<>(), true);
          p.m.start();
          StateEvent<Object> x = bare(e);
          Object first = pay[Mc.choose(3)];
          x.setPayload(first);
          p.m.fire(x);
          x.setPayload("changed");
          Mc.quiesce();
          want(List.of(e), java.util.Arrays.asList(first));
        }).weight(2));
      }
      out.add(Scenario.of("one instance fired twice with different payloads" + dn, () -> {
        Pm p = new Pm(false, new Config<>(), true);
        p.m.start();
        StateEvent<Object> x = bare(drop ? "n" : "u");
        Object a = pay[Mc.choose(3)];
        Object b = pay[Mc.choose(3)];
        x.setPayload(a);
        p.m.fire(x);
        x.setPayload(b);
        p.m.fire(x);
        x.setPayload("changed");
        Mc.quiesce();
        List<Object> seen = new ArrayList<>();
        for (Rec r : Mc.trace()) {
          if (r.what.equals("unmapped") || r.what.equals("begin") && !r.args[0].equals(IMMEDIATE)) {
            seen.add(r.args[1]);
          }
        }
        Mc.eq(java.util.Arrays.asList(a, b), seen, "payloads");
      }).weight(4));
    }
    out.add(Scenario.of("two firers with equal events and different payloads", () -> {
      Pm p = new Pm(false, new Config<>(), false);
      p.m.start();
      Mc.Th t = Mc.spawn("f", () -> {
        StateEvent<Object> x = bare("x");
        x.setPayload("one");
        p.m.fire(x);
        x.setPayload(null);
      });
      StateEvent<Object> x = bare("x");
      x.setPayload("two");
      p.m.fire(x);
      t.join();
      Mc.quiesce();
      for (String w : new String[]{"begin", "exit", "entry", "end"}) {
        Mc.eq(1, Mc.count(w, "x", "one"), w + " callbacks with payload one");
        Mc.eq(1, Mc.count(w, "x", "two"), w + " callbacks with payload two");
      }
    }).weight(4));
    out.add(Scenario.of("two executor threads, different payloads", () -> {
      Pm p = new Pm(false, new Config<Object, Object>().withExecutor(Mc.executor(2, "pool")), false);
      p.m.start();
      for (String s : new String[]{"one", "two"}) {
        StateEvent<Object> x = bare("x");
        x.setPayload(s);
        p.m.fire(x);
        x.setPayload("changed");
      }
      Mc.quiesce();
      for (String w : new String[]{"begin", "exit", "entry", "end"}) {
        Mc.eq(1, Mc.count(w, "x", "one"), w + " callbacks with payload one");
        Mc.eq(1, Mc.count(w, "x", "two"), w + " callbacks with payload two");
      }
    }).weight(7));
    out.add(Scenario.of("a failing event and others are fired at once", () -> {
      Pm p = new Pm(false, new Config<>(), false);
      p.m.start();
      Mc.Th t = Mc.spawn("f", () -> {
        StateEvent<Object> x = bare("f");
        x.setPayload("one");
        p.m.fire(x);
        x.setPayload("changed");
      });
      StateEvent<Object> x = bare("u");
      x.setPayload("two");
      p.m.fire(x);
      x.setPayload("three");
      p.m.fire(x);
      t.join();
      Mc.quiesce();
      for (String w : new String[]{"begin", "exit", "entry", "exception"}) {
        Mc.eq(1, Mc.count(w, "f", "one"), w + " callbacks with payload one");
      }
      Mc.eq(1, Mc.count("unmapped", "u", "two"), "unmapped with payload two");
      Mc.eq(1, Mc.count("unmapped", "u", "three"), "unmapped with payload three");
    }).weight(7));
    out.add(Scenario.of("an action fires the event it was given again", () -> {
      GenericStateMachine<Object, Object>[] m = new GenericStateMachine[1];
      List<Object> seen = new ArrayList<>();
      Hook h = (w, s, e, sm) -> {
        if (w.equals("entry") && nm(e).equals("x")) {
          seen.add(e.getPayload());
          if (seen.size() < 3) {
            e.setPayload("p" + seen.size());
            sm.fire(e);
            e.setPayload("changed");
          }
        }
      };
      Ring r = Mc.flip() ? dropRing(config(""), h) : ring(config(""), h);
      r.m.start();
      StateEvent<Object> x = bare("x");
      x.setPayload("p0");
      r.m.fire(x);
      Mc.quiesce();
      Mc.eq(List.of("p0", "p1", "p2"), seen, "payloads");
      Mc.eq("p0", x.getPayload(), "payload of the instance the firer keeps");
    }).weight(2));
    int len = thorough ? 5 : 4;
    for (int dd = 0; dd < 2; dd++) {
      boolean drop = dd == 1;
      out.add(Scenario.seq("every sequence of events and payloads" + (drop ? ", drop-duplicates"
          : ""), () -> {
        Config<Object, Object> c = new Config<>();
        Pm p = new Pm(drop, c, false);
        p.m.start();
        boolean wait = drop || Mc.flip();
        boolean reuse = Mc.flip();
        StateEvent<Object>[] inst = new StateEvent[]{bare("x"), bare("n"), bare("f"), bare("u")};
        List<String> es = new ArrayList<>();
        List<Object> ps = new ArrayList<>();
        for (int i = 0; i < len; i++) {
          int k = Mc.choose(4);
          Object pl = pay[Mc.choose(i < 2 || thorough ? 3 : 2)];
          StateEvent<Object> e = reuse ? inst[k] : bare(nm(inst[k]));
          e.setPayload(pl);
          p.m.fire(e);
          if (wait) {
            Mc.quiesce();
          }
          es.add(nm(e));
          ps.add(pl);
        }
        for (StateEvent<Object> e : inst) {
          e.setPayload("changed");
        }
        Mc.quiesce();
        want(es, ps);
      }).weight(3));
    }
    out.add(Scenario.seq("payload objects are handed over as they are", () -> {
      Object[] objs = {new Object(), List.of(1, 2), "", " a ", "\n", LONG1, 0, 128, 'c', 1.5, -7, false, new int[0], bare("x"),
          new StringBuilder("s"), new Object[]{1, "a"}, new ArrayList<>(List.of(1)),
          new java.util.HashMap<>(), new java.util.Date(0), new IllegalStateException("payload"),
          java.util.Optional.empty(), new int[][]{{1}}, new String("s"), 1000L,
          (Runnable) () -> { }, EventProcessingStrategyFactory.class};
      Object o = objs[Mc.choose(objs.length)];
      String name = new String[]{"x", "n", "f", "u"}[Mc.choose(4)];
      Config<Object, Object> c = new Config<>();
      if (Mc.flip()) {
        c.withMaxQueueSize(2);
      }
      Pm p = new Pm(Mc.flip(), c, false);
      StateEvent<Object> e = name.equals("u") && Mc.flip() ? new C08.OwnEvent(name) : bare(name);
      e.setPayload(o);
      p.m.fire(e);
      p.m.start();
      p.m.fire(e);
      Mc.quiesce();
      p.m.stop();
      p.m.fire(e);
      int n = 0;
      for (Rec r : Mc.trace()) {
        if (r.args[0].equals(name)) {
          n++;
          Mc.check(r.args[1] == o, r.what + ": payload " + r.args[1] + " instead of " + o);
        }
      }
      Mc.eq(per(name) + 2, n, "callbacks");
    }));
    out.add(Scenario.seq("events of another class, payload changed while they wait", () -> {
      Config<Object, Object> c = new Config<>();
      Pm p = new Pm(Mc.flip(), c, false);
      p.m.start();
      p.gate = Mc.latch(1);
      p.m.fire(bare("x"));
      Mc.quiesce();
      String name = "u";
      C08.OwnEvent e = new C08.OwnEvent(name);
      e.setPayload("fired");
      p.m.fire(e);
      e.setPayload(Mc.flip() ? "changed" : null);
      p.gate.countDown();
      Mc.quiesce();
      want(List.of("x", name), java.util.Arrays.asList(null, "fired"));
    }));
    out.add(Scenario.seq("a dropped duplicate leaves the payload of the waiting event alone", () -> {
      Pm p = new Pm(true, new Config<>(), false);
      p.m.start();
      p.gate = Mc.latch(1);
      p.m.fire(bare("x"));
      Mc.quiesce();
      String name = new String[]{"n", "f", "u"}[Mc.choose(3)];
      StateEvent<Object> e = bare(name);
      Object first = pay[Mc.choose(3)];
      e.setPayload(first);
      p.m.fire(e);
      for (int i = 0; i < 2; i++) {
        StateEvent<Object> d = Mc.flip() ? e : bare(name);
        d.setPayload(pay[Mc.choose(3)]);
        p.m.fire(d);
      }
      p.gate.countDown();
      Mc.quiesce();
      want(List.of("x", name), java.util.Arrays.asList(null, first));
    }));
    out.add(Scenario.seq("reports carry the event with its payload", () -> {
      Config<Object, Object> c = new Config<>();
      int k = Mc.choose(3);
      Object pl = pay[Mc.choose(3)];
      if (k == 2) {
        c.withMaxQueueSize(1);
      }
      boolean drop = Mc.flip();
      Pm p = new Pm(drop, c, false);
      StateEvent<Object> e = bare("u");
      e.setPayload(pl);
      if (k == 0) {
        p.m.fire(e);
        Mc.eq(List.of("beforeStart[u, " + pl + "]"), Mc.keys(), "report");
      } else if (k == 1) {
        p.m.start();
        p.m.stop();
        int n = Mc.trace().size();
        p.m.fire(e);
        Mc.eq("afterEnd[u, " + pl + "]", Mc.trace().get(n).key(), "report");
      } else {
        p.m.start();
        p.gate = Mc.latch(1);
        p.m.fire(bare("x"));
        Mc.quiesce();
        p.m.fire(bare("n"));
        p.m.fire(e);
        Mc.eq(1, Mc.count("exception", "u"), "refused");
        Mc.eq(pl, Mc.trace().get(Mc.index("exception", "u")).args[1], "payload in the report");
        p.gate.countDown();
        Mc.quiesce();
      }
    }));
    out.add(Scenario.seq("events that callbacks keep stay as they were", () -> {
      List<StateEvent<Object>> kept = new ArrayList<>();
      List<String> was = new ArrayList<>();
      String at = new String[]{"begin", "entry", "exit", "end"}[Mc.choose(4)];
      Hook h = (w, s, e, sm) -> {
        if (w.equals(at) && !nm(e).startsWith("_")) {
          kept.add(e);
          was.add(nm(e) + "=" + e.getPayload());
        }
      };
      Ring r = Mc.flip() ? dropRing(config(""), h) : ring(config(""), h);
      r.m.start();
      StateEvent<Object> one = bare("x");
      boolean same = Mc.flip();
      boolean wait = Mc.flip();
      for (int i = 0; i < 6; i++) {
        StateEvent<Object> e = same ? one : bare("x");
        e.setPayload(i % 3 == Mc.choose(3) ? null : "p" + i);
        r.m.fire(e);
        if (wait) {
          Mc.quiesce();
        }
      }
      Mc.quiesce();
      for (int i = 0; i < kept.size(); i++) {
        Mc.eq(was.get(i), nm(kept.get(i)) + "=" + kept.get(i).getPayload(), "event " + i);
      }
    }));
    out.add(Scenario.seq("long runs with pooled bookkeeping", () -> {
      int batch = new int[]{1, 3, 50, 200, 700}[Mc.choose(5)];
      Pm p = new Pm(false, new Config<>(), false);
      p.m.start();
      List<String> es = new ArrayList<>();
      List<Object> ps = new ArrayList<>();
      for (int i = 0; i < (thorough ? 4000 : 1500); i++) {
        String n = new String[]{"x", "n", "u", "f"}[i % 4];
        StateEvent<Object> e = bare(n);
        Object pl = i % 3 == 0 ? null : "p" + i;
        e.setPayload(pl);
        p.m.fire(e);
        es.add(n);
        ps.add(pl);
        if (i % batch == batch - 1) {
          Mc.quiesce();
        }
      }
      Mc.quiesce();
      want(es, ps);
    }));
    out.forEach(Scenario::named);
  }
}
