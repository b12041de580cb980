package vf;

import static vf.Kit.*;

import com.webotech.statemachine.GenericStateMachine;
import com.webotech.statemachine.NamedState;
import com.webotech.statemachine.api.StateMachine;
import com.webotech.statemachine.api.State;
import java.util.HashMap;
import java.util.List;
import java.util.Map;
import mc.Mc;
import mc.Scenario;

/** The machine does what was configured. */
public final class C04 {

  private static final String[] TARGETS = {null, "A", "B", "C", END, NOOP};

  private static void step(KRef ref, GenericStateMachine<Object, Object> m, String e, boolean wait) {
    m.fire(ev(e));
    ref.fire(e);
    if (wait) {
      Mc.quiesce();
      Mc.eq(ref.log, Mc.keys(), "effects");
      ref.checkState(m);
    }
  }

  private static KRef small(int cKind, int ax, int ay, int bx, int by) {
    KRef ref = new KRef();
    ref.actions = 2;
    ref.init = "A";
    ref.map.put("A", new java.util.LinkedHashMap<>());
    ref.map.put("B", new java.util.LinkedHashMap<>());
    int[] t = {ax, ay, bx, by};
    for (int i = 0; i < 4; i++) {
      if (TARGETS[t[i]] != null) {
        ref.on(i < 2 ? "A" : "B", i % 2 == 0 ? "x" : "y", TARGETS[t[i]]);
      }
    }
    if (ax == 0 && ay == 0) {
      ref.on("A", "z", "B"); // the DSL wants something said about the initial state
    }
    if (bx == 0 && by == 0) {
      ref.on("B", "z", "A");
    }
    if (cKind == 1) {
      ref.map.put("C", new java.util.LinkedHashMap<>());
      ref.endsAt.add("C");
    } else if (cKind == 2) {
      ref.on("C", "x", "A");
    }
    return ref;
  }

  private static Map<String, State<Object, Object>> states(String... names) {
    Map<String, State<Object, Object>> st = new HashMap<>();
    for (String s : names) {
      st.put(s, KRef.twoActions(s));
    }
    return st;
  }

  public static void scenarios(boolean thorough, List<Scenario> out) {
    int len = thorough ? 6 : 4;
    for (int ck = 0; ck < 3; ck++) {
      for (int a = 0; a < 6; a++) {
        int cKind = ck;
        int ax = a;
        out.add(Scenario.seq("every configuration of three states and two events, A+x="
            + TARGETS[a] + ", C " + new String[]{"not configured", "ends", "returns"}[ck], () -> {
          KRef ref = small(cKind, ax, Mc.choose(6), Mc.choose(6), Mc.choose(6));
          var m = machine(config(""), listener("", null));
          ref.build(m, states("A", "B", "C"));
          m.start();
          ref.start();
          Mc.eq(ref.log, Mc.keys(), "effects of start");
          ref.checkState(m);
          String[] al = {"x", "y", "z"};
          for (int i = 0; i < len && !(ref.ended && i > 1); i++) {
            step(ref, m, al[Mc.choose(3)], true);
          }
        }).weight(4));
      }
    }
    // the same, all events fired without waiting, and with the other strategy
    int qlen = thorough ? 5 : 4;
    for (int a = 0; a < 6; a++) {
      int ax = a;
      out.add(Scenario.seq("events fired without waiting, A+x=" + TARGETS[a], () -> {
        int by = thorough ? Mc.choose(6) : 1;
        KRef ref = small(2, ax, Mc.choose(6), Mc.choose(6), by);
        boolean drop = Mc.flip();
        var m = drop ? dropMachine(config(""), listener("", null))
            : machine(config(""), listener("", null));
        ref.build(m, states("A", "B", "C"));
        m.start();
        ref.start();
        String[] al = {"x", "y", "z"};
        int k = 0;
        for (int i = 0; i < qlen; i++) {
          String e = al[Mc.choose(3)];
          m.fire(ev(e));
          if (drop) {
            Mc.quiesce();
          }
          boolean dead = ref.ended;
          if (!dead || drop) {
            ref.fire(e);
          }
          k++;
        }
        Mc.quiesce();
        Mc.eq(ref.log, Mc.keys(), "effects of " + k + " events");
        ref.checkState(m);
      }).weight(3));
    }
    out.add(Scenario.seq("started in any state", () -> {
      KRef ref = small(2, Mc.choose(6), 3, Mc.choose(6), Mc.choose(6));
      var m = machine(config(""), listener("", null));
      var st = states("A", "B", "C");
      ref.build(m, st);
      String s = new String[]{"A", "B", "C"}[Mc.choose(3)];
      // an equal state, not the configured instance: a persisted state is restored by name
      m.startInState(Mc.flip() ? st.get(s) : st(s));
      ref.startInState(s);
      Mc.eq(ref.log, Mc.keys(), "effects of startInState");
      ref.checkState(m);
      String first = new String[]{"x", "y"}[Mc.choose(2)];
      m.fire(ev(first));
      Mc.quiesce();
      String t = ref.map.get(s).get(first);
      ref.fire(first);
      Mc.eq(nm(m.getCurrentState()), ref.state, "state after " + first + " in " + s);
      Mc.eq(t == null ? 1 : 0, Mc.count("unmapped"), "unmapped");
      Mc.eq(t == null ? 0 : 1, Mc.count("end", s, first, t), "notifications");
    }).weight(3));
    out.add(Scenario.seq("an initial state that ends", () -> {
      KRef ref = new KRef();
      ref.actions = 2;
      ref.init = "A";
      ref.map.put("A", new java.util.LinkedHashMap<>());
      ref.endsAt.add("A");
      boolean more = Mc.flip();
      if (more) {
        ref.on("B", "x", "A");
      }
      boolean drop = Mc.flip();
      var m = drop ? dropMachine(config(""), listener("", null))
          : machine(config(""), listener("", null));
      var st = states("A", "B");
      ref.build(m, st);
      if (more && Mc.flip()) {
        m.startInState(st.get("B"));
        ref.startInState("B");
      } else {
        m.start();
        ref.start();
      }
      Mc.eq(ref.log, Mc.keys(), "effects of start");
      ref.checkState(m);
      for (int i = 0; i < 3; i++) {
        step(ref, m, Mc.flip() ? "x" : "u", true);
      }
    }));
    // the order in which the parts are declared does not matter, states may be revisited
    out.add(Scenario.seq("every declaration order of four mappings", () -> {
      String[][] maps = {{"A", "x", "B"}, {"A", "y", END}, {"B", "x", "A"}, {"B", "y", NOOP}};
      var st = states("A", "B");
      var m = machine(config(""), listener("", null));
      KRef ref = new KRef();
      ref.actions = 2;
      ref.init = "A";
      List<String[]> left = new java.util.ArrayList<>(List.of(maps));
      boolean first = true;
      // initialSate marks A, so the first mapping is one of A's
      StateMachine<Object, Object> sm = m.initialSate(st.get("A"));
      while (!left.isEmpty()) {
        int i = first ? Mc.choose(2) : Mc.choose(left.size());
        String[] x = left.remove(i);
        if (!first) {
          sm = sm.when(Mc.flip() ? st.get(x[0]) : st(x[0]));
        }
        first = false;
        sm = sm.receives(ev(x[1]));
        sm = x[2].equals(END) ? sm.itEnds() : x[2].equals(NOOP) ? sm.itDoesNotTransition()
            : sm.itTransitionsTo(st.get(x[2]));
        ref.on(x[0], x[1], x[2]);
      }
      m.start();
      ref.start();
      for (String e : new String[]{"x", "y", "y", "x", "x", "x", "y", "x"}) {
        step(ref, m, e, true);
      }
    }).weight(3));
    // names
    String[] odd = {"", " ", "a", "A", "a ", "Aa", "BB", "_END", "START", "null", "\u00e9", "e\u0301",
        "noop", "_immediate", "[a]", "{}", "%s", LONG1, LONG2};
    out.add(Scenario.seq("any two different names are different states", () -> {
      String p = odd[Mc.choose(odd.length)];
      String q = odd[Mc.choose(odd.length)];
      if (p.equals(q)) {
        return;
      }
      KRef ref = new KRef();
      ref.actions = 2;
      ref.init = p;
      ref.on(p, "x", q);
      ref.on(p, "y", NOOP);
      ref.on(q, "y", p);
      var m = machine(config(""), listener("", null));
      ref.build(m, states(p, q));
      m.start();
      ref.start();
      for (String e : new String[]{"y", "x", "x", "y", "x"}) {
        step(ref, m, e, true);
      }
    }));
    out.add(Scenario.seq("any two different names are different events", () -> {
      String p = odd[Mc.choose(odd.length)];
      String q = odd[Mc.choose(odd.length)];
      if (p.equals(q)) {
        return;
      }
      KRef ref = new KRef();
      ref.actions = 2;
      ref.init = "A";
      ref.on("A", p, "B");
      ref.on("B", q, "A");
      boolean both = Mc.flip();
      if (both) {
        ref.on("A", q, NOOP);
      }
      boolean drop = Mc.flip();
      var m = drop ? dropMachine(config(""), listener("", null))
          : machine(config(""), listener("", null));
      ref.build(m, states("A", "B"));
      m.start();
      ref.start();
      boolean wait = Mc.flip();
      for (String e : wait ? new String[]{q, p, p, q, p} : new String[]{q, p}) {
        step(ref, m, e, wait);
      }
      Mc.quiesce();
      Mc.eq(ref.log, Mc.keys(), "effects");
    }));
    String[] seps = {"", " ", ":", "+", "-", "_", "/", ".", ",", "|", "#", "->", "=", "@", "\0", ";"};
    out.add(Scenario.seq("names that run into each other", () -> {
      String sep = seps[Mc.choose(seps.length)];
      String q = "a" + sep + "b";
      String e = "b" + sep + "c";
      // in state "a" event "b_c", in state "a_b" event "c"
      KRef ref = new KRef();
      ref.actions = 2;
      ref.init = "a";
      ref.on("a", e, q);
      if (Mc.flip()) {
        ref.on(q, "c", "a");
      } else if (Mc.flip()) {
        ref.on(q, "c", NOOP);
      } else {
        ref.on(q, "d", "a");
      }
      if (Mc.flip()) {
        ref.on("a", "c", NOOP);
      }
      var m = machine(config(""), listener("", null));
      ref.build(m, states("a", q));
      m.start();
      ref.start();
      for (String x : new String[]{"c", e, e, "c", e, "d", "c", e, "c"}) {
        step(ref, m, x, true);
      }
    }));
    out.add(Scenario.seq("names that nearly match, among many mappings", () -> {
      int n = new int[]{1, 3, 9, 33}[Mc.choose(4)];
      KRef ref = new KRef();
      ref.actions = 2;
      ref.init = "A";
      for (int i = 0; i < n; i++) {
        ref.on("A", "ev" + i, i % 2 == 0 ? NOOP : "B");
        ref.on("B", "ev" + i, i % 3 == 0 ? NOOP : "A");
      }
      var m = machine(config(""), listener("", null));
      ref.build(m, states("A", "B"));
      m.start();
      ref.start();
      String i = "ev" + Mc.choose(Math.min(n, 3));
      String[] near = {i.toUpperCase(), " " + i, i + " ", i + "0", i.substring(1), "E" + i.substring(1),
          i.substring(0, 2), "x" + i, i + "\n", "", "ev-1", "ev" + n};
      for (String x : new String[]{near[Mc.choose(near.length)], i, near[Mc.choose(near.length)]}) {
        step(ref, m, x, true);
      }
    }));
    // long runs: nothing changes with the number of events
    out.add(Scenario.seq("long runs of every pattern of three events", () -> {
      KRef ref = new KRef();
      ref.actions = 2;
      ref.init = "A";
      ref.on("A", "x", "B");
      ref.on("A", "y", NOOP);
      ref.on("B", "x", "A");
      ref.on("B", "y", "B");
      boolean drop = Mc.flip();
      var m = drop ? dropMachine(config(""), listener("", null))
          : machine(config(""), listener("", null));
      ref.build(m, states("A", "B"));
      m.start();
      ref.start();
      String[] al = {"x", "y", "z"};
      String[] pat = {al[Mc.choose(3)], al[Mc.choose(3)], al[Mc.choose(3)]};
      boolean wait = drop || Mc.flip();
      for (int i = 0; i < (thorough ? 6000 : 1500); i++) {
        m.fire(ev(pat[i % 3]));
        ref.fire(pat[i % 3]);
        if (wait) {
          Mc.quiesce();
        }
      }
      Mc.quiesce();
      Mc.eq(ref.log, Mc.keys(), "effects");
      ref.checkState(m);
    }).weight(3));
    // many states and many events
    out.add(Scenario.seq("chains of many states and events", () -> {
      int n = new int[]{2, 5, 17, 40, 130}[Mc.choose(5)];
      KRef ref = new KRef();
      ref.init = "s0";
      ref.actions = 2;
      Map<String, State<Object, Object>> st = new HashMap<>();
      for (int i = 0; i < n; i++) {
        st.put("s" + i, KRef.twoActions("s" + i));
        ref.on("s" + i, "go", "s" + (i + 1) % n);
        ref.on("s" + i, "jump" + i, "s" + (i + n / 2) % n);
        ref.on("s" + i, "stay", NOOP);
        ref.on("s" + i, "again", "s" + i);
      }
      ref.on("s" + (n - 1), "quit", END);
      var m = machine(config(""), listener("", null));
      ref.build(m, st);
      m.start();
      ref.start();
      for (int i = 0; i < n + 2; i++) {
        step(ref, m, "stay", true);
        step(ref, m, "again", true);
        step(ref, m, "jump" + i, true);
        step(ref, m, "quit", true);
        step(ref, m, "go", true);
      }
    }));
    out.add(Scenario.seq("context and machine are handed to every callback", () -> {
      Object ctx = new Object();
      @SuppressWarnings("unchecked")
      GenericStateMachine<Object, Object>[] mm = new GenericStateMachine[1];
      Hook h = (w, s, e, sm) -> {
        if (sm != null) {
          Mc.check(sm == mm[0], "the callback was handed another machine");
          Mc.check(sm.getContext() == ctx, "the context is not the configured one");
        }
      };
      var c = config("").withUnmappedEventHandler((e, sm) -> h.at("unmapped", "", e, sm));
      mm[0] = new GenericStateMachine.Builder<Object, Object>().setContext(ctx)
          .setEventProcessingStrategy(Mc.flip()
              ? com.webotech.statemachine.strategy.EventProcessingStrategyFactory
              .createDropDuplicateStrategy(c)
              : com.webotech.statemachine.strategy.EventProcessingStrategyFactory
                  .createDefaultStrategy(c)).build();
      Mc.check(mm[0].getContext() == ctx, "context before start");
      Ring r = new Ring("", mm[0], h);
      r.m.start();
      for (String e : new String[]{"x", "u", "n", "x", "e"}) {
        r.m.fire(ev(e));
        Mc.quiesce();
      }
      Mc.check(mm[0].getContext() == ctx, "context after the end");
      Mc.eq(3, Mc.count("entry") , "entries");
      Mc.eq(3, Mc.count("exit"), "exits");
    }));
    // scheduling does not matter for what one event does
    out.add(Scenario.of("one firer, configured effects under every schedule", () -> {
      KRef ref = small(2, 2, 4, 3, 5);
      var m = machine(config(""), listener("", null));
      ref.build(m, states("A", "B", "C"));
      m.start();
      ref.start();
      String[] evs = {"x", "x"};
      for (String e : evs) {
        m.fire(ev(e));
        ref.fire(e);
      }
      Mc.quiesce();
      Mc.eq(ref.log, Mc.keys(), "effects");
      ref.checkState(m);
    }).weight(3));
  }
}
