package vf;

import static vf.Kit.*;

import com.webotech.statemachine.GenericStateMachine;
import com.webotech.statemachine.NamedState;
import com.webotech.statemachine.NamedStateEvent;
import com.webotech.statemachine.api.State;
import com.webotech.statemachine.api.StateAction;
import com.webotech.statemachine.api.StateEvent;
import com.webotech.statemachine.api.StateMachine;
import java.util.ArrayList;
import java.util.LinkedHashMap;
import java.util.List;
import java.util.Map;
import mc.Mc;
import mc.Scenario;

/** Invalid configurations are refused where they are made. */
public final class C08 {

  /** What the configuration language allows, written from its documentation. */
  static final class Ref {

    String init;
    String marked;
    String event;
    final Map<String, Map<String, String>> map = new LinkedHashMap<>();
    final java.util.Set<String> endsAt = new java.util.HashSet<>();
    /** a construct whose meaning is not documented was accepted: no further claims */
    boolean unspecified;

    /** 1: must be accepted, 0: must be refused, 2: either */
    int allowed(String call, String arg) {
      switch (call) {
        case "initialSate":
          return !arg.startsWith("_") && init == null ? 1 : 0;
        case "when":
          return !arg.startsWith("_") && init != null && marked == null ? 1 : 0;
        case "receives":
          if (arg.startsWith("_") || init == null || marked == null) {
            return 0;
          }
          if (event != null && !event.equals(arg) && map.get(marked).get(event) == null) {
            return 1; // an event left without an outcome: refused by start() at the latest
          }
          return map.get(marked).get(arg) != null ? 2 : 1;
        case "to":
          return !arg.startsWith("_") && init != null && marked != null && event != null
              && map.get(marked).get(event) == null ? 1 : 0;
        case "noTransition":
          return init != null && marked != null && event != null
              && map.get(marked).get(event) == null ? 1 : 0;
        default: // ends
          if (init == null || marked == null) {
            return 0;
          }
          return event == null ? map.get(marked).isEmpty() && !endsAt.contains(marked) ? 1 : 0
              : map.get(marked).get(event) == null ? 1 : 0;
      }
    }

    void accept(String call, String arg) {
      switch (call) {
        case "initialSate" -> {
          init = arg;
          marked = arg;
          map.put(arg, new LinkedHashMap<>());
        }
        case "when" -> {
          marked = arg;
          map.putIfAbsent(arg, new LinkedHashMap<>());
        }
        case "receives" -> {
          event = arg;
          map.get(marked).putIfAbsent(arg, null);
          if (endsAt.contains(marked)) {
            unspecified = true;
          }
        }
        default -> {
          if (event == null) {
            endsAt.add(marked);
          } else {
            map.get(marked)
                .put(event, call.equals("to") ? arg : call.equals("ends") ? END : NOOP);
          }
          marked = null;
          event = null;
        }
      }
    }

    boolean complete() {
      return init != null && map.values().stream().noneMatch(m -> m.containsValue(null));
    }
  }

  static boolean call(StateMachine<Object, Object> m, String call, String arg) {
    try {
      StateMachine<Object, Object> r = switch (call) {
        case "initialSate" -> m.initialSate(KRefStates.get(arg));
        case "when" -> m.when(KRefStates.get(arg));
        case "receives" -> m.receives(KRefStates.event(arg));
        case "to" -> m.itTransitionsTo(KRefStates.get(arg));
        case "noTransition" -> m.itDoesNotTransition();
        default -> m.itEnds();
      };
      Mc.check(r != null, call + " returned null");
      return true;
    } catch (IllegalStateException e) {
      return false;
    }
  }

  /** fresh, equal instances every time */
  static final class KRefStates {

    static State<Object, Object> get(String n) {
      // of every shape: the name counts, not the class or the identity of anything
      return n.startsWith("_") && Mc.flip() ? new Own(new String(n))
          : st(n);
    }

    static StateEvent<Object> event(String n) {
      return n.startsWith("_") && Mc.flip() ? new OwnEvent(new String(n))
          : bare(n);
    }
  }

  /** a State of somebody else */
  static final class Own implements State<Object, Object> {

    private final String name;

    Own(String name) {
      this.name = name;
    }

    @Override
    public void onEntry(StateEvent<Object> e, StateMachine<Object, Object> m) {
    }

    @Override
    public void onExit(StateEvent<Object> e, StateMachine<Object, Object> m) {
    }

    @SafeVarargs
    @Override
    public final void appendEntryActions(StateAction<Object, Object>... actions) {
    }

    @SafeVarargs
    @Override
    public final void appendExitActions(StateAction<Object, Object>... actions) {
    }

    @Override
    public String getName() {
      return name;
    }
  }

  /** a StateEvent of somebody else */
  static final class OwnEvent implements StateEvent<Object> {

    private final String name;
    private Object payload;

    OwnEvent(String name) {
      this.name = name;
    }

    @Override
    public String getName() {
      return name;
    }

    @Override
    public Object getPayload() {
      return payload;
    }

    @Override
    public void setPayload(Object payload) {
      this.payload = payload;
    }
  }

  private static final String[][] CALLS = {{"initialSate", "A"}, {"when", "A"}, {"when", "B"},
      {"receives", "x"}, {"receives", "y"}, {"to", "B"}, {"to", "A"}, {"ends", ""},
      {"noTransition", ""}};
  private static final String[][] RESERVED = {{"initialSate", END}, {"initialSate", NOOP},
      {"initialSate", UNINIT}, {"when", END}, {"when", NOOP}, {"when", UNINIT}, {"to", END},
      {"to", NOOP}, {"to", UNINIT}, {"receives", IMMEDIATE}};

  private static boolean step(GenericStateMachine<Object, Object> m, Ref ref, String[] c,
      List<String> hist) {
    int want = ref.allowed(c[0], c[1]);
    boolean ok = call(m, c[0], c[1]);
    hist.add(c[0] + "(" + c[1] + ")" + (ok ? "" : "!"));
    if (want != 2) {
      Mc.eq(want == 1, ok, "accepted: last call of " + hist);
    }
    if (ok) {
      ref.accept(c[0], c[1]);
    }
    return ok;
  }

  private static void probe(GenericStateMachine<Object, Object> m, Ref ref, List<String> hist) {
    boolean ok;
    try {
      m.start();
      ok = true;
    } catch (IllegalStateException e) {
      ok = false;
    }
    Mc.eq(ref.complete(), ok, "start() succeeds after " + hist);
    if (!ok) {
      Mc.check(!m.isStarted() && m.getCurrentState() == null, "refused, yet started");
      return;
    }
    KRef k = new KRef();
    k.init = ref.init;
    k.map.putAll(ref.map);
    k.endsAt.addAll(ref.endsAt);
    k.start();
    String[] evs = {"x", "y", "x"};
    for (String e : evs) {
      m.fire(ev(e));
      Mc.quiesce();
      k.fire(e);
    }
    List<String> want = new ArrayList<>(k.log);
    want.removeIf(s -> s.startsWith("entry") || s.startsWith("exit"));
    Mc.eq(want, Mc.keys(), "effects of x, y, x after " + hist);
  }

  public static void scenarios(boolean thorough, List<Scenario> out) {
    int depth = thorough ? 7 : 6;
    for (int i = 0; i < CALLS.length; i++) {
      String[] second = CALLS[i];
      out.add(Scenario.seq("every call sequence of length " + depth + " from initialSate(A), "
          + second[0] + "(" + second[1] + ")", () -> {
        var m = machine(config(""), listener("", null));
        Ref ref = new Ref();
        List<String> hist = new ArrayList<>();
        step(m, ref, CALLS[0], hist);
        int refused = 0;
        if (!step(m, ref, second, hist)) {
          refused++;
        }
        for (int d = 2; d < depth && !ref.unspecified; d++) {
          String[] c = CALLS[Mc.choose(CALLS.length)];
          if (!step(m, ref, c, hist) && ++refused > 2) {
            return; // three refusals in one history: covered by shorter ones
          }
        }
        if (!ref.unspecified) {
          probe(m, ref, hist);
        }
      }).weight(9));
    }
    out.add(Scenario.seq("every call sequence of length 4 on an empty machine", () -> {
      var m = machine(config(""), listener("", null));
      Ref ref = new Ref();
      List<String> hist = new ArrayList<>();
      for (int d = 0; d < 4 && !ref.unspecified; d++) {
        step(m, ref, CALLS[Mc.choose(CALLS.length)], hist);
      }
      if (!ref.unspecified) {
        probe(m, ref, hist);
      }
    }).weight(5));
    out.add(Scenario.seq("reserved names are refused at every position", () -> {
      var m = machine(config(""), listener("", null));
      Ref ref = new Ref();
      List<String> hist = new ArrayList<>();
      String[][] script = {{"initialSate", "A"}, {"receives", "x"}, {"to", "B"}, {"when", "B"},
          {"receives", "y"}, {"noTransition", ""}, {"when", "B"}, {"receives", "x"}, {"ends", ""},
          {"when", "C"}, {"ends", ""}};
      int at = Mc.choose(script.length + 1);
      for (int i = 0; i <= script.length; i++) {
        if (i == at) {
          int times = 1 + Mc.choose(2);
          for (int t = 0; t < times; t++) {
            String[] c = RESERVED[Mc.choose(RESERVED.length)];
            Mc.check(!step(m, ref, c, hist), "reserved name accepted: " + hist);
          }
        }
        if (i < script.length) {
          Mc.check(step(m, ref, script[i], hist), "valid call refused: " + hist);
        }
      }
      probe(m, ref, hist);
    }));
    out.add(Scenario.seq("names that resemble reserved ones are ordinary names", () -> {
      String[] st = {"_end_", "_END", "END", "_END_ ", " _END_", "_END_1", "x_END_", "_noop_",
          "NOOP", "_UNINITIALISED", "_uninitialised_", "", " ", "_", "end"};
      String[] es = {"_IMMEDIATE_", "immediate", "_immediate", "_immediate_2", "a_immediate_",
          "_immediate_ ", "", " ", "_"};
      int i = Mc.choose(st.length);
      int j = Mc.choose(st.length);
      String e = es[Mc.choose(es.length)];
      var m = machine(config(""), listener("", null));
      String other = i == j ? "B" : st[j];
      m.initialSate(st(st[i])).receives(ev(e)).itTransitionsTo(st(other));
      m.when(st(other)).receives(ev(e)).itDoesNotTransition();
      m.when(st(other)).receives(ev("z")).itEnds();
      m.start();
      Mc.eq(st[i], nm(m.getCurrentState()), "initial state");
      m.fire(ev(e));
      Mc.quiesce();
      Mc.eq(other, nm(m.getCurrentState()), "state after " + e);
      m.fire(ev(e));
      Mc.quiesce();
      Mc.eq(other, nm(m.getCurrentState()), "state after a second " + e);
      Mc.check(!m.isEnded(), "ended");
      m.fire(ev("z"));
      Mc.quiesce();
      Mc.check(m.isEnded(), "not ended");
    }).weight(3));
    out.add(Scenario.seq("large configurations", () -> {
      int n = new int[]{10, 60, 200}[Mc.choose(3)];
      int per = 1 + Mc.choose(3);
      var m = machine(config(""), listener("", null));
      Ref ref = new Ref();
      List<String> hist = new ArrayList<>();
      for (int i = 0; i < n; i++) {
        for (int k = 0; k < per; k++) {
          if (i + k > 0) {
            Mc.check(step(m, ref, new String[]{"when", "s" + i}, hist), "refused: " + i);
          } else {
            step(m, ref, new String[]{"initialSate", "s0"}, hist);
          }
          step(m, ref, new String[]{"receives", k == 0 ? "x" : "e" + k}, hist);
          Mc.check(step(m, ref, k == 1 ? new String[]{"noTransition", ""}
              : new String[]{"to", "s" + (i + 1 + k) % n}, hist), "refused: " + i);
        }
      }
      int again = n - 1 - Mc.choose(3);
      step(m, ref, new String[]{"when", "s" + again}, hist);
      boolean at = step(m, ref, new String[]{"receives", per == 1 ? "x" : "e1"}, hist);
      Mc.check(!step(m, ref, new String[]{"ends", ""}, hist), "mapped twice");
      Mc.check(!step(m, ref, new String[]{"initialSate", "s1"}, hist), "second initial state");
      if (at) {
        step(m, ref, new String[]{"receives", "fresh"}, hist);
        step(m, ref, new String[]{"noTransition", ""}, hist);
      }
      m.start();
      String s = "s0";
      for (int i = 0; i < n + 1; i++) {
        Mc.eq(s, nm(m.getCurrentState()), "state");
        m.fire(ev("x"));
        Mc.quiesce();
        s = "s" + (i + 1) % n;
      }
      Mc.eq(s, nm(m.getCurrentState()), "state");
    }));
    out.add(Scenario.seq("a second mapping for the same event is refused, the first one stays", () -> {
      // one mapping of every kind, then a second of every kind, by an equal event and state
      String[][] outcomes = {{"to", "B"}, {"to", "A"}, {"ends", ""}, {"noTransition", ""}};
      String[] st = {"A", "B"};
      String s = st[Mc.choose(2)];
      var m = machine(config(""), listener("", null));
      Ref ref = new Ref();
      List<String> hist = new ArrayList<>();
      step(m, ref, new String[]{"initialSate", "A"}, hist);
      step(m, ref, new String[]{"receives", "x"}, hist);
      step(m, ref, s.equals("A") ? outcomes[Mc.choose(4)] : outcomes[0], hist);
      step(m, ref, new String[]{"when", "B"}, hist);
      step(m, ref, new String[]{"receives", s.equals("B") ? "x" : "y"}, hist);
      step(m, ref, outcomes[Mc.choose(4)], hist);
      step(m, ref, new String[]{"when", s}, hist);
      boolean at = step(m, ref, new String[]{"receives", "x"}, hist);
      if (at) {
        Mc.check(!step(m, ref, outcomes[Mc.choose(4)], hist), "mapped twice: " + hist);
      } else {
        Mc.check(!step(m, ref, outcomes[Mc.choose(4)], hist), "mapped without an event: " + hist);
      }
      if (Mc.flip()) {
        step(m, ref, new String[]{"receives", "z"}, hist);
        step(m, ref, new String[]{"noTransition", ""}, hist);
      }
      if (!ref.unspecified) {
        probe(m, ref, hist);
      }
    }));
  }
}
