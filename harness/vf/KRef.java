package vf;

import static vf.Kit.*;

import com.webotech.statemachine.GenericStateMachine;
import com.webotech.statemachine.NamedState;
import com.webotech.statemachine.api.StateMachine;
import com.webotech.statemachine.api.State;
import java.util.ArrayList;
import java.util.LinkedHashMap;
import java.util.List;
import java.util.Map;
import mc.Mc;

/** Reference interpreter: what a configured machine does, written from its documentation. */
public final class KRef {

  public static final String GSM = "GenericStateMachine";

  /** state -> event -> target ({@link Kit#END}, {@link Kit#NOOP} or a state) */
  public final Map<String, Map<String, String>> map = new LinkedHashMap<>();
  /** states declared to end the machine as soon as they are reached */
  public final java.util.Set<String> endsAt = new java.util.HashSet<>();
  public String init;
  public String state;
  public boolean started;
  public boolean ended;
  public int actions = 1;
  public final List<String> log = new ArrayList<>();

  public void on(String s, String e, String target) {
    map.computeIfAbsent(s, k -> new LinkedHashMap<>()).put(e, target);
  }

  private void actions(String kind, String s, String e) {
    if (!s.equals(END)) {
      for (int i = 0; i < actions; i++) {
        log.add(kind + (actions == 1 ? "" : i) + "[" + s + ", " + e + "]");
      }
    }
  }

  public boolean terminal(String s) {
    return !map.containsKey(s) || endsAt.contains(s);
  }

  public void start() {
    started = true;
    state = init;
    log.add("begin[" + UNINIT + ", " + IMMEDIATE + ", " + init + "]");
    actions("entry", init, IMMEDIATE);
    log.add("end[" + UNINIT + ", " + IMMEDIATE + ", " + init + "]");
    if (endsAt.contains(init)) {
      end();
    }
  }

  public void startInState(String s) {
    started = true;
    state = s;
  }

  public void end() {
    state = END;
    ended = true;
  }

  public void fire(String e) {
    if (!started) {
      log.add("beforeStart[" + e + ", " + GSM + "]");
      return;
    }
    if (ended) {
      log.add("afterEnd[" + e + ", " + GSM + "]");
      return;
    }
    String t = map.getOrDefault(state, Map.of()).get(e);
    if (t == null) {
      log.add("unmapped[" + e + ", " + state + "]");
      return;
    }
    String from = state;
    log.add("begin[" + from + ", " + e + ", " + t + "]");
    if (!t.equals(NOOP)) {
      actions("exit", from, e);
      state = t;
      ended = t.equals(END);
      actions("entry", t, e);
    }
    log.add("end[" + from + ", " + e + ", " + t + "]");
    if (!t.equals(NOOP) && !ended && terminal(t)) {
      end();
    }
  }

  /** builds the machine this object describes; states get two recording actions per kind if asked */
  public void build(GenericStateMachine<Object, Object> m, Map<String, State<Object, Object>> st) {
    StateMachine<Object, Object> sm = m.initialSate(st.get(init));
    boolean first = true;
    for (Map.Entry<String, Map<String, String>> s : map.entrySet()) {
      if (s.getKey().equals(init) && s.getValue().isEmpty() && !endsAt.contains(init)) {
        throw new IllegalStateException("driver: give the initial state a mapping");
      }
    }
    List<String> order = new ArrayList<>(map.keySet());
    order.remove(init);
    order.add(0, init);
    for (String s : order) {
      for (Map.Entry<String, String> e : map.get(s).entrySet()) {
        if (!first) {
          sm = sm.when(st.get(s));
        }
        first = false;
        sm = sm.receives(ev(e.getKey()));
        String t = e.getValue();
        sm = t.equals(END) ? sm.itEnds() : t.equals(NOOP) ? sm.itDoesNotTransition()
            : sm.itTransitionsTo(st.get(t));
      }
      if (endsAt.contains(s)) {
        if (!first) {
          sm = sm.when(st.get(s));
        }
        first = false;
        sm = sm.itEnds();
      }
    }
  }

  @SuppressWarnings("unchecked")
  public static State<Object, Object> twoActions(String name) {
    State<Object, Object> s = st(name);
    s.appendEntryActions((e, sm) -> Mc.rec("entry0", name, nm(e)));
    s.appendExitActions((e, sm) -> Mc.rec("exit0", name, nm(e)),
        (e, sm) -> Mc.rec("exit1", name, nm(e)));
    s.appendEntryActions((e, sm) -> Mc.rec("entry1", name, nm(e)));
    return s;
  }

  public void checkState(GenericStateMachine<Object, Object> m) {
    Mc.eq(state == null ? "null" : state, nm(m.getCurrentState()), "current state");
    Mc.eq(started, m.isStarted(), "started");
    Mc.eq(ended, m.isEnded(), "ended");
  }
}
