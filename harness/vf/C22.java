package vf;

import static vf.Kit.*;

import com.webotech.statemachine.NamedState;
import com.webotech.statemachine.NamedStateEvent;
import com.webotech.statemachine.api.State;
import com.webotech.statemachine.api.StateAction;
import com.webotech.statemachine.api.StateEvent;
import com.webotech.statemachine.service.LifecycleStateMachineUtil;
import java.util.ArrayList;
import java.util.HashMap;
import java.util.List;
import java.util.Map;
import mc.Mc;
import mc.Scenario;

/** Named states and events: equal by name, actions in the order they were appended. */
public final class C22 {

  private static final String[] NAMES = {"A", "B", "a", "", " A", "AaAa", "BBBB", "AaBB", null,
      "A\u0000", "\u00e4", "a\u0308", LONG1, LONG2};

  @SuppressWarnings("unchecked")
  public static void scenarios(boolean thorough, List<Scenario> out) {
    out.add(Scenario.seq("equality of states", () -> {
      String x = NAMES[Mc.choose(NAMES.length)];
      String y = NAMES[Mc.choose(NAMES.length)];
      NamedState<Object, Object> a = new NamedState<>(x);
      NamedState<Object, Object> b = new NamedState<>(y == null ? null : new String(y));
      if (Mc.flip()) {
        a.appendEntryActions((e, s) -> {
        });
      }
      if (Mc.flip()) {
        b.appendExitActions((e, s) -> {
        });
      }
      boolean same = java.util.Objects.equals(x, y);
      Mc.eq(same, a.equals(b), "equals");
      Mc.eq(same, b.equals(a), "equals the other way round");
      Mc.check(!same || a.hashCode() == b.hashCode(), "hash codes of equal states");
      Mc.check(a.equals(a) && !a.equals(null) && !a.equals(x) && !a.equals(
          new NamedStateEvent<Object>(x)), "equals");
      Map<Object, Integer> m = new HashMap<>();
      m.put(a, 1);
      Mc.eq(same ? 1 : null, m.get(b), "lookup");
      Mc.eq(x, a.getName(), "name");
      Mc.check(x == null || x.isEmpty() || a.toString().contains(x), "text " + a);
    }));
    out.add(Scenario.seq("equality of events", () -> {
      String x = NAMES[Mc.choose(NAMES.length)];
      String y = NAMES[Mc.choose(NAMES.length)];
      Object[] pay = {null, "p", 7};
      Object p = pay[Mc.choose(3)];
      Object q = pay[Mc.choose(3)];
      NamedStateEvent<Object> a = new NamedStateEvent<>(x);
      NamedStateEvent<Object> b = new NamedStateEvent<>(y == null ? null : new String(y));
      Mc.eq(null, a.getPayload(), "payload of a new event");
      a.setPayload(p);
      b.setPayload(q);
      boolean same = java.util.Objects.equals(x, y);
      Mc.eq(same, a.equals(b), "equals");
      Mc.eq(same, b.equals(a), "equals the other way round");
      Mc.check(!same || a.hashCode() == b.hashCode(), "hash codes of equal events");
      Mc.check(a.equals(a) && !a.equals(null) && !a.equals(x) && !a.equals(
          new NamedState<Object, Object>(x)), "equals");
      Map<Object, Integer> m = new HashMap<>();
      m.put(a, 1);
      a.setPayload("changed");
      Mc.eq(same ? 1 : null, m.get(b), "lookup");
      NamedStateEvent<Object> c = new NamedStateEvent<>(b);
      Mc.check(c != b && c.equals(b) && c.getPayload() == q, "copy");
      c.setPayload("own");
      Mc.check(b.getPayload() == q, "a copy has a payload of its own");
      b.setPayload("later");
      Mc.eq("own", c.getPayload(), "a copy has a payload of its own");
      Mc.eq(x, a.getName(), "name");
      Mc.check(x == null || x.isEmpty() || a.toString().contains(x), "text " + a);
    }));
    int len = thorough ? 6 : 4;
    out.add(Scenario.seq("every sequence of " + len + " appended actions", () -> {
      List<String> ran = new ArrayList<>();
      List<String> in = new ArrayList<>();
      List<String> ex = new ArrayList<>();
      NamedState<Object, Object> s = new NamedState<>("A");
      StateAction<Object, Object>[] reused = new StateAction[1];
      reused[0] = (e, m) -> ran.add("same");
      StateEvent<Object> ev = ev("x");
      var sm = ring().m;
      for (int i = 0; i < len; i++) {
        boolean entry = Mc.flip();
        List<String> want = entry ? in : ex;
        String n = "" + i;
        StateAction<Object, Object> a = (e, m) -> {
          Mc.check(e == ev && m == sm, "an action gets other arguments");
          ran.add(n);
        };
        StateAction<Object, Object> b = (e, m) -> ran.add(n + "b");
        StateAction<Object, Object>[] arr;
        switch (Mc.choose(6)) {
          case 0 -> {
            arr = new StateAction[]{a};
            want.add(n);
          }
          case 1 -> {
            arr = new StateAction[]{a, b};
            want.add(n);
            want.add(n + "b");
          }
          case 2 -> {
            arr = new StateAction[]{null, a, null, b};
            want.add(n);
            want.add(n + "b");
          }
          case 3 -> arr = new StateAction[]{null};
          case 4 -> arr = new StateAction[0];
          default -> {
            arr = new StateAction[]{reused[0]};
            want.add("same");
          }
        }
        if (entry) {
          s.appendEntryActions(arr);
        } else {
          s.appendExitActions(arr);
        }
        java.util.Arrays.fill(arr, null);
      }
      for (int round = 0; round < 2; round++) {
        ran.clear();
        s.onEntry(ev, sm);
        Mc.eq(in, ran, "entry actions");
        ran.clear();
        s.onExit(ev, sm);
        Mc.eq(ex, ran, "exit actions");
      }
    }));
    out.add(Scenario.seq("actions appended between entries and exits", () -> {
      List<String> ran = new ArrayList<>();
      List<String> in = new ArrayList<>();
      List<String> ex = new ArrayList<>();
      NamedState<Object, Object> s = new NamedState<>("A");
      StateEvent<Object> ev = ev("x");
      var sm = ring().m;
      for (int i = 0; i < 6; i++) {
        String n = "" + i;
        switch (Mc.choose(4)) {
          case 0 -> {
            s.appendEntryActions((e, m) -> ran.add(n));
            in.add(n);
          }
          case 1 -> {
            s.appendExitActions((e, m) -> ran.add(n));
            ex.add(n);
          }
          case 2 -> {
            ran.clear();
            s.onEntry(ev, sm);
            Mc.eq(in, ran, "entry actions");
          }
          default -> {
            ran.clear();
            s.onExit(ev, sm);
            Mc.eq(ex, ran, "exit actions");
          }
        }
      }
      ran.clear();
      s.onEntry(ev, sm);
      Mc.eq(in, ran, "entry actions");
      ran.clear();
      s.onExit(ev, sm);
      Mc.eq(ex, ran, "exit actions");
    }));
    out.add(Scenario.seq("very many actions", () -> {
      int n = new int[]{30, 100, 300}[Mc.choose(3)];
      boolean oneCall = Mc.flip();
      boolean same = Mc.flip();
      List<String> ran = new ArrayList<>();
      List<String> want = new ArrayList<>();
      StateAction<Object, Object> one = (e, m) -> ran.add("one");
      StateAction<Object, Object>[] arr = new StateAction[n];
      for (int i = 0; i < n; i++) {
        String k = "" + i;
        arr[i] = same ? one : (e, m) -> ran.add(k);
        want.add(same ? "one" : k);
      }
      NamedState<Object, Object> s = new NamedState<>("A");
      if (oneCall) {
        s.appendEntryActions(arr);
        s.appendExitActions(arr);
      } else {
        for (StateAction<Object, Object> a : arr) {
          s.appendEntryActions(a);
          s.appendExitActions(a);
        }
      }
      var m = machine(config(""), listener("", null));
      m.initialSate(s).receives(ev("x")).itTransitionsTo(s);
      m.start();
      Mc.eq(want, ran, "entry actions");
      ran.clear();
      m.fire(ev("x"));
      Mc.quiesce();
      want.addAll(List.copyOf(want));
      Mc.eq(want, ran, "exit and entry actions");
    }));
    // a machine finds states and events by name, whichever instance it is given
    out.add(Scenario.seq("instances with the same name are the same to a machine", () -> {
      var m = machine(config(""), listener("", null));
      boolean[] fresh = new boolean[4];
      for (int i = 0; i < 4; i++) {
        fresh[i] = Mc.flip();
      }
      State<Object, Object> a = state("A");
      State<Object, Object> b = state("B");
      StateEvent<Object> x = ev("x");
      m.initialSate(a).receives(x).itTransitionsTo(b);
      m.when(fresh[0] ? st("B") : b).receives(fresh[1] ? ev("x") : x)
          .itTransitionsTo(fresh[2] ? state("A") : a);
      m.start();
      for (int i = 0; i < 4; i++) {
        StateEvent<Object> e = fresh[3] ? ev("x") : x;
        load(e, "p" + i);
        m.fire(e);
        Mc.quiesce();
        Mc.eq(i % 2 == 0 ? "B" : "A", nm(m.getCurrentState()), "state");
        Mc.eq(1 + i, Mc.count("entry") - 1, "entry actions");
        Mc.eq(1 + i, Mc.count("exit"), "exit actions");
      }
    }));
    out.add(Scenario.seq("states of the life cycle utility", () -> {
      int k = Mc.choose(5);
      List<String> ran = new ArrayList<>();
      StateAction<Object, Void> p = (e, m) -> ran.add("p");
      StateAction<Object, Void> q = (e, m) -> ran.add("q");
      StateAction<Object, Void>[] acts = switch (Mc.choose(4)) {
        case 0 -> new StateAction[0];
        case 1 -> new StateAction[]{p};
        case 2 -> new StateAction[]{p, null, q};
        default -> new StateAction[]{q, p, q};
      };
      var s = switch (k) {
        case 0 -> LifecycleStateMachineUtil.newUnitialisedState(acts);
        case 1 -> LifecycleStateMachineUtil.newStartingState(acts);
        case 2 -> LifecycleStateMachineUtil.newStartedState(acts);
        case 3 -> LifecycleStateMachineUtil.newStoppingState(acts);
        default -> LifecycleStateMachineUtil.newStoppedState(acts);
      };
      Mc.eq(List.of("UNINITIALISED", "STARTING", "STARTED", "STOPPING", "STOPPED").get(k),
          s.getName(), "name");
      s.onExit(LifecycleStateMachineUtil.evtStop, null);
      Mc.eq(List.of(), ran, "exit actions");
      s.onEntry(LifecycleStateMachineUtil.evtStart, null);
      List<String> want = new ArrayList<>();
      for (StateAction<Object, Void> a : acts) {
        if (a != null) {
          want.add(a == p ? "p" : "q");
        }
      }
      Mc.eq(want, ran, "entry actions");
    }));
    out.add(Scenario.seq("states made apart have nothing in common", () -> {
      List<String> ran = new ArrayList<>();
      int k = Mc.choose(6);
      List<State<Object, Object>> l = new ArrayList<>();
      for (int i = 0; i < 2; i++) {
        String n = "" + i;
        if (k == 5) {
          NamedState<Object, Object> s = new NamedState<>("S");
          s.appendEntryActions((e, m) -> ran.add(n));
          l.add(s);
          continue;
        }
        StateAction<Object, Void> p = (e, m) -> ran.add(n);
        State<Object, Void> s = switch (k) {
          case 0 -> LifecycleStateMachineUtil.newUnitialisedState(p);
          case 1 -> LifecycleStateMachineUtil.newStartingState(p);
          case 2 -> LifecycleStateMachineUtil.newStartedState(p);
          case 3 -> LifecycleStateMachineUtil.newStoppingState(p);
          default -> LifecycleStateMachineUtil.newStoppedState(p);
        };
        l.add((State<Object, Object>) (State<?, ?>) s);
      }
      boolean later = Mc.flip();
      if (later) {
        l.get(1).appendEntryActions((e, m) -> ran.add("1+"));
        l.get(1).appendExitActions((e, m) -> ran.add("1-"));
      }
      l.get(0).onEntry(ev("x"), null);
      Mc.eq(List.of("0"), ran, "entry actions of the first");
      l.get(0).onExit(ev("x"), null);
      Mc.eq(List.of("0"), ran, "exit actions of the first");
      ran.clear();
      l.get(1).onEntry(ev("x"), null);
      l.get(1).onExit(ev("x"), null);
      Mc.eq(later ? List.of("1", "1+", "1-") : List.of("1"), ran, "actions of the second");
      Mc.check(l.get(0).equals(l.get(1)), "equal by name");
    }));
    // a machine configured by the utility follows the documented table
    out.add(Scenario.seq("every event in every state of the life cycle", () -> {
      String[][] t = {{"UNINITIALISED", "start", "STARTING"}, {"STARTING", "complete", "STARTED"},
          {"STARTING", "error", "STOPPED"}, {"STARTED", "stop", "STOPPING"},
          {"STARTED", "error", "STOPPED"}, {"STOPPING", "complete", "STOPPED"},
          {"STOPPING", "error", "STOPPED"}, {"STOPPED", "start", "STARTING"},
          {"STOPPED", "stop", END}};
      var m = new com.webotech.statemachine.GenericStateMachine.Builder<Object, Void>().build();
      LifecycleStateMachineUtil.configureAppStateMachine(m,
          LifecycleStateMachineUtil.newUnitialisedState(),
          LifecycleStateMachineUtil.newStartingState(), LifecycleStateMachineUtil.newStartedState(),
          LifecycleStateMachineUtil.newStoppingState(),
          LifecycleStateMachineUtil.newStoppedState());
      m.start();
      String at = "UNINITIALISED";
      List<StateEvent<Void>> es = List.of(LifecycleStateMachineUtil.evtStart,
          LifecycleStateMachineUtil.evtComplete, LifecycleStateMachineUtil.evtStop,
          LifecycleStateMachineUtil.evtError);
      for (int i = 0; i < (thorough ? 8 : 6); i++) {
        StateEvent<Void> e = es.get(Mc.choose(4));
        m.fire(e);
        Mc.quiesce();
        for (String[] r : t) {
          if (r[0].equals(at) && r[1].equals(e.getName())) {
            at = r[2];
            break;
          }
        }
        Mc.eq(at, m.getCurrentState().getName(), "state after " + e.getName());
        Mc.eq(at.equals(END), m.isEnded(), "ended");
      }
    }));
  }
}
