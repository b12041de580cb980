package vf;

import com.webotech.statemachine.GenericStateMachine;
import com.webotech.statemachine.MultiConsumerStateMachineListener;
import com.webotech.statemachine.NamedState;
import com.webotech.statemachine.NamedStateEvent;
import com.webotech.statemachine.UnexpectedFlowListener;
import com.webotech.statemachine.api.State;
import com.webotech.statemachine.api.StateAction;
import com.webotech.statemachine.api.StateEvent;
import com.webotech.statemachine.api.StateMachine;
import com.webotech.statemachine.api.StateMachineListener;
import com.webotech.statemachine.strategy.EventProcessingStrategyFactory;
import com.webotech.statemachine.strategy.EventProcessingStrategyFactory.Config;
import java.util.List;
import java.util.concurrent.ConcurrentLinkedDeque;
import mc.Mc;
import mc.Rec;

/** Shared driver parts: machines whose every observable effect is recorded. */
public final class Kit {

  private Kit() {
  }

  public static final String END = "_END_";
  public static final String NOOP = "_NOOP_";
  public static final String UNINIT = "_UNINITIALISED_";
  public static final String IMMEDIATE = "_immediate_";
  /** two long names with the same beginning */
  public static final String LONG1 = "n".repeat(300) + "1";
  public static final String LONG2 = "n".repeat(300) + "2";

  /*
   * Dressed variants of a scenario: what happens may not depend on any of this.
   * 1: long names, events with a payload, a context, a bound that is never reached, and threads that
   *    are interrupted all the time
   * 2: empty, blank and odd names, a queue of the user, a fan-out listener and unmapped handlers
   *    that throw
   * 3: states and events of the user's own classes, all with the same hash
   */
  private static final String LONG = "l".repeat(70);
  private static final List<String> RESERVED = List.of(END, NOOP, UNINIT, IMMEDIATE);

  private static String dress(String n, List<String> odd) {
    int d = n == null || RESERVED.contains(n) ? 0 : Mc.dress();
    return d == 1 ? LONG + n : d == 2 ? odd.contains(n) ? ODD.get(odd.indexOf(n)) : "\u00e9" + n
        : n;
  }

  private static String undress(String n, List<String> odd) {
    int d = n == null || RESERVED.contains(n) ? 0 : Mc.dress();
    return d == 1 && n.startsWith(LONG) ? n.substring(LONG.length())
        : d == 2 ? ODD.contains(n) ? odd.get(ODD.indexOf(n))
            : n.startsWith("\u00e9") ? n.substring(1) : n : n;
  }

  private static final List<String> ODD = List.of("", " ", "{}%s\n");
  private static final List<String> ODD_EVENTS = List.of("x", "n", "u");
  private static final List<String> ODD_STATES = List.of("A", "B", "C");

  /** the name that an event of the driver really has, in the variant being explored */
  public static String en(String n) {
    return new String(dress(n, ODD_EVENTS)); // equal, never identical
  }

  /** the name that a state of the driver really has, in the variant being explored */
  public static String sn(String n) {
    return new String(dress(n, ODD_STATES));
  }

  public static State<Object, Object> st(String n) {
    return own(n) ? new Own(sn(n)) : new NamedState<>(sn(n));
  }

  private static boolean own(String n) {
    return Mc.dress() == 3 && n != null && !RESERVED.contains(n);
  }

  /** a state of the user's own class, with a hash that tells nothing */
  static final class Own implements State<Object, Object> {

    private final String name;
    private final List<StateAction<Object, Object>> entry = new java.util.ArrayList<>();
    private final List<StateAction<Object, Object>> exit = new java.util.ArrayList<>();

    Own(String name) {
      this.name = name;
    }

    @Override
    public void onEntry(StateEvent<Object> e, StateMachine<Object, Object> m) {
      for (StateAction<Object, Object> a : entry) {
        a.execute(e, m);
      }
    }

    @Override
    public void onExit(StateEvent<Object> e, StateMachine<Object, Object> m) {
      for (StateAction<Object, Object> a : exit) {
        a.execute(e, m);
      }
    }

    @SafeVarargs
    @Override
    public final void appendEntryActions(StateAction<Object, Object>... actions) {
      for (StateAction<Object, Object> a : actions) {
        if (a != null) {
          entry.add(a);
        }
      }
    }

    @SafeVarargs
    @Override
    public final void appendExitActions(StateAction<Object, Object>... actions) {
      for (StateAction<Object, Object> a : actions) {
        if (a != null) {
          exit.add(a);
        }
      }
    }

    @Override
    public String getName() {
      return name;
    }

    @Override
    public boolean equals(Object o) {
      return o instanceof Own && ((Own) o).name.equals(name);
    }

    @Override
    public int hashCode() {
      return 7;
    }

    @Override
    public String toString() {
      return "Own(" + name + ")";
    }
  }

  /** an event of the user's own class, which carries no payload */
  static final class OwnEvent implements StateEvent<Object> {

    private final String name;

    OwnEvent(String name) {
      this.name = name;
    }

    @Override
    public String getName() {
      return name;
    }

    @Override
    public Object getPayload() {
      return null;
    }

    @Override
    public void setPayload(Object payload) {
      if (payload != null) {
        throw new UnsupportedOperationException("this scenario is .named()");
      }
    }

    @Override
    public boolean equals(Object o) {
      return o instanceof OwnEvent && ((OwnEvent) o).name.equals(name);
    }

    @Override
    public int hashCode() {
      return 7;
    }

    @Override
    public String toString() {
      return "OwnEvent(" + name + ")";
    }
  }

  /** an event without a payload */
  public static StateEvent<Object> bare(String n) {
    return own(n) ? new OwnEvent(en(n)) : new NamedStateEvent<>(en(n));
  }

  /** sets a payload, where events carry some */
  public static void load(StateEvent<Object> e, Object payload) {
    if (!(e instanceof OwnEvent)) {
      e.setPayload(payload);
    }
  }

  public static StateEvent<Object> ev(String n) {
    StateEvent<Object> e = bare(n);
    if (Mc.dress() == 1) {
      e.setPayload("payload of " + n);
    }
    return e;
  }

  public static String nm(State<Object, Object> s) {
    return s == null ? "null" : undress(s.getName(), ODD_STATES);
  }

  public static String nm(StateEvent<Object> e) {
    return e == null ? "null" : undress(e.getName(), ODD_EVENTS);
  }

  /** what an action / listener of the driver does after recording itself */
  public interface Hook {

    void at(String what, String state, StateEvent<Object> ev, StateMachine<Object, Object> sm);
  }

  /** A state whose entry and exit actions record themselves. */
  @SuppressWarnings("unchecked")
  public static State<Object, Object> state(String tag, String name, Hook hook) {
    State<Object, Object> s = st(name);
    s.appendEntryActions((e, sm) -> {
      Mc.rec("entry" + tag, name, nm(e));
      if (Mc.dress() == 1) {
        Mc.interruptMe();
      }
      if (hook != null) {
        hook.at("entry", name, e, sm);
      }
    });
    s.appendExitActions((e, sm) -> {
      Mc.rec("exit" + tag, name, nm(e));
      if (hook != null) {
        hook.at("exit", name, e, sm);
      }
    });
    return s;
  }

  public static State<Object, Object> state(String name) {
    return state("", name, null);
  }

  public static StateMachineListener<Object, Object> listener(String tag, Hook hook) {
    return new StateMachineListener<>() {
      @Override
      public void onStateChangeBegin(State<Object, Object> f, StateEvent<Object> e,
          State<Object, Object> t) {
        Mc.rec("begin" + tag, nm(f), nm(e), nm(t));
        if (Mc.dress() == 1) {
          Mc.interruptMe();
        }
        if (hook != null) {
          hook.at("begin", nm(f), e, null);
        }
      }

      @Override
      public void onStateChangeEnd(State<Object, Object> f, StateEvent<Object> e,
          State<Object, Object> t) {
        Mc.rec("end" + tag, nm(f), nm(e), nm(t));
        if (hook != null) {
          hook.at("end", nm(f), e, null);
        }
      }

      @Override
      public int hashCode() {
        return tag.hashCode();
      }

      @Override
      public boolean equals(Object o) {
        return this == o;
      }
    };
  }

  public static UnexpectedFlowListener<Object, Object> flow(String tag) {
    return new UnexpectedFlowListener<>() {
      @Override
      public void onExceptionDuringEventProcessing(StateEvent<Object> e,
          StateMachine<Object, Object> sm, Thread thread, Exception x) {
        if (!(x instanceof Silent)) {
          Mc.rec("exception" + tag, nm(e), x, thread, sm);
        }
      }

      @Override
      public void onEventAfterMachineEnd(StateEvent<Object> e, StateMachine<Object, Object> sm) {
        Mc.rec("afterEnd" + tag, nm(e), sm);
      }

      @Override
      public void onEventBeforeMachineStart(StateEvent<Object> e,
          StateMachine<Object, Object> sm) {
        Mc.rec("beforeStart" + tag, nm(e), sm);
      }
    };
  }

  /** thrown by unmapped handlers in one variant, and not recorded */
  private static final class Silent extends RuntimeException {

    Silent() {
      super("driver", null, false, false);
    }
  }

  /** what every unmapped handler of the driver does at its end */
  public static void leave() {
    if (Mc.dress() == 2) {
      throw new Silent();
    }
  }

  /** The same for more than one machine. */
  public static Config<Object, Object> sharedConfig(String tag) {
    return new Config<Object, Object>().withUnexpectedFlowListener(flow(tag))
        .withUnmappedEventHandler((e, sm) -> {
          Mc.rec("unmapped" + tag, nm(e), nm(sm.getCurrentState()));
          leave();
        });
  }

  /** A configuration whose unmapped handler and unexpected-flow listener record themselves. */
  public static Config<Object, Object> config(String tag) {
    Config<Object, Object> c = sharedConfig(tag);
    if (Mc.dress() == 1) {
      c.withMaxQueueSize(Integer.MAX_VALUE);
    } else if (Mc.dress() == 2) {
      c.withEventQueue(new ConcurrentLinkedDeque<>());
    }
    return c;
  }

  public static GenericStateMachine<Object, Object> machine(Config<Object, Object> c,
      StateMachineListener<Object, Object> l) {
    return dressed(new GenericStateMachine.Builder<Object, Object>().setEventProcessingStrategy(
        EventProcessingStrategyFactory.createDefaultStrategy(c)).setStateMachineListener(fan(l)));
  }

  private static StateMachineListener<Object, Object> fan(StateMachineListener<Object, Object> l) {
    return l != null && Mc.dress() == 2 ? new MultiConsumerStateMachineListener<>(l) : l;
  }

  private static GenericStateMachine<Object, Object> dressed(
      GenericStateMachine.Builder<Object, Object> b) {
    if (Mc.dress() == 1) {
      b.setContext("context");
      Mc.interruptMe();
      Mc.interruptSpawned();
    }
    return b.build();
  }

  public static GenericStateMachine<Object, Object> dropMachine(Config<Object, Object> c,
      StateMachineListener<Object, Object> l) {
    return dressed(new GenericStateMachine.Builder<Object, Object>().setEventProcessingStrategy(
        EventProcessingStrategyFactory.createDropDuplicateStrategy(c)).setStateMachineListener(fan(l)));
  }

  /** keys of the records whose kind starts with one of the prefixes, in order */
  public static List<String> only(String... kinds) {
    List<String> l = new java.util.ArrayList<>();
    for (Rec r : Mc.trace()) {
      for (String k : kinds) {
        if (r.what.startsWith(k)) {
          l.add(r.key());
          break;
        }
      }
    }
    return l;
  }

  /** How often the event was handled to the end in any way the API describes. */
  public static int handled(String ev) {
    int n = 0;
    for (Rec r : Mc.trace()) {
      if (r.what.startsWith("end") && r.args[1].equals(ev)
          || r.what.startsWith("unmapped") && r.args[0].equals(ev)
          || r.what.startsWith("exception") && r.args[0].equals(ev)
          || r.what.startsWith("beforeStart") && r.args[0].equals(ev)
          || r.what.startsWith("afterEnd") && r.args[0].equals(ev)) {
        n++;
      }
    }
    return n;
  }

  /** x: A -> B -> A, n: no transition in A and B, e: ends from A and B; u is never mapped. */
  public static final class Ring {

    public final GenericStateMachine<Object, Object> m;
    public final State<Object, Object> a;
    public final State<Object, Object> b;

    public Ring(String tag, GenericStateMachine<Object, Object> m, Hook hook) {
      this.m = m;
      a = state(tag, "A", hook);
      b = state(tag, "B", hook);
      m.initialSate(a).receives(ev("x")).itTransitionsTo(b);
      m.when(a).receives(ev("n")).itDoesNotTransition();
      m.when(a).receives(ev("e")).itEnds();
      m.when(b).receives(ev("x")).itTransitionsTo(a);
      m.when(b).receives(ev("n")).itDoesNotTransition();
      m.when(b).receives(ev("e")).itEnds();
    }
  }

  public static Ring ring() {
    return ring(config(""), null);
  }

  public static Ring ring(Config<Object, Object> c, Hook hook) {
    return new Ring("", machine(c, listener("", hook)), hook);
  }

  public static Ring dropRing(Config<Object, Object> c, Hook hook) {
    return new Ring("", dropMachine(c, listener("", hook)), hook);
  }

  /** Which events were handled, in order: the event name of every closing observation. */
  public static List<String> order() {
    List<String> l = new java.util.ArrayList<>();
    for (Rec r : Mc.trace()) {
      if (r.what.startsWith("end") && !r.args[1].equals(IMMEDIATE)) {
        l.add((String) r.args[1]);
      } else if (r.what.startsWith("unmapped") || r.what.startsWith("exception")) {
        l.add((String) r.args[0]);
      }
    }
    return l;
  }

  /**
   * Checks that everything one machine did, as recorded, is a sequence of complete transitions: no
   * callback of one event between the begin and the end notification of another.
   */
  public static void checkAtomic(String tag, boolean started) {
    String from = null;
    String event = null;
    String to = null;
    String state = started ? UNINIT : null;
    int phase = 0; // 0 idle, 1 begun, 2 exited/entering
    for (Rec r : Mc.trace()) {
      if (r.what.equals("begin" + tag)) {
        Mc.check(phase == 0, "transition " + r + " begins inside " + from + "+" + event + "=" + to);
        from = (String) r.args[0];
        event = (String) r.args[1];
        to = (String) r.args[2];
        Mc.check(state == null || state.equals(from),
            "transition " + r + " leaves a state the machine is not in: " + state);
        phase = 1;
      } else if (r.what.equals("exit" + tag)) {
        Mc.check(phase == 1 && r.args[0].equals(from) && r.args[1].equals(event),
            r + " outside its transition (in " + from + "+" + event + "=" + to + ")");
      } else if (r.what.equals("entry" + tag)) {
        Mc.check(phase >= 1 && r.args[0].equals(to) && r.args[1].equals(event),
            r + " outside its transition (in " + from + "+" + event + "=" + to + ")");
        phase = 2;
      } else if (r.what.equals("end" + tag)) {
        Mc.check(phase >= 1 && r.args[0].equals(from) && r.args[1].equals(event) && r.args[2].equals(
            to), r + " closes a transition that is not open");
        phase = 0;
        state = to.equals(NOOP) ? from : to;
      } else if (r.what.equals("unmapped" + tag)) {
        Mc.check(phase == 0, r + " inside " + from + "+" + event + "=" + to);
        Mc.check(state == null || state.equals(r.args[1]), r + " while in " + state);
      }
    }
    Mc.check(phase == 0, "transition " + from + "+" + event + "=" + to + " never ends");
  }

  @SuppressWarnings("unchecked")
  public static <X extends Throwable> void sneak(Throwable t) throws X {
    throw (X) t;
  }
}
