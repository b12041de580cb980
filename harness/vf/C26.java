package vf;

import static vf.Kit.*;

import com.webotech.statemachine.GenericStateMachine;
import com.webotech.statemachine.NamedState;
import com.webotech.statemachine.UnexpectedFlowListener;
import com.webotech.statemachine.api.State;
import com.webotech.statemachine.api.StateAction;
import com.webotech.statemachine.api.StateEvent;
import com.webotech.statemachine.api.StateMachine;
import com.webotech.statemachine.strategy.EventMachinePair;
import com.webotech.statemachine.strategy.EventProcessingStrategy;
import com.webotech.statemachine.strategy.EventProcessingStrategyFactory;
import com.webotech.statemachine.strategy.EventProcessingStrategyFactory.Config;
import java.util.AbstractQueue;
import java.util.ArrayDeque;
import java.util.ArrayList;
import java.util.HashMap;
import java.util.Iterator;
import java.util.List;
import java.util.Map;
import java.util.Queue;
import java.util.concurrent.AbstractExecutorService;
import java.util.concurrent.ArrayBlockingQueue;
import java.util.concurrent.ConcurrentLinkedDeque;
import java.util.concurrent.ConcurrentLinkedQueue;
import java.util.concurrent.ExecutorService;
import java.util.concurrent.LinkedBlockingDeque;
import java.util.concurrent.LinkedBlockingQueue;
import java.util.concurrent.TimeUnit;
import mc.Mc;
import mc.Scenario;

/** The machine works with the user's own implementations of its interfaces. */
public final class C26 {

  /** events of an enumeration, as applications like to have them */
  enum Ev implements StateEvent<Object> {
    x, n, e, u;

    @Override
    public String getName() {
      return name();
    }

    @Override
    public Object getPayload() {
      return null;
    }

    @Override
    public void setPayload(Object payload) {
      throw new UnsupportedOperationException();
    }
  }

  /** states of an enumeration */
  enum St implements State<Object, Object> {
    A, B;

    @Override
    public void onEntry(StateEvent<Object> ev, StateMachine<Object, Object> sm) {
      Mc.rec("entry", name(), nm(ev));
      Mc.check(sm != null, "no machine");
    }

    @Override
    public void onExit(StateEvent<Object> ev, StateMachine<Object, Object> sm) {
      Mc.rec("exit", name(), nm(ev));
      Mc.check(sm != null, "no machine");
    }

    @Override
    @SuppressWarnings("unchecked")
    public void appendEntryActions(StateAction<Object, Object>... actions) {
      throw new UnsupportedOperationException();
    }

    @Override
    @SuppressWarnings("unchecked")
    public void appendExitActions(StateAction<Object, Object>... actions) {
      throw new UnsupportedOperationException();
    }

    @Override
    public String getName() {
      return name();
    }
  }

  /** a class with its own kind of equality: by name without case, or by identity */
  static class OwnEv implements StateEvent<Object> {

    final String name;

    OwnEv(String name) {
      this.name = name;
    }

    @Override
    public String getName() {
      return name;
    }

    @Override
    public Object getPayload() {
      return null;
    }

    @Override
    public void setPayload(Object payload) {
      throw new UnsupportedOperationException();
    }

    @Override
    public String toString() {
      return "OwnEv(" + name + ")";
    }
  }

  static final class ByName extends OwnEv {

    ByName(String name) {
      super(name);
    }

    @Override
    public boolean equals(Object o) {
      return o instanceof ByName && ((ByName) o).name.equals(name);
    }

    @Override
    public int hashCode() {
      return 7;
    }
  }

  static class OwnSt implements State<Object, Object> {

    final String name;

    OwnSt(String name) {
      this.name = name;
    }

    @Override
    public void onEntry(StateEvent<Object> ev, StateMachine<Object, Object> sm) {
      Mc.rec("entry", name, nm(ev));
    }

    @Override
    public void onExit(StateEvent<Object> ev, StateMachine<Object, Object> sm) {
      Mc.rec("exit", name, nm(ev));
    }

    @Override
    @SuppressWarnings("unchecked")
    public void appendEntryActions(StateAction<Object, Object>... actions) {
      throw new UnsupportedOperationException();
    }

    @Override
    @SuppressWarnings("unchecked")
    public void appendExitActions(StateAction<Object, Object>... actions) {
      throw new UnsupportedOperationException();
    }

    @Override
    public String getName() {
      return name;
    }
  }

  static final class StByName extends OwnSt {

    StByName(String name) {
      super(name);
    }

    @Override
    public boolean equals(Object o) {
      return o instanceof StByName && ((StByName) o).name.equals(name);
    }

    @Override
    public int hashCode() {
      return name.length();
    }
  }

  /** makes events and states of one kind */
  static final class Make {

    final int evKind;
    final int stKind;
    final Map<String, OwnEv> same = new HashMap<>();

    Make(int evKind, int stKind) {
      this.evKind = evKind;
      this.stKind = stKind;
    }

    StateEvent<Object> ev(String n) {
      return switch (evKind) {
        case 0 -> Ev.valueOf(n);
        case 1 -> new ByName(n);
        case 2 -> same.computeIfAbsent(n, OwnEv::new);
        default -> Kit.ev(n);
      };
    }

    State<Object, Object> st(String n) {
      return switch (stKind) {
        case 0 -> St.valueOf(n);
        case 1 -> new StByName(n);
        case 2 -> new OwnSt(n);
        default -> state(n);
      };
    }
  }

  private static int at(Object[] l, Object o) {
    for (int i = 0; i < l.length; i++) {
      if (l[i] == o) {
        return i;
      }
    }
    return l.length;
  }

  /** the ring of Kit, made of the given kinds */
  private static void ring(GenericStateMachine<Object, Object> m, Make k) {
    State<Object, Object> a = k.st("A");
    State<Object, Object> b = k.st("B");
    m.initialSate(a).receives(k.ev("x")).itTransitionsTo(b);
    m.when(a).receives(k.ev("n")).itDoesNotTransition();
    m.when(a).receives(k.ev("e")).itEnds();
    m.when(b).receives(k.ev("x")).itTransitionsTo(a);
    m.when(b).receives(k.ev("n")).itDoesNotTransition();
    m.when(b).receives(k.ev("e")).itEnds();
  }

  private static KRef ref() {
    KRef r = new KRef();
    r.init = "A";
    r.on("A", "x", "B");
    r.on("A", "n", NOOP);
    r.on("A", "e", END);
    r.on("B", "x", "A");
    r.on("B", "n", NOOP);
    r.on("B", "e", END);
    return r;
  }

  /** records what it is given and hands on what it is told to */
  static final class OwnStrategy implements EventProcessingStrategy<Object, Object> {

    final EventProcessingStrategy<Object, Object> inner;
    final List<StateEvent<Object>> got = new ArrayList<>();
    final List<Thread> on = new ArrayList<>();
    final List<Object> at = new ArrayList<>();
    Map<State<Object, Object>, Map<StateEvent<Object>, State<Object, Object>>> states;
    int size = 42;
    String skip = "";

    OwnStrategy(EventProcessingStrategy<Object, Object> inner) {
      this.inner = inner;
    }

    @Override
    public int getEventQueueSize() {
      return inner == null ? size : inner.getEventQueueSize();
    }

    @Override
    public void processEvent(StateEvent<Object> e, GenericStateMachine<Object, Object> m) {
      Mc.check(states != null && states.size() >= 2, "the strategy was not given the states");
      synchronized (got) {
        got.add(e);
        on.add(Mc.thread());
        at.add(m);
      }
      if (inner != null && !nm(e).equals(skip)) {
        inner.processEvent(e, m);
      }
    }

    @Override
    public void setStates(
        Map<State<Object, Object>, Map<StateEvent<Object>, State<Object, Object>>> states) {
      this.states = states;
      if (inner != null) {
        inner.setStates(states);
      }
    }

    @Override
    public UnexpectedFlowListener<Object, Object> getUnexpectedFlowListener() {
      return inner == null ? flow("") : inner.getUnexpectedFlowListener();
    }
  }

  /** a queue of the user's own, safe for threads by its own monitor */
  static final class OwnQueue<E> extends AbstractQueue<E> {

    final ArrayDeque<E> q = new ArrayDeque<>();
    final Object lock = new Object();
    int max = Integer.MAX_VALUE;
    int offered;
    int polled;

    @Override
    public boolean offer(E e) {
      synchronized (lock) {
        if (q.size() >= max) {
          return false;
        }
        offered++;
        return q.offer(e);
      }
    }

    @Override
    public E poll() {
      synchronized (lock) {
        E e = q.poll();
        if (e != null) {
          polled++;
        }
        return e;
      }
    }

    @Override
    public E peek() {
      synchronized (lock) {
        return q.peek();
      }
    }

    @Override
    public Iterator<E> iterator() {
      synchronized (lock) {
        return new ArrayList<>(q).iterator();
      }
    }

    @Override
    public int size() {
      synchronized (lock) {
        return q.size();
      }
    }
  }

  /** an executor of the user's own: its tasks run when the driver says so */
  static final class Manual extends AbstractExecutorService {

    final ArrayDeque<Runnable> tasks = new ArrayDeque<>();
    int stopped;

    @Override
    public void execute(Runnable r) {
      synchronized (tasks) {
        tasks.add(r);
      }
    }

    boolean run() {
      Runnable r;
      synchronized (tasks) {
        r = tasks.poll();
      }
      if (r != null) {
        r.run();
      }
      return r != null;
    }

    @Override
    public void shutdown() {
      stopped++;
    }

    @Override
    public List<Runnable> shutdownNow() {
      stopped++;
      return List.of();
    }

    @Override
    public boolean isShutdown() {
      return false;
    }

    @Override
    public boolean isTerminated() {
      return false;
    }

    @Override
    public boolean awaitTermination(long timeout, TimeUnit unit) {
      return false;
    }
  }

  /** hands everything on to a pool, and counts */
  static final class Wrapped extends AbstractExecutorService {

    final ExecutorService pool;
    int stopped;

    Wrapped(ExecutorService pool) {
      this.pool = pool;
    }

    @Override
    public void execute(Runnable r) {
      pool.execute(r);
    }

    @Override
    public void shutdown() {
      stopped++;
    }

    @Override
    public List<Runnable> shutdownNow() {
      stopped++;
      return List.of();
    }

    @Override
    public boolean isShutdown() {
      return false;
    }

    @Override
    public boolean isTerminated() {
      return false;
    }

    @Override
    public boolean awaitTermination(long timeout, TimeUnit unit) {
      return false;
    }
  }

  private static Queue<EventMachinePair<Object, Object>> queue(int kind) {
    return switch (kind) {
      case 0 -> new ConcurrentLinkedQueue<>();
      case 1 -> new LinkedBlockingQueue<>();
      case 2 -> new ArrayBlockingQueue<>(20);
      case 3 -> new ConcurrentLinkedDeque<>();
      case 4 -> new LinkedBlockingDeque<>();
      default -> new OwnQueue<>();
    };
  }

  /** queues that have room for two */
  private static Queue<EventMachinePair<Object, Object>> smallQueue(int kind) {
    return switch (kind) {
      case 6 -> new LinkedBlockingQueue<>(2);
      case 7 -> new ArrayBlockingQueue<>(2);
      case 8 -> new LinkedBlockingDeque<>(2);
      default -> {
        OwnQueue<EventMachinePair<Object, Object>> q = new OwnQueue<>();
        q.max = 2;
        yield q;
      }
    };
  }

  public static void scenarios(boolean thorough, List<Scenario> out) {
    int len = thorough ? 6 : 4;
    String[] evKinds = {"an enumeration", "an own class equal by name", "identity", "the library"};
    for (int ek = 0; ek < 4; ek++) {
      int evKind = ek;
      out.add(Scenario.seq("events of " + evKinds[ek] + ", states of every kind, every sequence",
          () -> {
            Make k = new Make(evKind, Mc.choose(4));
            boolean drop = Mc.flip();
            var m = drop ? dropMachine(config(""), listener("", null))
                : machine(config(""), listener("", null));
            ring(m, k);
            KRef ref = ref();
            String early = Mc.flip() ? "x" : null;
            if (early != null) {
              m.fire(k.ev(early));
              ref.fire(early);
            }
            m.start();
            ref.start();
            boolean wait = drop || Mc.flip();
            for (int i = 0; i < len; i++) {
              String e = new String[]{"x", "n", "e", "u"}[Mc.choose(4)];
              if (!wait && e.equals("e") && i < len - 1) {
                e = "n"; // what is fired while a machine ends is not determined
              }
              m.fire(k.ev(e));
              ref.fire(e);
              if (wait) {
                Mc.quiesce();
                Mc.eq(ref.log, Mc.keys(), "effects");
                ref.checkState(m);
              }
            }
            Mc.quiesce();
            Mc.eq(ref.log, Mc.keys(), "effects");
            ref.checkState(m);
          }).weight(2));
      out.add(Scenario.of("two firers, events of " + evKinds[ek], () -> {
        Make k = new Make(evKind, evKind);
        boolean drop = Mc.flip();
        var m = drop ? dropMachine(config(""), listener("", null))
            : machine(config(""), listener("", null));
        ring(m, k);
        StateEvent<Object> x = k.ev("x");
        StateEvent<Object> n = k.ev("n");
        StateEvent<Object> u = k.ev("u");
        m.start();
        Mc.Th t = Mc.spawn("f", () -> {
          m.fire(x);
          m.fire(u);
        });
        m.fire(n);
        t.join();
        Mc.quiesce();
        for (String e : new String[]{"x", "n", "u"}) {
          Mc.eq(1, handled(e), "times " + e + " was handled");
        }
        Mc.eq("B", nm(m.getCurrentState()), "state");
        Mc.eq(0, Mc.count("exception"), "exceptions");
      }).weight(3));
    }
    out.add(Scenario.seq("started in a state of every kind", () -> {
      Make k = new Make(Mc.choose(4), Mc.choose(4));
      var m = machine(config(""), listener("", null));
      State<Object, Object> a = k.st("A");
      State<Object, Object> b = k.st("B");
      m.initialSate(a).receives(k.ev("x")).itTransitionsTo(b);
      m.when(b).receives(k.ev("x")).itTransitionsTo(a);
      m.startInState(k.stKind == 2 ? b : k.stKind == 3 ? Kit.st("B") : k.st("B"));
      Mc.eq(List.of(), Mc.keys(), "effects");
      Mc.check(m.getCurrentState().equals(b), "state");
      m.fire(k.ev("x"));
      Mc.quiesce();
      Mc.check(m.getCurrentState() == a, "state after x");
    }));
    out.add(Scenario.seq("different events and states with the same name, every sequence", () -> {
      OwnEv[] ev = {new OwnEv("x"), new OwnEv("x"), new OwnEv("x")};
      List<String> log = new ArrayList<>();
      OwnSt[] st = new OwnSt[3];
      for (int i = 0; i < 3; i++) {
        int me = i;
        st[i] = new OwnSt("A") {
          @Override
          public void onEntry(StateEvent<Object> e, StateMachine<Object, Object> sm) {
            log.add("entry" + me + at(ev, e));
          }

          @Override
          public void onExit(StateEvent<Object> e, StateMachine<Object, Object> sm) {
            log.add("exit" + me + at(ev, e));
          }
        };
      }
      boolean drop = Mc.flip();
      boolean wait = Mc.flip();
      Mc.Latch gate = Mc.latch(1);
      var c = new Config<Object, Object>().withUnexpectedFlowListener(flow(""))
          .withUnmappedEventHandler((e, sm) -> log.add("unmapped" + at(ev, e)));
      var l = new com.webotech.statemachine.api.StateMachineListener<Object, Object>() {
        @Override
        public void onStateChangeBegin(State<Object, Object> f, StateEvent<Object> e,
            State<Object, Object> t) {
          if (!wait) {
            gate.await();
          }
          log.add("begin" + at(st, f) + at(ev, e) + at(st, t));
        }

        @Override
        public void onStateChangeEnd(State<Object, Object> f, StateEvent<Object> e,
            State<Object, Object> t) {
          log.add("end" + at(st, f) + at(ev, e) + at(st, t));
        }
      };
      var m = drop ? dropMachine(c, l) : machine(c, l);
      int[][] to = {{1, 2, -1}, {2, -1, 0}, {0, 1, 2}};
      m.initialSate(st[0]).receives(ev[0]).itTransitionsTo(st[1]).when(st[0]).receives(ev[1])
          .itTransitionsTo(st[2]).when(st[1]).receives(ev[0]).itTransitionsTo(st[2]).when(st[1])
          .receives(ev[2]).itTransitionsTo(st[0]);
      for (int i = 0; i < 3; i++) {
        m.when(st[2]).receives(ev[i]).itTransitionsTo(st[i]);
      }
      int at = Mc.choose(3);
      m.startInState(st[at]);
      Mc.check(m.getCurrentState() == st[at], "started in another state");
      List<String> want = new ArrayList<>();
      boolean[] waiting = new boolean[3];
      for (int i = 0; i < 4; i++) {
        int e = Mc.choose(3);
        if (!wait && i == 0 && to[at][e] < 0) {
          e = 0; // the first one is to keep the machine busy
        }
        m.fire(ev[e]);
        if (wait || i == 0) {
          Mc.quiesce();
        } else if (drop) {
          if (waiting[e]) {
            continue;
          }
          waiting[e] = true;
        }
        int t = to[at][e];
        if (t < 0) {
          want.add("unmapped" + e);
        } else {
          want.add("begin" + at + e + t);
          want.add("exit" + at + e);
          want.add("entry" + t + e);
          want.add("end" + at + e + t);
          at = t;
        }
      }
      gate.countDown();
      Mc.quiesce();
      Mc.eq(want, log, "effects");
      Mc.check(m.getCurrentState() == st[at], "another state");
    }));
    out.add(Scenario.seq("started in a state that is only called like a configured one", () -> {
      Make k = new Make(3, Mc.choose(4));
      var m = machine(config(""), listener("", null));
      ring(m, k);
      State<Object, Object> other = k.stKind == 3 || Mc.flip() ? new OwnSt("B")
          : new NamedState<>("B");
      try {
        m.startInState(other);
        throw Mc.fail("started in a state that was never configured");
      } catch (IllegalStateException e) {
        // to be expected
      }
      Mc.check(!m.isStarted() && m.getCurrentState() == null, "started all the same");
      m.start();
      Mc.eq("A", nm(m.getCurrentState()), "state");
    }));
    for (int qq = 6; qq < 10; qq++) {
      int qk = qq;
      out.add(Scenario.of("two firers, " + new String[]{"LinkedBlockingQueue",
          "ArrayBlockingQueue", "LinkedBlockingDeque", "a queue of an own class"}[qq - 6]
          + " with room for two", () -> {
        boolean drop = Mc.flip();
        Mc.Latch gate = Mc.latch(1);
        Config<Object, Object> c = config("").withEventQueue(smallQueue(qk));
        Hook h = (w, s, e, sm) -> {
          if (w.equals("begin") && nm(e).equals("x")) {
            gate.await();
          }
        };
        Ring r = drop ? dropRing(c, h) : Kit.ring(c, h);
        r.m.start();
        r.m.fire(ev("x"));
        Mc.quiesce();
        Mc.Th t = Mc.spawn("f", () -> {
          r.m.fire(ev("u1"));
          r.m.fire(ev("u2"));
        });
        r.m.fire(ev("u3"));
        t.join();
        Mc.eq(1, Mc.count("exception"), "refused");
        Mc.eq(3, r.m.getEventQueueSize(), "queue size");
        gate.countDown();
        Mc.quiesce();
        for (String e : new String[]{"x", "u1", "u2", "u3"}) {
          Mc.eq(1, handled(e), "times " + e + " was handled or refused");
        }
        Mc.eq(0, r.m.getEventQueueSize(), "queue size");
      }).weight(3));
    }
    out.add(Scenario.seq("drop-duplicates and events with their own equality", () -> {
      Make k = new Make(Mc.choose(4), 3);
      Mc.Latch gate = Mc.latch(1);
      var m = dropMachine(config(""), listener("", (w, s, e, sm) -> {
        if (w.equals("begin") && nm(e).equals("x")) {
          gate.await();
        }
      }));
      ring(m, k);
      m.start();
      m.fire(k.ev("x"));
      Mc.quiesce();
      List<String> waiting = new ArrayList<>();
      for (int i = 0; i < 4; i++) {
        String e = new String[]{"n", "u", "x"}[Mc.choose(3)];
        m.fire(k.ev(e));
        if (!waiting.contains(e)) {
          waiting.add(e);
        }
        Mc.eq(waiting.size() + 1, m.getEventQueueSize(), "queue size after " + e);
      }
      gate.countDown();
      Mc.quiesce();
      List<String> want = new ArrayList<>(List.of("x"));
      want.addAll(waiting);
      Mc.eq(want, order(), "handled");
    }));
    out.add(Scenario.seq("an own strategy gets every event, every life cycle sequence", () -> {
      OwnStrategy s = new OwnStrategy(null);
      var m = new GenericStateMachine.Builder<Object, Object>().setEventProcessingStrategy(s)
          .setStateMachineListener(listener("", null)).build();
      ring(m, new Make(3, 3));
      boolean started = false;
      boolean ended = false;
      List<StateEvent<Object>> want = new ArrayList<>();
      int before = 0;
      int after = 0;
      for (int i = 0; i < (thorough ? 7 : 6); i++) {
        switch (Mc.choose(4)) {
          case 0 -> {
            if (!started && !ended) {
              m.start();
              started = true;
            }
          }
          case 1 -> {
            if (started) {
              m.stop();
              ended = true;
            }
          }
          case 2 -> {
            s.size = i;
            Mc.eq(i, m.getEventQueueSize(), "queue size");
          }
          default -> {
            StateEvent<Object> e = ev(Mc.flip() ? "x" : "u");
            if (Mc.flip()) {
              load(e, "p" + i);
            }
            m.fire(e);
            if (!started) {
              before++;
            } else if (ended) {
              after++;
            } else {
              want.add(e);
            }
          }
        }
      }
      Mc.quiesce();
      Mc.eq(before, Mc.count("beforeStart"), "events before the start");
      Mc.eq(after, Mc.count("afterEnd"), "events after the end");
      Mc.eq(want.size(), s.got.size(), "events given to the strategy");
      for (int i = 0; i < want.size(); i++) {
        Mc.check(want.get(i) == s.got.get(i), "another event instance was given");
        Mc.check(s.at.get(i) == m, "another machine was given");
        Mc.check(s.on.get(i) == Mc.thread(), "given on another thread");
      }
      Mc.eq(started ? 1 : 0, Mc.count("entry"), "entries");
      Mc.eq(started ? 2 : 0, Mc.count("begin") + Mc.count("end"), "notifications");
      Mc.eq(started ? ended ? END : "A" : "null",
          m.getCurrentState() == null ? "null" : nm(m.getCurrentState()), "state");
    }));
    for (int dd = 0; dd < 2; dd++) {
      boolean drop = dd == 1;
      String dn = drop ? ", drop-duplicates inside" : ", default inside";
      out.add(Scenario.seq("an own strategy that leaves events out" + dn, () -> {
        Config<Object, Object> c = config("");
        OwnStrategy s = new OwnStrategy(drop
            ? EventProcessingStrategyFactory.createDropDuplicateStrategy(c)
            : EventProcessingStrategyFactory.createDefaultStrategy(c));
        s.skip = "n";
        var m = new GenericStateMachine.Builder<Object, Object>().setEventProcessingStrategy(s)
            .setStateMachineListener(listener("", null)).build();
        ring(m, new Make(3, 3));
        KRef ref = ref();
        m.start();
        ref.start();
        for (int i = 0; i < len; i++) {
          String e = new String[]{"x", "n", "e", "u"}[Mc.choose(4)];
          m.fire(ev(e));
          if (!e.equals("n") || ref.ended) {
            ref.fire(e);
          }
          Mc.quiesce();
          Mc.eq(ref.log, Mc.keys(), "effects");
          ref.checkState(m);
        }
      }));
      out.add(Scenario.of("two threads fire at an own strategy" + dn, () -> {
        Config<Object, Object> c = config("");
        OwnStrategy s = new OwnStrategy(drop
            ? EventProcessingStrategyFactory.createDropDuplicateStrategy(c)
            : EventProcessingStrategyFactory.createDefaultStrategy(c));
        var m = new GenericStateMachine.Builder<Object, Object>().setEventProcessingStrategy(s)
            .setStateMachineListener(listener("", null)).build();
        ring(m, new Make(3, 3));
        m.start();
        StateEvent<Object> x = ev("x");
        StateEvent<Object> n = ev("n");
        Thread[] who = new Thread[1];
        Mc.Th t = Mc.spawn("f", () -> {
          who[0] = Mc.thread();
          m.fire(x);
        });
        m.fire(n);
        t.join();
        Mc.quiesce();
        Mc.eq(2, s.got.size(), "events given to the strategy");
        for (int i = 0; i < 2; i++) {
          Mc.check(s.got.get(i) == x && s.on.get(i) == who[0]
              || s.got.get(i) == n && s.on.get(i) == Mc.thread(), "event or thread");
        }
        Mc.check(s.got.get(0) != s.got.get(1), "one event twice");
        Mc.eq(1, handled("x"), "x");
        Mc.eq(1, handled("n"), "n");
      }).weight(2));
    }
    // queues
    out.add(Scenario.seq("every kind of queue holds what waits, every sequence", () -> {
      int kind = Mc.choose(10);
      Queue<EventMachinePair<Object, Object>> q = kind < 6 ? queue(kind) : smallQueue(kind);
      boolean drop = Mc.flip();
      int max = Mc.choose(2) * 3;
      Config<Object, Object> c = config("").withEventQueue(q).withMaxQueueSize(max);
      Mc.Latch gate = Mc.latch(1);
      Hook h = (w, s, e, sm) -> {
        if (w.equals("entry") && nm(e).equals("x")) {
          gate.await();
        }
      };
      Ring r = drop ? dropRing(c, h) : Kit.ring(c, h);
      r.m.start();
      Mc.eq(0, q.size(), "waiting at the start");
      r.m.fire(ev("x"));
      Mc.quiesce();
      Mc.eq(0, q.size(), "waiting while x is processed");
      List<String> waiting = new ArrayList<>();
      int refused = 0;
      for (int i = 0; i < len; i++) {
        String e = new String[]{"n", "u", "v"}[Mc.choose(3)];
        r.m.fire(ev(e));
        if (!(drop && waiting.contains(e))) {
          if (max > 0 && waiting.size() == max || kind > 5 && waiting.size() == 2) {
            refused++;
            Mc.eq(refused, Mc.count("exception"), "refusals reported when the queue was full");
          } else {
            waiting.add(e);
          }
        }
        Mc.eq(waiting.size(), q.size(), "waiting in the given queue");
        Mc.eq(waiting.size() + 1, r.m.getEventQueueSize(), "queue size");
      }
      Mc.eq(refused, Mc.count("exception"), "refused");
      gate.countDown();
      Mc.quiesce();
      Mc.eq(0, q.size(), "waiting at the end");
      List<String> want = new ArrayList<>(List.of("x"));
      want.addAll(waiting);
      List<String> got = new ArrayList<>();
      for (mc.Rec x : Mc.trace()) {
        if (x.what.equals("end") && !x.args[1].equals(IMMEDIATE)) {
          got.add((String) x.args[1]);
        } else if (x.what.equals("unmapped")) {
          got.add((String) x.args[0]);
        }
      }
      Mc.eq(want, got, "handled");
    }).weight(2));
    for (int qq = 1; qq < 6; qq++) {
      int qk = qq;
      String[] qn = {"", "LinkedBlockingQueue", "ArrayBlockingQueue", "ConcurrentLinkedDeque",
          "LinkedBlockingDeque", "a queue of an own class"};
      out.add(Scenario.of("two firers, " + qn[qq], () -> {
        Config<Object, Object> c = config("").withEventQueue(queue(qk));
        boolean drop = Mc.flip();
        Ring r = drop ? dropRing(c, null) : Kit.ring(c, null);
        r.m.start();
        Mc.Th t = Mc.spawn("f", () -> r.m.fire(ev("x")));
        r.m.fire(ev("n"));
        t.join();
        Mc.quiesce();
        Mc.eq(1, handled("x"), "x");
        Mc.eq(1, handled("n"), "n");
        Mc.eq(0, r.m.getEventQueueSize(), "queue size");
      }).weight(2));
    }
    // executors
    out.add(Scenario.seq("an executor that runs its tasks later, every sequence", () -> {
      Manual ex = new Manual();
      boolean drop = Mc.flip();
      Config<Object, Object> c = config("").withExecutor(ex);
      if (Mc.flip()) {
        c.withThreadName("ignored");
      }
      Ring r = drop ? dropRing(c, null) : Kit.ring(c, null);
      r.m.start();
      KRef ref = ref();
      ref.start();
      List<String> waiting = new ArrayList<>();
      for (int i = 0; i < (thorough ? 8 : 7); i++) {
        int what = Mc.choose(4);
        if (what == 3) {
          ex.run();
          // a task handles at least the events whose fire submitted it; it may handle more
          int left = r.m.getEventQueueSize();
          Mc.check(left <= waiting.size(), "queue size " + left + " of " + waiting);
          while (waiting.size() > left) {
            ref.fire(waiting.remove(0));
          }
        } else {
          String e = new String[]{"x", "n", "u"}[what];
          r.m.fire(ev(e));
          if (!(drop && waiting.contains(e))) {
            waiting.add(e);
          }
        }
        Mc.eq(waiting.size(), r.m.getEventQueueSize(), "queue size");
        Mc.eq(ref.log, Mc.keys(), "effects");
      }
      while (ex.run()) {
        Mc.point();
      }
      for (String e : waiting) {
        ref.fire(e);
      }
      Mc.eq(ref.log, Mc.keys(), "effects when all tasks have run");
      Mc.eq(0, r.m.getEventQueueSize(), "queue size");
      ref.checkState(r.m);
      Mc.eq(0, ex.stopped, "the executor was stopped");
    }).weight(2));
    out.add(Scenario.of("an executor whose tasks run on threads of the user", () -> {
      Manual ex = new Manual();
      boolean drop = Mc.flip();
      Config<Object, Object> c = config("").withExecutor(ex);
      Ring r = drop ? dropRing(c, null) : Kit.ring(c, null);
      r.m.start();
      r.m.fire(ev("x"));
      Mc.Th t = Mc.spawn("runner", () -> {
        ex.run();
        ex.run();
      });
      r.m.fire(ev("n"));
      t.join();
      while (ex.run()) {
        Mc.point();
      }
      Mc.eq(1, handled("x"), "x");
      Mc.eq(1, handled("n"), "n");
      Mc.eq(List.of("x", "n"), order(), "order");
      Mc.eq(0, r.m.getEventQueueSize(), "queue size");
    }).weight(2));
    out.add(Scenario.seq("an executor is only used, through the whole life of machines", () -> {
      Wrapped ex = new Wrapped(Mc.executor(1, "pool"));
      Config<Object, Object> c = config("").withExecutor(ex);
      for (int i = 0; i < 3; i++) {
        Ring r = Mc.flip() ? dropRing(c, null) : Kit.ring(c, null);
        if (Mc.flip()) {
          r.m.start();
          r.m.fire(ev("x"));
          Mc.quiesce();
          Mc.eq("B", nm(r.m.getCurrentState()), "state");
          if (Mc.flip()) {
            r.m.fire(ev("e"));
          } else {
            r.m.stop();
          }
          Mc.quiesce();
          r.m.fire(ev("x"));
        } else {
          r.m.startInState(r.b);
          r.m.fire(ev("x"));
          Mc.quiesce();
          Mc.eq("A", nm(r.m.getCurrentState()), "state");
        }
        Mc.quiesce();
        Mc.eq(0, ex.stopped, "the executor was stopped");
      }
    }));
  }
}
