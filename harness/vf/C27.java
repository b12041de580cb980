package vf;

import static vf.Kit.*;

import com.webotech.statemachine.GenericStateMachine;
import com.webotech.statemachine.NamedState;
import com.webotech.statemachine.UnexpectedFlowListener;
import com.webotech.statemachine.api.State;
import com.webotech.statemachine.api.StateEvent;
import com.webotech.statemachine.api.StateMachine;
import com.webotech.statemachine.api.StateMachineListener;
import com.webotech.statemachine.service.AbstractAppContext;
import com.webotech.statemachine.service.AbstractAppService;
import com.webotech.statemachine.service.api.AppContext;
import com.webotech.statemachine.service.api.Subsystem;
import com.webotech.statemachine.strategy.EventMachinePair;
import com.webotech.statemachine.strategy.EventProcessingStrategy;
import com.webotech.statemachine.strategy.EventProcessingStrategyFactory;
import com.webotech.statemachine.strategy.EventProcessingStrategyFactory.Config;
import java.util.ArrayList;
import java.util.List;
import java.util.Queue;
import java.util.concurrent.ConcurrentLinkedQueue;
import java.util.concurrent.ExecutorService;
import mc.Mc;
import mc.Rec;
import mc.Scenario;

/** Every configuration option takes effect, in every combination. */
public final class C27 {

  private static final int[][] ORDERS = {{0, 1, 2, 3, 4, 5}, {5, 4, 3, 2, 1, 0}, {2, 0, 4, 1, 5, 3},
      {3, 5, 1, 4, 0, 2}};

  /** one value for every option of a strategy; decoys must never be seen */
  private static final class Options {

    final String tag;
    final String thread;
    final ExecutorService executor;
    final Queue<EventMachinePair<Object, Object>> queue = new ConcurrentLinkedQueue<>();
    final UnexpectedFlowListener<Object, Object> flow;
    final int max;

    Options(String tag, int max, boolean pool) {
      this.tag = tag;
      this.thread = "thread-of-" + tag;
      this.executor = pool ? Mc.executor(1, "pool-of-" + tag) : null;
      this.flow = Kit.flow(tag);
      this.max = max;
    }

    Config<Object, Object> give(Config<Object, Object> c, int option) {
      return switch (option) {
        case 0 -> c.withThreadName(thread);
        case 1 -> c.withExecutor(executor);
        case 2 -> c.withEventQueue(queue);
        case 3 -> c.withMaxQueueSize(max);
        case 4 -> c.withUnmappedEventHandler(
            (e, sm) -> Mc.rec("unmapped" + tag, nm(e), nm(sm.getCurrentState())));
        default -> c.withUnexpectedFlowListener(flow);
      };
    }
  }

  private static EventProcessingStrategy<Object, Object> strategy(Config<Object, Object> c,
      boolean drop) {
    return drop ? EventProcessingStrategyFactory.createDropDuplicateStrategy(c)
        : EventProcessingStrategyFactory.createDefaultStrategy(c);
  }

  private static List<String> seen() {
    List<String> l = new ArrayList<>();
    for (Rec r : Mc.trace()) {
      if (r.what.startsWith("unmapped") || r.what.startsWith("exception") || r.what.startsWith(
          "beforeStart") || r.what.startsWith("afterEnd")) {
        l.add(r.what + " " + r.args[0]);
      } else if (r.what.equals("log")) {
        l.add("log");
      }
    }
    Mc.trace().clear();
    return l;
  }

  /** runs a machine through everything that an option can be seen at */
  private static void run(EventProcessingStrategy<Object, Object> s, boolean[] given, Options o) {
    Object context = new Object();
    Mc.Latch[] gate = new Mc.Latch[1];
    String[] thread = new String[1];
    Hook h = (w, st, e, sm) -> {
      if (w.equals("entry") && nm(e).equals("x")) {
        thread[0] = Mc.threadName();
        Mc.check(sm.getContext() == context, "another context");
        gate[0].await();
      }
    };
    GenericStateMachine<Object, Object> m = new GenericStateMachine.Builder<Object, Object>()
        .setContext(context).setEventProcessingStrategy(s).setStateMachineListener(
            listener("", null)).build();
    new Ring("", m, h);
    String flow = given[5] ? null : "log";
    m.fire(ev("x"));
    Mc.eq(List.of(given[5] ? "beforeStart" + o.tag + " x" : "log"), seen(), "too early");
    m.start();
    for (int round = 0; round < 2; round++) {
      gate[0] = Mc.latch(1);
      Mc.trace().clear();
      m.fire(ev("x"));
      Mc.quiesce();
      if (given[1]) {
        Mc.check(thread[0].startsWith("pool-of-" + o.tag), "run on thread " + thread[0]);
      } else {
        String name = given[0] ? o.thread : "state-machine";
        Mc.check(thread[0].startsWith(name + "-") && thread[0].substring(name.length() + 1)
            .chars().allMatch(Character::isDigit), "run on thread " + thread[0]);
      }
      List<String> want = new ArrayList<>();
      for (int i = 0; i < 3; i++) {
        m.fire(ev("u" + i));
        if (given[3] && i >= o.max) {
          want.add(flow != null ? flow : "exception" + o.tag + " u" + i);
        }
        int waits = given[3] ? Math.min(i + 1, o.max) : i + 1;
        Mc.eq(given[2] ? waits : 0, o.queue.size(), "waiting in the given queue");
        Mc.eq(waits + 1, m.getEventQueueSize(), "queue size");
      }
      Mc.eq(want, seen(), "refused");
      gate[0].countDown();
      Mc.quiesce();
      want.clear();
      for (int i = 0; i < (given[3] ? o.max : 3); i++) {
        want.add(given[4] ? "unmapped" + o.tag + " u" + i : "log");
      }
      Mc.eq(want, seen(), "unmapped");
    }
    m.fire(ev("e"));
    Mc.quiesce();
    Mc.check(m.isEnded(), "not ended");
    m.fire(ev("n"));
    Mc.eq(List.of(given[5] ? "afterEnd" + o.tag + " n" : "log"), seen(), "too late");
  }

  private static Scenario options(int way, boolean drop) {
    return Scenario.seq("every combination of strategy options, way " + way + (drop
        ? ", drop-duplicates" : ""), () -> {
      Mc.keepLogs();
      Options o = new Options("-o", 1 + Mc.choose(2), true);
      Options decoy = new Options("-decoy", 77, true);
      Config<Object, Object> c = new Config<>();
      boolean[] given = new boolean[6];
      boolean chained = way % 2 == 0;
      for (int option : ORDERS[way]) {
        int g = Mc.choose(3);
        if (g == 2) {
          Config<Object, Object> r = decoy.give(c, option);
          c = chained ? r : c;
        }
        if (g > 0) {
          Config<Object, Object> r = o.give(c, option);
          c = chained ? r : c;
          given[option] = true;
        }
      }
      EventProcessingStrategy<Object, Object> s = strategy(c, drop);
      if (way > 1) {
        for (int option = 0; option < 6; option++) {
          decoy.give(c, option);
        }
        strategy(c, !drop);
      }
      run(s, given, o);
      Mc.eq(0, decoy.queue.size(), "in a queue that does not count");
    }).weight(3);
  }

  @SuppressWarnings("unchecked")
  private static Scenario builder(boolean thorough) {
    return Scenario.seq("every combination and order of builder calls", () -> {
      var b = new GenericStateMachine.Builder<Object, Object>();
      Object[] context = {null, "ctx", new Object(), new int[0]};
      StateMachineListener<Object, Object>[] l = new StateMachineListener[]{null,
          listener("1", null), listener("2", null)};
      EventProcessingStrategy<Object, Object>[] s = new EventProcessingStrategy[3];
      for (int i = 1; i < 3; i++) {
        s[i] = strategy(config("" + i), i == 2);
      }
      int calls = Mc.choose(thorough ? 6 : 5);
      int c = 0;
      int li = 0;
      int si = 0;
      for (int i = 0; i < calls; i++) {
        int which = Mc.choose(3);
        var r = b;
        switch (which) {
          case 0 -> r = b.setContext(context[c = Mc.choose(3)]);
          case 1 -> r = b.setStateMachineListener(l[li = Mc.choose(3)]);
          default -> r = b.setEventProcessingStrategy(s[si = Mc.choose(3)]);
        }
        b = calls == 2 ? b : r;
      }
      Object ctx = context[c];
      var m = b.build();
      // what is done with the builder afterwards concerns later machines only
      b.setContext("later");
      b.setStateMachineListener(listener("later", null));
      b.setEventProcessingStrategy(strategy(config("later"), false));
      var later = b.build();
      Hook h = (w, st, e, sm) -> Mc.check(sm.getContext() == ctx, "another context in " + w);
      State<Object, Object> a = state("", "A", h);
      m.initialSate(a).receives(ev("x")).itTransitionsTo(a);
      m.when(a).receives(ev("e")).itEnds();
      later.initialSate(state("later", "A", null)).receives(ev("x")).itEnds();
      Mc.check(m.getContext() == ctx, "another context");
      String f = si == 0 ? null : "" + si;
      m.fire(ev("early"));
      Mc.eq(f == null ? 0 : 1, Mc.count("beforeStart" + f), "too early");
      m.start();
      Mc.check(m.getContext() == ctx, "another context");
      m.fire(ev("x"));
      Mc.quiesce();
      m.fire(ev("u"));
      Mc.quiesce();
      Mc.check(m.getContext() == ctx, "another context");
      m.fire(ev("e"));
      Mc.quiesce();
      m.fire(ev("x"));
      Mc.check(m.getContext() == ctx && m.isEnded(), "another context");
      for (int i = 1; i < 3; i++) {
        Mc.eq(i == li ? 3 : 0, Mc.count("begin" + i), "changes begun, listener " + i);
        Mc.eq(i == li ? 3 : 0, Mc.count("end" + i), "changes ended, listener " + i);
        Mc.eq(i == si ? 1 : 0, Mc.count("beforeStart" + i), "too early, strategy " + i);
        Mc.eq(i == si ? 1 : 0, Mc.count("unmapped" + i), "unmapped, strategy " + i);
        Mc.eq(i == si ? 1 : 0, Mc.count("afterEnd" + i), "too late, strategy " + i);
      }
      Mc.eq(2, Mc.count("entry"), "entries");
      for (Rec r : Mc.trace()) {
        Mc.check(!r.what.endsWith("later"), "the later machine did " + r);
      }
      Mc.eq("later", later.getContext(), "context of the later machine");
      later.start();
      later.fire(ev("x"));
      Mc.quiesce();
      Mc.check(later.isEnded(), "the later machine has not ended");
      Mc.eq(2, Mc.count("beginlater"), "changes of the later machine");
    });
  }

  // ------------------------------------------------------------------ apps

  /** an application's own implementation of the context */
  public static final class OwnCtx implements AppContext<OwnCtx> {

    final String[] args = {"a", "b"};
    List<Subsystem<OwnCtx>> subs = List.of();

    @Override
    public String[] getInitArgs() {
      return args;
    }

    @Override
    public String getAppName() {
      return "Own";
    }

    @Override
    public String getAppThreadName() {
      return "own-thread";
    }

    @Override
    public List<Subsystem<OwnCtx>> getSubsystems() {
      return subs;
    }
  }

  public static final class OwnApp extends AbstractAppService<OwnCtx> {

    public OwnApp(OwnCtx c, boolean exit) {
      super(c, exit);
    }
  }

  public static final class LibCtx extends AbstractAppContext<LibCtx> {

    public LibCtx(String name, String[] args) {
      super(name, args);
    }

    public LibCtx(String name) {
      super(name);
    }
  }

  public static final class LibApp extends AbstractAppService<LibCtx> {

    public LibApp(LibCtx c, boolean exit) {
      super(c, exit);
    }

    public LibApp(LibCtx c) {
      super(c);
    }
  }

  private static <C extends AppContext<C>> List<Subsystem<C>> subs(int n, C[] ctx, String thread) {
    List<Subsystem<C>> l = new ArrayList<>();
    for (int i = 0; i < n; i++) {
      int me = i;
      l.add(new Subsystem<>() {
        @Override
        public void start(C c) {
          on("start", c);
        }

        @Override
        public void stop(C c) {
          on("stop", c);
        }

        private void on(String what, C c) {
          Mc.rec(what, me);
          Mc.check(c == ctx[0], "another context");
          Mc.check(Mc.threadName().matches(thread + "-[0-9]+"), what + " on " + Mc.threadName());
        }
      });
    }
    return l;
  }

  private static <C extends AppContext<C>> void life(AbstractAppService<C> app, C ctx, int n,
      boolean exit) {
    List<String> changes = new ArrayList<>();
    app.setStateMachineListener(new StateMachineListener<>() {
      @Override
      public void onStateChangeBegin(State<C, Void> f, StateEvent<Void> e, State<C, Void> t) {
        Mc.check(app.getAppContext() == ctx, "another context");
      }

      @Override
      public void onStateChangeEnd(State<C, Void> f, StateEvent<Void> e, State<C, Void> t) {
        changes.add(t.getName());
      }
    });
    Mc.check(app.getAppContext() == ctx, "another context");
    Mc.Th t = Mc.spawn("start()", app::start);
    Mc.quiesce();
    Mc.check(app.getAppContext() == ctx, "another context");
    app.stop();
    Mc.quiesce();
    if (!exit) {
      app.start();
      Mc.quiesce();
      app.stop();
      Mc.quiesce();
      app.stop();
    }
    t.join();
    Mc.quiesce();
    Mc.check(app.getAppContext() == ctx, "another context");
    Mc.eq((exit ? 1 : 2) * n, Mc.count("start"), "subsystems started");
    Mc.eq((exit ? 1 : 2) * n, Mc.count("stop"), "subsystems stopped");
    Mc.eq(END, changes.get(changes.size() - 1), "last change");
  }

  @SuppressWarnings("unchecked")
  private static void apps(List<Scenario> out) {
    out.add(Scenario.seq("every combination of app options", () -> {
      String[] args = {"x", "y"};
      boolean withArgs = Mc.flip();
      LibCtx c = withArgs ? new LibCtx("name of it", args) : new LibCtx("name of it");
      LibCtx[] ctx = {c};
      int threads = Mc.choose(3);
      int n = Mc.choose(3) - 1;
      String thread = threads == 0 ? "app" : "mine";
      List<Subsystem<LibCtx>> l = subs(Math.max(n, 0), ctx, thread);
      boolean before = Mc.flip();
      boolean chained = Mc.flip();
      for (int k = 0; k < 2; k++) {
        if (k == 0 == before) {
          if (threads == 2) {
            LibCtx r = c.withAppThreadName("decoy");
            c = chained ? r : c;
          }
          if (threads > 0) {
            LibCtx r = c.withAppThreadName("mine");
            c = chained ? r : c;
          }
        } else if (n >= 0) {
          if (Mc.flip()) {
            c.withSubsystems(subs(2, new LibCtx[1], "decoy"));
          }
          LibCtx r = c.withSubsystems(l);
          c = chained ? r : c;
        }
      }
      Mc.check(c == ctx[0], "another context");
      boolean exit = Mc.flip();
      LibApp app = exit && Mc.flip() ? new LibApp(c) : new LibApp(c, exit);
      life(app, c, Math.max(n, 0), exit);
      Mc.eq("name of it", c.getAppName(), "app name");
      Mc.eq(thread, c.getAppThreadName(), "thread name");
      Mc.eq(withArgs ? List.of("x", "y") : List.of(), List.of(c.getInitArgs()), "arguments");
      Mc.eq(l, c.getSubsystems(), "subsystems");
    }));
    out.add(Scenario.seq("an app with an own context", () -> {
      OwnCtx c = new OwnCtx();
      int n = Mc.choose(4);
      c.subs = subs(n, new OwnCtx[]{c}, "own-thread");
      boolean exit = Mc.flip();
      life(new OwnApp(c, exit), c, n, exit);
    }));
    out.add(Scenario.seq("two apps keep their options", () -> {
      LibCtx[] c = new LibCtx[2];
      LibApp[] app = new LibApp[2];
      int n = Mc.choose(3);
      for (int i = 0; i < 2; i++) {
        c[i] = new LibCtx("app " + i, new String[]{"" + i}).withAppThreadName("thread" + i);
        c[i].withSubsystems(subs(i + n, new LibCtx[]{c[i]}, "thread" + i));
        app[i] = new LibApp(c[i]);
      }
      Mc.Th[] t = new Mc.Th[2];
      for (int i = 0; i < 2; i++) {
        LibApp a = app[i];
        t[i] = Mc.spawn("start()" + i, a::start);
        Mc.quiesce();
      }
      for (int i = 0; i < 2; i++) {
        Mc.check(app[i].getAppContext() == c[i], "another context");
        Mc.eq("app " + i, c[i].getAppName(), "app name");
        Mc.eq("thread" + i, c[i].getAppThreadName(), "thread name");
        Mc.eq(List.of("" + i), List.of(c[i].getInitArgs()), "arguments");
        Mc.eq(i + n, c[i].getSubsystems().size(), "subsystems");
        app[i].stop();
        t[i].join();
      }
      Mc.eq(1 + 2 * n, Mc.count("start"), "subsystems started");
      Mc.eq(1 + 2 * n, Mc.count("stop"), "subsystems stopped");
    }));
  }

  // ------------------------------------------------------------------ threads

  private static void threads(boolean thorough, List<Scenario> out) {
    out.add(Scenario.of("two threads make strategies from one configuration", () -> {
      boolean own = Mc.flip();
      Config<Object, Object> c = sharedConfig("-o").withMaxQueueSize(1);
      if (own) {
        c.withExecutor(Mc.executor(1, "pool"));
      } else {
        c.withThreadName("mine");
      }
      String[] thread = new String[2];
      Mc.Th[] t = new Mc.Th[2];
      for (int i = 0; i < 2; i++) {
        int me = i;
        t[i] = Mc.spawn("t" + i, () -> {
          Hook h = (w, s, e, sm) -> {
            Mc.check(sm == null || Integer.valueOf(me).equals(sm.getContext()), "another context");
            thread[me] = Mc.threadName();
          };
          var m = new GenericStateMachine.Builder<Object, Object>().setContext(me)
              .setEventProcessingStrategy(strategy(c, me == 1)).build();
          new Ring("" + me, m, h);
          m.fire(ev("early" + me));
          m.start();
          m.fire(ev("x"));
        });
      }
      t[0].join();
      t[1].join();
      Mc.quiesce();
      for (int i = 0; i < 2; i++) {
        Mc.eq(1, Mc.count("beforeStart-o", "early" + i), "too early");
        Mc.eq(1, Mc.count("entry" + i, "B", "x"), "entries");
        Mc.check(thread[i].startsWith(own ? "pool" : "mine-"), "run on thread " + thread[i]);
      }
    }).weight(4));
    out.add(Scenario.of("the context while the machine works and ends", () -> {
      Object ctx = Mc.flip() ? new Object() : null;
      Hook h = (w, s, e, sm) -> Mc.check(sm == null || sm.getContext() == ctx, "another context");
      var m = new GenericStateMachine.Builder<Object, Object>().setContext(ctx)
          .setEventProcessingStrategy(strategy(config(""), false)).build();
      new Ring("", m, h);
      Mc.Th t = Mc.spawn("looks", () -> {
        for (int i = 0; i < 3; i++) {
          Mc.point();
          Mc.check(m.getContext() == ctx, "another context");
        }
      });
      m.start();
      m.fire(ev("x"));
      m.fire(ev("e"));
      t.join();
      Mc.quiesce();
      Mc.check(m.isEnded() && m.getContext() == ctx, "another context");
    }).weight(3));
    out.add(Scenario.of("the context of an app while it works and ends", () -> {
      LibCtx c = new LibCtx("A").withAppThreadName("t");
      c.withSubsystems(subs(1, new LibCtx[]{c}, "t"));
      LibApp app = new LibApp(c);
      Mc.Th s = Mc.spawn("start()", app::start);
      Mc.Th t = Mc.spawn("looks", () -> {
        for (int i = 0; i < (thorough ? 3 : 2); i++) {
          Mc.point();
          Mc.check(app.getAppContext() == c, "another context");
          Mc.eq("t", c.getAppThreadName(), "thread name");
          Mc.eq(1, c.getSubsystems().size(), "subsystems");
        }
      });
      Mc.quiesce();
      app.error(new Exception("end"));
      s.join();
      t.join();
      Mc.quiesce();
    }).weight(4));
  }

  public static void scenarios(boolean thorough, List<Scenario> out) {
    for (int way = 0; way < 4; way++) {
      out.add(options(way, false));
      out.add(options(way, true));
    }
    out.add(builder(thorough));
    apps(out);
    threads(thorough, out);
  }
}
