package vf;

import com.webotech.statemachine.api.State;
import com.webotech.statemachine.api.StateEvent;
import com.webotech.statemachine.api.StateMachineListener;
import com.webotech.statemachine.service.AbstractAppContext;
import com.webotech.statemachine.service.AbstractAppService;
import com.webotech.statemachine.service.api.Subsystem;
import java.util.ArrayList;
import java.util.LinkedList;
import java.util.List;
import mc.Mc;
import mc.Rec;

/** Apps whose subsystems and state changes are recorded, and what their documentation says of them. */
public final class KApp {

  private KApp() {
  }

  public static final class Ctx extends AbstractAppContext<Ctx> {

    public Ctx(String name, String... args) {
      super(name, args);
    }
  }

  public static final class App extends AbstractAppService<Ctx> {

    public final int n;

    public App(Ctx c, int n, boolean exit) {
      super(c, exit);
      this.n = n;
    }

    public App(Ctx c, int n) {
      super(c);
      this.n = n;
    }

    public String state() {
      State<Ctx, Void> s = getLifecycleState();
      return s == null ? null : s.getName();
    }
  }

  public interface SubHook {

    void at(String what, int i);
  }

  public static Ctx ctx(int n, SubHook h) {
    int d = Mc.dress();
    Ctx c = d == 1 ? new Ctx("App".repeat(30)) : d == 2 ? new Ctx("", "", null, "{}%s")
        : new Ctx("App", "arg");
    if (d > 0) {
      c.withAppThreadName(d == 1 ? "thread".repeat(20) : "");
    }
    List<Subsystem<Ctx>> l = new ArrayList<>();
    for (int k = 0; k < n; k++) {
      int i = k;
      l.add(new Subsystem<>() {
        @Override
        public void start(Ctx x) {
          Mc.rec("start", i);
          if (d == 1) {
            Mc.interruptMe();
          }
          Mc.check(x == c, "subsystem " + i + " is started with another context");
          if (h != null) {
            h.at("start", i);
          }
          Mc.rec("started", i);
        }

        @Override
        public void stop(Ctx x) {
          Mc.rec("stop", i);
          if (d == 1) {
            Mc.interruptMe();
          }
          Mc.check(x == c, "subsystem " + i + " is stopped with another context");
          if (h != null) {
            h.at("stop", i);
          }
          Mc.rec("stopped", i);
        }
      });
    }
    if (d == 3) {
      // one more that does nothing, several times
      Subsystem<Ctx> idle = new Subsystem<>() {
        @Override
        public void start(Ctx x) {
        }

        @Override
        public void stop(Ctx x) {
        }
      };
      for (int i = l.size(); i >= 0; i--) {
        l.add(i, idle);
      }
      l.add(idle);
    }
    return c.withSubsystems(d == 1 ? new LinkedList<>(l) : d == 2 ? List.copyOf(l) : l);
  }

  public static App app(int n, boolean exit, SubHook h) {
    App a = exit && n == 2 ? new App(ctx(n, h), n) : new App(ctx(n, h), n, exit);
    a.setStateMachineListener(changes(null));
    return a;
  }

  public static StateMachineListener<Ctx, Void> changes(SubHook h) {
    return new StateMachineListener<>() {
      @Override
      public void onStateChangeBegin(State<Ctx, Void> f, StateEvent<Void> e, State<Ctx, Void> t) {
        Mc.rec("begin", f.getName(), e.getName(), t.getName());
        if (Mc.dress() == 1 && !t.getName().equals("UNINITIALISED")) {
          Mc.interruptMe();
        }
        if (h != null) {
          h.at("begin " + t.getName(), 0);
        }
      }

      @Override
      public void onStateChangeEnd(State<Ctx, Void> f, StateEvent<Void> e, State<Ctx, Void> t) {
        Mc.rec("end", f.getName(), e.getName(), t.getName());
        if (h != null) {
          h.at("end " + t.getName(), 0);
        }
      }
    };
  }

  /** starts the app on a thread of its own, which records how start() came back */
  public static Mc.Th launch(App a) {
    return launch(a, "start");
  }

  public static Mc.Th launch(App a, String op) {
    return Mc.spawn(op + "()", () -> Mc.note(call(a, op), "interrupted=" + Mc.interrupted()));
  }

  /** how a call of the app came back */
  public static String call(App a, String op) {
    // a thread that is interrupted can use the app as well, unless it waits for it
    boolean hurry = Mc.dress() == 1 && (!op.equals("start") || "STOPPED".equals(a.state()));
    if (hurry) {
      Mc.interruptMe();
    }
    try {
      switch (op) {
        case "start" -> a.start();
        case "stop" -> a.stop();
        default -> a.error(new IllegalStateException("driver"));
      }
      return op + " returned";
    } catch (IllegalStateException e) {
      return op + " refused";
    } finally {
      if (hurry) {
        Mc.calm();
      }
    }
  }

  private static final String TABLE = "[_UNINITIALISED_, _immediate_, UNINITIALISED] "
      + "[UNINITIALISED, start, STARTING] [STARTING, complete, STARTED] [STARTING, error, STOPPED] "
      + "[STARTED, stop, STOPPING] [STARTED, error, STOPPED] [STOPPING, complete, STOPPED] "
      + "[STOPPING, error, STOPPED] [STOPPED, start, STARTING] [STOPPED, stop, _END_]";

  /** what the app and its subsystems did, in order, without the records of the driver */
  public static List<String> life() {
    List<String> l = new ArrayList<>();
    for (Rec r : Mc.trace()) {
      if (r.what.equals("begin") || r.what.equals("end") || r.what.startsWith("sta")
          && r.args.length == 1 && r.args[0] instanceof Integer || r.what.startsWith("stop")
          && r.args.length == 1 && r.args[0] instanceof Integer) {
        l.add(r.key());
      }
    }
    return l;
  }

  /**
   * Everything recorded is a walk along the documented life cycle, subsystems are started in order
   * while it is STARTING and stopped in reverse order while it is STOPPING, and STARTED is reached
   * only once all have started, STOPPED without an error only once all have stopped.
   */
  public static void checkLife(int n, String fails) {
    String state = "_UNINITIALISED_";
    String open = null;
    int next = 0;
    boolean in = false;
    String failed = null;
    for (Rec r : Mc.trace()) {
      switch (r.what) {
        case "begin" -> {
          Mc.check(open == null, r + " inside " + open);
          open = r.key().substring(5);
          Mc.check(TABLE.contains(open), "undocumented change " + open);
          Mc.check(r.args[0].equals(state), r + " while in " + state);
          if (r.args[1].equals("complete") && r.args[0].equals("STARTING")) {
            Mc.check(next == n, "STARTED with " + next + " of " + n + " subsystems started");
          }
          if (r.args[1].equals("complete") && r.args[0].equals("STOPPING")) {
            Mc.check(next == 0, "STOPPED without error with " + next + " subsystems to stop");
          }
          if (r.args[2].equals("STARTING")) {
            next = 0;
            failed = null;
          }
          if (r.args[2].equals("STOPPING")) {
            next = n;
            failed = null;
          }
        }
        case "end" -> {
          Mc.check(open != null && open.equals(r.key().substring(3)), r + " without its begin");
          Mc.check(!in, r + " inside a subsystem");
          open = null;
          state = (String) r.args[2];
        }
        case "start" -> {
          Mc.check(open != null && open.endsWith("STARTING]"), r + " outside STARTING");
          Mc.check(!in && failed == null && r.args[0].equals(next), r + " out of order, expected "
              + next + (failed != null ? " but " + failed + " failed" : ""));
          in = true;
          if (fails != null && fails.contains("start" + next + ";")) {
            failed = r.key();
            in = false;
          }
        }
        case "started" -> {
          Mc.check(in, r + " out of order");
          in = false;
          next++;
        }
        case "stop" -> {
          Mc.check(open != null && open.endsWith("STOPPING]"), r + " outside STOPPING");
          Mc.check(!in && r.args[0].equals(next - 1), r + " out of order, expected " + (next - 1));
          in = true;
          if (fails != null && fails.contains("stop" + (next - 1) + ";")) {
            in = false;
            next--;
          }
        }
        case "stopped" -> {
          Mc.check(in, r + " out of order");
          in = false;
          next--;
        }
        default -> {
        }
      }
    }
    Mc.check(open == null, "unfinished change " + open);
  }
}
