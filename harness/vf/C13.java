package vf;

import static vf.Kit.*;

import com.webotech.statemachine.GenericStateMachine;
import com.webotech.statemachine.strategy.EventProcessingStrategy;
import com.webotech.statemachine.strategy.EventProcessingStrategyFactory;
import com.webotech.statemachine.strategy.EventProcessingStrategyFactory.Config;
import java.util.ArrayList;
import java.util.List;
import mc.Mc;
import mc.Rec;
import mc.Scenario;

/** Machines do not influence each other. */
public final class C13 {

  static final String[] HOW = {"built without a strategy", "default strategies",
      "default drop-duplicates strategies", "strategies from one configuration",
      "drop-duplicates strategies from one configuration", "strategies sharing an executor",
      "strategies sharing an executor with two threads", "built by one builder"};

  /** two machines with recording states and listeners tagged 1 and 2 */
  static Ring[] two(int how, Hook h) {
    return some(2, how, "", h);
  }

  static Ring[] some(int n, int how, String sep, Hook h) {
    Config<Object, Object> shared = sharedConfig("");
    if (how == 5 || how == 6) {
      shared.withExecutor(Mc.executor(how - 4, "pool"));
    }
    Ring[] r = new Ring[n];
    var one = new GenericStateMachine.Builder<Object, Object>();
    for (int i = 0; i < n; i++) {
      String tag = sep + (i + 1);
      var b = (how == 7 ? one : new GenericStateMachine.Builder<Object, Object>())
          .setStateMachineListener(listener(tag, h));
      EventProcessingStrategy<Object, Object> s = switch (how) {
        case 0, 7 -> null;
        case 1 -> EventProcessingStrategyFactory.createDefaultStrategy();
        case 2 -> EventProcessingStrategyFactory.createDropDuplicateStrategy();
        case 4 -> EventProcessingStrategyFactory.createDropDuplicateStrategy(shared);
        default -> EventProcessingStrategyFactory.createDefaultStrategy(shared);
      };
      if (s != null) {
        b.setEventProcessingStrategy(s);
      }
      r[i] = new Ring(tag, b.build(), h);
    }
    return r;
  }

  private static List<String> of(String tag) {
    List<String> l = new ArrayList<>();
    for (Rec r : Mc.trace()) {
      if (r.what.endsWith(tag)) {
        l.add(r.key());
      }
    }
    return l;
  }

  private static String tr(String tag, String f, String e, String t) {
    return "begin" + tag + "[" + f + ", " + e + ", " + t + "], exit" + tag + "[" + f + ", " + e
        + "], entry" + tag + "[" + t + ", " + e + "], end" + tag + "[" + f + ", " + e + ", " + t
        + "]";
  }

  private static String init(String tag) {
    return "begin" + tag + "[" + UNINIT + ", " + IMMEDIATE + ", A], entry" + tag + "[A, "
        + IMMEDIATE + "], end" + tag + "[" + UNINIT + ", " + IMMEDIATE + ", A]";
  }

  public static void scenarios(boolean thorough, List<Scenario> out) {
    for (int hh = 0; hh < HOW.length; hh++) {
      int how = hh;
      out.add(Scenario.of("two machines driven at once, " + HOW[hh], () -> {
        Ring[] r = two(how, null);
        r[0].m.start();
        r[1].m.start();
        Mc.Th t = Mc.spawn("f", () -> r[1].m.fire(ev("x")));
        r[0].m.fire(ev("x"));
        t.join();
        Mc.quiesce();
        for (int i = 0; i < 2; i++) {
          String tag = "" + (i + 1);
          Mc.eq("[" + init(tag) + ", " + tr(tag, "A", "x", "B") + "]", of(tag).toString(),
              "effects of machine " + tag);
          Mc.eq("B", nm(r[i].m.getCurrentState()), "state of machine " + tag);
          Mc.eq(0, r[i].m.getEventQueueSize(), "queue of machine " + tag);
        }
      }).weight(how == 6 ? 9 : 5));
      out.add(Scenario.of("one machine ends while the other works, " + HOW[hh], () -> {
        Ring[] r = two(how, null);
        r[0].m.start();
        r[1].m.start();
        boolean stop = Mc.flip();
        Mc.Th t = Mc.spawn("f", () -> {
          if (stop) {
            r[1].m.stop();
          } else {
            r[1].m.fire(ev("e"));
          }
        });
        r[0].m.fire(ev("x"));
        t.join();
        Mc.quiesce();
        Mc.eq("[" + init("1") + ", " + tr("1", "A", "x", "B") + "]", of("1").toString(),
            "effects of the machine that goes on");
        Mc.check(!r[0].m.isEnded() && r[1].m.isEnded(), "ended");
        r[0].m.fire(ev("x"));
        Mc.quiesce();
        Mc.eq("A", nm(r[0].m.getCurrentState()), "state of the machine that goes on");
      }).weight(how == 6 ? 9 : 5));
      out.add(Scenario.of("a waiting event of one machine does not concern the other, " + HOW[hh],
          () -> {
            Mc.Latch gate = Mc.latch(1);
            int[] gated = {0};
            Ring[] r = two(how, (w, s, e, sm) -> {
              if (w.equals("entry") && nm(e).equals("x") && gated[0]++ == 0) {
                gate.await();
              }
            });
            r[0].m.start();
            r[1].m.start();
            r[0].m.fire(ev("x"));
            Mc.quiesce();
            r[0].m.fire(ev("n"));
            Mc.check(r[0].m.getEventQueueSize() <= 2 && r[1].m.getEventQueueSize() == 0,
                "an event counts for the machine it was fired at");
            r[1].m.fire(ev("n"));
            r[1].m.fire(ev("x"));
            Mc.eq(2, r[0].m.getEventQueueSize(), "queue of the blocked machine");
            Mc.check(r[1].m.getEventQueueSize() <= 2, "queue of the other machine");
            gate.countDown();
            Mc.quiesce();
            for (int i = 0; i < 2; i++) {
              String tag = "" + (i + 1);
              Mc.eq(1, Mc.count("end" + tag, null, "n"), "n in machine " + tag);
              Mc.eq(1, Mc.count("end" + tag, "A", "x"), "x in machine " + tag);
              Mc.eq("B", nm(r[i].m.getCurrentState()), "state of machine " + tag);
            }
          }).weight(3));
    }
    out.add(Scenario.seq("one machine is full, the other is not", () -> {
      boolean drop = Mc.flip();
      int max = 1 + Mc.choose(2);
      Config<Object, Object> c = sharedConfig("").withMaxQueueSize(max);
      if (Mc.flip()) {
        c.withExecutor(Mc.executor(2, "pool"));
      }
      Mc.Latch gate = Mc.latch(1);
      Hook h = (w, s, e, sm) -> {
        if (w.equals("entry") && nm(e).equals("x")) {
          gate.await();
        }
      };
      Ring[] r = new Ring[2];
      for (int i = 0; i < 2; i++) {
        String tag = "" + (i + 1);
        r[i] = new Ring(tag, drop ? dropMachine(c, listener(tag, null)) : machine(c,
            listener(tag, null)), h);
        r[i].m.start();
      }
      r[0].m.fire(ev("x"));
      Mc.quiesce();
      for (int i = 0; i < max + 1; i++) {
        r[0].m.fire(ev("u" + i));
      }
      Mc.eq(1, Mc.count("exception"), "refused by the full machine");
      r[1].m.fire(ev("x"));
      for (int i = 0; i < max - 1; i++) {
        r[1].m.fire(ev("u" + i));
      }
      Mc.eq(1, Mc.count("exception"), "refused after events at the machine with room");
      gate.countDown();
      Mc.quiesce();
      Mc.eq("B", nm(r[1].m.getCurrentState()), "state");
      Mc.eq(2 * max - 1, Mc.count("unmapped"), "unmapped events");
    }));
    int len = thorough ? 6 : 4;
    for (int hh = 0; hh < HOW.length; hh++) {
      int how = hh;
      out.add(Scenario.seq("every interleaved sequence at two machines, " + HOW[hh], () -> {
        Ring[] r = two(how, null);
        KRef[] ref = new KRef[2];
        for (int i = 0; i < 2; i++) {
          ref[i] = new KRef();
          ref[i].init = "A";
          ref[i].on("A", "x", "B");
          ref[i].on("A", "n", NOOP);
          ref[i].on("A", "e", END);
          ref[i].on("B", "x", "A");
          ref[i].on("B", "n", NOOP);
          ref[i].on("B", "e", END);
        }
        if (Mc.flip()) {
          for (int i = 0; i < 2; i++) {
            r[i].m.start();
            ref[i].start();
          }
        } else {
          r[1].m.start();
          ref[1].start();
        }
        boolean wait = how == 2 || how == 4 || Mc.flip();
        for (int i = 0; i < len; i++) {
          int k = Mc.choose(2);
          String e = new String[]{"x", "n", "e"}[Mc.choose(3)];
          if (ref[k].ended && !wait) {
            continue;
          }
          r[k].m.fire(ev(e));
          if (wait) {
            Mc.quiesce();
          }
          ref[k].fire(e);
          if (wait) {
            for (int j = 0; j < 2; j++) {
              ref[j].checkState(r[j].m);
            }
          }
        }
        Mc.quiesce();
        for (int j = 0; j < 2; j++) {
          ref[j].checkState(r[j].m);
          List<String> want = new ArrayList<>();
          for (String s : ref[j].log) {
            if (s.matches("(begin|entry|exit|end)\\[.*")) {
              want.add(s.replaceFirst("\\[", (j + 1) + "["));
            }
          }
          Mc.eq(want, of("" + (j + 1)), "effects of machine " + (j + 1));
        }
      }).weight(2));
    }
    for (int hh = 0; hh < HOW.length; hh++) {
      int how = hh;
      out.add(Scenario.seq("many machines, " + HOW[hh], () -> {
        int n = new int[]{3, 20, thorough ? 150 : 70}[Mc.choose(3)];
        Ring[] r = some(n, how, "-", null);
        int[] order = new int[n];
        int off = Mc.choose(2) * (n / 2);
        for (int i = 0; i < n; i++) {
          order[i] = (i + off) % n;
          r[order[i]].m.start();
        }
        boolean wait = how == 2 || how == 4 || Mc.flip();
        for (int k = 0; k < 3; k++) {
          for (int i : order) {
            if (i % 4 != 0 && k < i % 4) {
              r[i].m.fire(ev(i % 4 == 3 && k == 1 ? "e" : "x"));
              if (wait) {
                Mc.quiesce();
              }
            }
          }
        }
        Mc.quiesce();
        for (int i = 0; i < n; i++) {
          String t = "-" + (i + 1);
          int xs = i % 4 == 3 ? wait ? 1 : -1 : i % 4;
          if (i % 4 == 3) {
            Mc.check(r[i].m.isEnded(), "machine " + i + " has ended");
            Mc.eq(2, Mc.count("exit" + t), "exit actions of machine " + i);
          } else {
            Mc.check(!r[i].m.isEnded(), "machine " + i + " has not ended");
            Mc.eq(xs == 1 ? "B" : "A", nm(r[i].m.getCurrentState()), "state of machine " + i);
            Mc.eq(xs + 1, Mc.count("begin" + t), "begins at machine " + i);
            Mc.eq(xs + 1, Mc.count("end" + t), "ends at machine " + i);
            Mc.eq(xs + 1, Mc.count("entry" + t), "entries at machine " + i);
          }
          Mc.eq(0, r[i].m.getEventQueueSize(), "queue of machine " + i);
        }
      }).threads(400));
    }
    out.add(Scenario.of("actions of two machines fire at each other", () -> {
      boolean pool = Mc.flip();
      Config<Object, Object> c = sharedConfig("");
      if (pool) {
        c.withExecutor(Mc.executor(2, "pool"));
      }
      Ring[] r = new Ring[2];
      for (int i = 0; i < 2; i++) {
        String tag = "" + (i + 1);
        int other = 1 - i;
        Hook h = (w, s, e, sm) -> {
          if (w.equals("entry") && nm(e).equals("x")) {
            r[other].m.fire(ev("n"));
          }
        };
        r[i] = new Ring(tag, machine(pool ? c : sharedConfig(""), listener(tag, null)), h);
      }
      r[0].m.start();
      r[1].m.start();
      r[0].m.fire(ev("x"));
      r[1].m.fire(ev("x"));
      Mc.quiesce();
      for (int i = 0; i < 2; i++) {
        String tag = "" + (i + 1);
        checkAtomic(tag, true);
        Mc.eq(1, Mc.count("end" + tag, null, "n"), "n in machine " + tag);
        Mc.eq("B", nm(r[i].m.getCurrentState()), "state of machine " + tag);
      }
    }).weight(9));
    out.add(Scenario.of("a blocked machine does not hold up one with its own executor", () -> {
      Mc.Latch gate = Mc.latch(1);
      String at = new String[]{"begin", "exit", "entry", "end"}[Mc.choose(4)];
      boolean starting = Mc.flip();
      Hook h = (w, s, e, sm) -> {
        if (w.equals(at) && (starting || !nm(e).equals(IMMEDIATE))) {
          gate.await();
        }
      };
      boolean drop = Mc.flip();
      Ring[] r = new Ring[2];
      for (int i = 0; i < 2; i++) {
        String tag = "" + (i + 1);
        Hook mine = i == 0 ? h : null;
        Config<Object, Object> c = sharedConfig("").withMaxQueueSize(drop ? 3 : -1);
        r[i] = new Ring(tag, drop ? dropMachine(c, listener(tag, mine)) : machine(c,
            listener(tag, mine)), mine);
      }
      Mc.Th t = Mc.spawn("s", () -> {
        r[0].m.start();
        r[0].m.fire(ev("x"));
      }).mayBlock();
      Mc.quiesce();
      r[1].m.start();
      r[1].m.fire(ev("x"));
      Mc.quiesce();
      Mc.eq("[" + init("2") + ", " + tr("2", "A", "x", "B") + "]", of("2").toString(),
          "effects of the free machine");
      r[1].m.fire(ev("e"));
      Mc.quiesce();
      Mc.check(r[1].m.isEnded(), "the free machine has not ended");
      gate.countDown();
      t.join();
      Mc.quiesce();
      Mc.eq("[" + init("1") + ", " + tr("1", "A", "x", "B") + "]", of("1").toString(),
          "effects of the blocked machine");
    }).weight(3));
    out.add(Scenario.of("two apps", () -> {
      Mc.Latch gate = Mc.latch(1);
      KApp.App[] a = new KApp.App[2];
      Mc.Th[] t = new Mc.Th[2];
      boolean exit = Mc.flip();
      boolean hold = Mc.flip();
      for (int i = 0; i < 2; i++) {
        int me = i;
        a[i] = new KApp.App(new KApp.Ctx("App" + i).withSubsystems(List.of(
            new com.webotech.statemachine.service.api.Subsystem<KApp.Ctx>() {
              @Override
              public void start(KApp.Ctx c) {
                Mc.rec("up" + me, c.getAppName());
                if (hold && me == 0) {
                  gate.await();
                }
              }

              @Override
              public void stop(KApp.Ctx c) {
                Mc.rec("down" + me, c.getAppName());
              }
            })), 1, exit);
      }
      for (int i = 0; i < 2; i++) {
        t[i] = Mc.spawn("app" + i, a[i]::start).mayBlock();
      }
      Mc.quiesce();
      Mc.eq(hold ? "STARTING" : "STARTED", a[0].state(), "state of app 0");
      Mc.eq("STARTED", a[1].state(), "state of app 1");
      a[1].stop();
      Mc.quiesce();
      Mc.eq(hold ? "STARTING" : "STARTED", a[0].state(), "state of app 0");
      gate.countDown();
      Mc.quiesce();
      Mc.eq("STARTED", a[0].state(), "state of app 0");
      Mc.check(!t[0].finished(), "app 0 has ended");
      Mc.eq(1, Mc.count("up0"), "starts of the subsystem of app 0");
      Mc.eq(1, Mc.count("up1", "App1"), "starts of the subsystem of app 1");
      Mc.eq(0, Mc.count("down0"), "stops of the subsystem of app 0");
      Mc.eq(1, Mc.count("down1", "App1"), "stops of the subsystem of app 1");
      Mc.eq(1, Mc.count("up0", "App0"), "starts of the subsystem of app 0");
    }).weight(9));
    out.add(Scenario.of("an action of one machine starts and drives another", () -> {
      Ring[] r = new Ring[2];
      r[1] = new Ring("2", machine(sharedConfig(""), listener("2", null)), null);
      r[0] = new Ring("1", machine(sharedConfig(""), listener("1", null)), (w, s, e, sm) -> {
        if (w.equals("entry") && nm(e).equals("x")) {
          r[1].m.start();
          r[1].m.fire(ev("x"));
        }
      });
      r[0].m.start();
      r[0].m.fire(ev("x"));
      r[0].m.fire(ev("n"));
      Mc.quiesce();
      Mc.eq("B", nm(r[1].m.getCurrentState()), "state");
      Mc.eq(1, Mc.count("end1", null, "n"), "n");
    }).weight(3));
  }
}
