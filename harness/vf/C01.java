package vf;

import static vf.Kit.*;

import com.webotech.statemachine.GenericStateMachine;
import com.webotech.statemachine.NamedState;
import java.util.ArrayList;
import java.util.List;
import java.util.concurrent.ArrayBlockingQueue;
import java.util.concurrent.ConcurrentLinkedDeque;
import java.util.concurrent.LinkedBlockingQueue;
import mc.Mc;
import mc.Scenario;

/** Exactly-once handling of every accepted event. */
public final class C01 {

  private static void once(String... evs) {
    for (String e : evs) {
      Mc.eq(1, handled(e), "number of times event " + e + " was handled");
    }
  }

  /** every thread fires its events; the events are distinct, so each must be handled once */
  private static Scenario firers(String name, boolean drop, int pool, String[]... threads) {
    return Scenario.of(name, () -> {
      var c = config("");
      if (pool > 0) {
        c.withExecutor(Mc.executor(pool, "pool"));
      }
      Ring r = drop ? dropRing(c, null) : ring(c, null);
      r.m.start();
      Mc.Th[] th = new Mc.Th[threads.length];
      for (int i = 0; i < threads.length; i++) {
        String[] mine = threads[i];
        th[i] = Mc.spawn("firer" + i, () -> {
          for (String e : mine) {
            r.m.fire(ev(e));
          }
        });
      }
      for (Mc.Th t : th) {
        t.join();
      }
      Mc.quiesce();
      for (String[] t : threads) {
        once(t);
      }
      Mc.eq(0, Mc.count("exception"), "exceptions");
    });
  }

  public static void scenarios(boolean thorough, List<Scenario> out) {
    out.add(firers("two firers, one event each", false, 0, new String[]{"x"}, new String[]{"n"}));
    out.add(firers("two firers, three events", false, 0, new String[]{"x", "u"},
        new String[]{"n"}).weight(8));
    out.add(firers("three firers, one event each", false, 0, new String[]{"x"}, new String[]{"n"},
        new String[]{"u"}).weight(9));
    out.add(firers("two firers, drop-duplicates", true, 0, new String[]{"x", "u"},
        new String[]{"n"}).weight(7));
    out.add(firers("two firers, executor with two threads", false, 2, new String[]{"x"},
        new String[]{"n"}).weight(9));
    out.add(firers("one firer, three events, executor with two threads", false, 2,
        new String[]{"x", "n", "u"}).weight(7));
    out.add(firers("one firer, two events, executor with three threads", false, 3,
        new String[]{"x", "n"}).weight(7));
    if (thorough) {
      out.add(firers("two firers, two events each", false, 0, new String[]{"x", "u"},
          new String[]{"n", "v"}).weight(19));
      out.add(firers("three firers, five events", false, 0, new String[]{"x", "u"},
          new String[]{"n", "v"}, new String[]{"w"}).weight(20));
      out.add(firers("two firers, three events each", false, 0, new String[]{"x", "u", "w"},
          new String[]{"n", "v", "z"}).weight(20));
      out.add(firers("three firers, drop-duplicates", true, 0, new String[]{"x"}, new String[]{"n"},
          new String[]{"u"}).weight(20));
      out.add(firers("two firers, three events, executor with two threads", false, 2,
          new String[]{"x", "u"}, new String[]{"n"}).weight(20));
    }
    out.add(Scenario.of("two firers, equal events", () -> {
      Ring r = ring();
      r.m.start();
      Mc.Th t1 = Mc.spawn("f1", () -> r.m.fire(ev("x")));
      Mc.Th t2 = Mc.spawn("f2", () -> r.m.fire(ev("x")));
      t1.join();
      t2.join();
      Mc.quiesce();
      Mc.eq(2, handled("x"), "number of times the two x events were handled");
      Mc.eq("A", nm(r.m.getCurrentState()), "state after two x");
    }));
    out.add(Scenario.of("two firers share one event instance", () -> {
      Ring r = ring();
      r.m.start();
      var x = ev("x");
      Mc.Th t1 = Mc.spawn("f1", () -> r.m.fire(x));
      Mc.Th t2 = Mc.spawn("f2", () -> r.m.fire(x));
      t1.join();
      t2.join();
      Mc.quiesce();
      Mc.eq(2, handled("x"), "number of times the two x events were handled");
    }));
    for (boolean drop : new boolean[]{false, true}) {
      out.add(Scenario.of("fire from entry, exit and listener" + (drop ? ", drop-duplicates" : ""),
          () -> {
            GenericStateMachine<Object, Object>[] m = new GenericStateMachine[1];
            Hook h = (w, s, e, sm) -> {
              if (w.equals("entry") && s.equals("B")) {
                m[0].fire(ev("n"));
              } else if (w.equals("exit") && s.equals("A")) {
                m[0].fire(ev("u"));
              } else if (w.equals("end") && nm(e).equals("x")) {
                m[0].fire(ev("v"));
              }
            };
            Ring r = drop ? dropRing(config(""), h) : ring(config(""), h);
            m[0] = r.m;
            r.m.start();
            Mc.Th t = Mc.spawn("f", () -> r.m.fire(ev("w")));
            r.m.fire(ev("x"));
            t.join();
            Mc.quiesce();
            once("x", "n", "u", "v", "w");
          }).weight(6));
    }
    out.add(Scenario.of("fire races start", () -> {
      Ring r = ring();
      Mc.Th t1 = Mc.spawn("f1", () -> r.m.fire(ev("x")));
      r.m.start();
      t1.join();
      Mc.quiesce();
      once("x");
      Mc.eq(0, Mc.count("exception"), "exceptions");
    }));
    out.add(Scenario.of("fire races startInState", () -> {
      Ring r = ring();
      Mc.Th t1 = Mc.spawn("f1", () -> r.m.fire(ev("x")));
      r.m.startInState(r.b);
      t1.join();
      Mc.quiesce();
      once("x");
      Mc.eq(0, Mc.count("exception"), "exceptions");
    }));
    out.add(Scenario.of("initial entry action fires while another thread fires", () -> {
      Ring r = ring(config(""), (w, s, e, sm) -> {
        if (w.equals("entry") && s.equals("A") && nm(e).equals(IMMEDIATE)) {
          sm.fire(ev("x"));
        }
      });
      Mc.Th t1 = Mc.spawn("f1", () -> r.m.fire(ev("n")));
      r.m.start();
      t1.join();
      Mc.quiesce();
      once("x", "n");
      Mc.eq(0, Mc.count("exception"), "exceptions");
    }).weight(5));
    for (int kind = 0; kind < 3; kind++) {
      int k = kind;
      out.add(Scenario.of("processing fails with " + new String[]{"a runtime exception",
          "a checked exception", "an error"}[k], () -> {
        Ring r = ring(config(""), (w, s, e, sm) -> {
          if (w.equals("entry") && s.equals("B")) {
            Kit.<RuntimeException>sneak(k == 0 ? new IllegalArgumentException("boom")
                : k == 1 ? new java.io.IOException("boom") : new AssertionError("boom"));
          }
        });
        r.m.start();
        Mc.Th t1 = Mc.spawn("f1", () -> r.m.fire(ev("x")));
        Mc.Th t2 = Mc.spawn("f2", () -> {
          r.m.fire(ev("n"));
          if (thorough) {
            r.m.fire(ev("u"));
          }
        });
        t1.join();
        t2.join();
        Mc.quiesce();
        once("n");
        if (thorough) {
          once("u");
        }
        Mc.eq(k == 2 ? 0 : 1, handled("x"), "x handled");
        Mc.eq(1, Mc.count("entry", "B"), "entries into B");
      }).weight(4));
    }
    out.add(Scenario.seq("processing fails with every kind of throwable", () -> {
      Throwable[] kinds = C21.kinds();
      Throwable boom = kinds[Mc.choose(kinds.length)];
      String at = new String[]{"begin", "exit", "entry", "end", "unmapped"}[Mc.choose(5)];
      int times = 1 + Mc.choose(2);
      int[] n = {0};
      Hook h = (w, s, e, sm) -> {
        if (w.equals(at) && nm(e).startsWith("b") && n[0]++ < times && boom != null) {
          Kit.<RuntimeException>sneak(boom);
        }
      };
      var c = config("").withUnmappedEventHandler((e, sm) -> {
        Mc.rec("unmapped", nm(e), nm(sm.getCurrentState()));
        h.at("unmapped", "", e, sm);
      });
      int kind = Mc.choose(3);
      Ring r = kind == 0 ? ring(c, h) : kind == 1 ? dropRing(c, h)
          : ring(c.withMaxQueueSize(9), h);
      if (!at.equals("unmapped")) {
        r.m.when(r.a).receives(ev("b1")).itTransitionsTo(r.a);
        r.m.when(r.a).receives(ev("b2")).itTransitionsTo(r.a);
      }
      r.m.start();
      boolean wait = Mc.flip();
      for (String e : new String[]{"b1", "n", "b2", "v", "w"}) {
        r.m.fire(ev(e));
        if (wait) {
          Mc.quiesce();
        }
      }
      Mc.quiesce();
      once("n", "v", "w");
      Mc.eq(boom instanceof Exception ? times : 0, Mc.count("exception"), "exceptions");
      Mc.eq(0, r.m.getEventQueueSize(), "queue size");
    }));
    out.add(Scenario.of("an action leaves its thread interrupted", () -> {
      String at = new String[]{"begin", "entry", "exit", "end"}[Mc.choose(4)];
      boolean fail = Mc.flip();
      Hook h = (w, s, e, sm) -> {
        if (w.equals(at) && nm(e).equals("x")) {
          Mc.interruptMe();
          if (fail) {
            Kit.<RuntimeException>sneak(new InterruptedException());
          }
        }
      };
      int kind = Mc.choose(3);
      Ring r = kind == 0 ? ring(config(""), h) : kind == 1 ? dropRing(config(""), h)
          : ring(config("").withMaxQueueSize(5), h);
      r.m.start();
      r.m.fire(ev("x"));
      r.m.fire(ev("n"));
      r.m.fire(ev("u"));
      Mc.quiesce();
      once("n", "u");
      Mc.eq(fail ? 1 : 0, Mc.count("exception", "x"), "exceptions");
      Mc.eq(1, Mc.count("begin", null, "x"), "times x was begun");
      r.m.fire(ev("v"));
      Mc.quiesce();
      once("v");
    }).weight(5));
    out.add(Scenario.of("an interrupted thread fires", () -> {
      int kind = Mc.choose(3);
      Ring r = kind == 0 ? ring() : kind == 1 ? dropRing(config(""), null)
          : ring(config("").withMaxQueueSize(5), null);
      r.m.start();
      Mc.interruptMe();
      r.m.fire(ev("x"));
      r.m.fire(ev("u"));
      Mc.check(Mc.interrupted(), "firing swallowed the interrupt");
      Mc.quiesce();
      once("x", "u");
    }).weight(3));
    for (int kind = 0; kind < 3; kind++) {
      int k = kind;
      out.add(Scenario.of("user-supplied queue " + new String[]{"LinkedBlockingQueue",
          "ConcurrentLinkedDeque", "bounded ArrayBlockingQueue"}[k], () -> {
        var c = config("");
        c.withEventQueue(k == 0 ? new LinkedBlockingQueue<>() : k == 1
            ? new ConcurrentLinkedDeque<>() : new ArrayBlockingQueue<>(1));
        Ring r = ring(c, null);
        r.m.start();
        Mc.Th t1 = Mc.spawn("f1", () -> {
          r.m.fire(ev("x"));
          r.m.fire(ev("u"));
        });
        Mc.Th t2 = Mc.spawn("f2", () -> r.m.fire(ev("n")));
        t1.join();
        t2.join();
        Mc.quiesce();
        once("x", "n", "u");
        if (k < 2) {
          Mc.eq(0, Mc.count("exception"), "exceptions");
        }
      }).weight(5));
    }
    out.add(Scenario.seq("very many events", () -> {
      int kind = Mc.choose(3);
      int n = new int[]{200, 700, thorough ? 5000 : 1500}[Mc.choose(3)];
      boolean wait = Mc.flip();
      Ring r = kind == 0 ? ring() : kind == 1 ? dropRing(config(""), null)
          : ring(config("").withMaxQueueSize(wait ? 2 : 6000), null);
      r.m.start();
      List<String> names = new ArrayList<>();
      for (int i = 0; i < n; i++) {
        String e = i % 3 == 0 && (kind != 1 || wait) ? i % 2 == 0 ? "x" : "n" : "u" + i;
        names.add(e);
        r.m.fire(ev(e));
        if (wait) {
          Mc.quiesce();
        }
      }
      Mc.quiesce();
      Mc.eq(names, order(), "events handled");
    }).weight(2));
    // every sequence of events fired without waiting
    int depth = thorough ? 6 : 5;
    out.add(Scenario.seq("all event sequences up to length " + depth, () -> {
      boolean drop = Mc.flip();
      Ring r = drop ? dropRing(config(""), null) : ring();
      r.m.start();
      int n = 1 + Mc.choose(depth);
      String[] al = {"x", "n", "u"};
      int[] fired = new int[3];
      boolean wait = Mc.flip();
      for (int i = 0; i < n; i++) {
        int k = Mc.choose(3);
        if (drop && !wait) {
          r.m.fire(ev(al[k] + (k == 2 ? i : "")));
        } else {
          r.m.fire(ev(al[k]));
        }
        fired[k]++;
        if (wait) {
          Mc.quiesce();
        }
      }
      Mc.quiesce();
      if (!drop || wait) {
        for (int k = 0; k < 3; k++) {
          Mc.eq(fired[k], handled(al[k]), "times " + al[k] + " was handled");
        }
      }
    }).weight(3));
  }
}
