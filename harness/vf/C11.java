package vf;

import static vf.Kit.*;

import com.webotech.statemachine.GenericStateMachine;
import java.util.ArrayList;
import java.util.List;
import mc.Mc;
import mc.Scenario;

/** Duplicates are dropped only while an equal event waits. */
public final class C11 {

  private static final class Gated {

    final Ring r;
    final Mc.Latch in = Mc.latch(1);
    final Mc.Latch gate = Mc.latch(1);
    int n;

    Gated(boolean drop, int threads) {
      Hook h = (w, s, e, sm) -> {
        if (w.equals("entry") && nm(e).equals("x") && n++ == 0) {
          in.countDown();
          gate.await();
        }
      };
      var c = config("");
      c.withUnmappedEventHandler(
          (e, sm) -> Mc.rec("unmapped", nm(e), nm(sm.getCurrentState()), e.getPayload()));
      if (threads > 0) {
        c.withExecutor(Mc.executor(threads, "pool"));
      }
      r = drop ? dropRing(c, h) : ring(c, h);
      r.m.start();
      r.m.fire(ev("x"));
      in.await();
    }
  }

  public static void scenarios(boolean thorough, List<Scenario> out) {
    for (int nn = 2; nn <= (thorough ? 4 : 3); nn++) {
      int n = nn;
      out.add(Scenario.of(n + " firers of equal events at a blocked machine", () -> {
        Gated g = new Gated(true, 0);
        Mc.Th[] t = new Mc.Th[n];
        for (int i = 0; i < n; i++) {
          t[i] = Mc.spawn("f" + i, () -> g.r.m.fire(ev("u")));
        }
        for (Mc.Th x : t) {
          x.join();
        }
        g.gate.countDown();
        Mc.quiesce();
        Mc.eq(1, handled("u"), "equal waiting events handled");
        Mc.eq(0, Mc.count("exception"), "exceptions");
        g.r.m.fire(ev("u"));
        Mc.quiesce();
        Mc.eq(2, handled("u"), "fired again when none waits");
      }).weight(6));
    }
    out.add(Scenario.of("two firers of two events each at a blocked machine", () -> {
      Gated g = new Gated(true, 0);
      Mc.Th t = Mc.spawn("f0", () -> {
        g.r.m.fire(ev("u"));
        g.r.m.fire(ev("n"));
      });
      Mc.Th t2 = Mc.spawn("f1", () -> {
        g.r.m.fire(ev("n"));
        g.r.m.fire(ev("u"));
      });
      t.join();
      t2.join();
      g.gate.countDown();
      Mc.quiesce();
      Mc.eq(1, handled("u"), "u");
      Mc.eq(1, handled("n"), "n");
      Mc.eq(1, handled("x"), "x");
    }).weight(7));
    out.add(Scenario.of("an equal event in processing does not count as waiting", () -> {
      Gated g = new Gated(true, 0);
      Mc.Th t = Mc.spawn("f", () -> g.r.m.fire(ev("x")));
      t.join();
      g.gate.countDown();
      Mc.quiesce();
      Mc.eq(2, handled("x"), "x");
      Mc.eq("A", nm(g.r.m.getCurrentState()), "state");
    }));
    out.add(Scenario.of("two firers of equal events at a free machine", () -> {
      Ring r = dropRing(config(""), null);
      r.m.start();
      Mc.Th t = Mc.spawn("f0", () -> r.m.fire(ev("x")));
      Mc.Th t2 = Mc.spawn("f1", () -> r.m.fire(ev("x")));
      t.join();
      t2.join();
      Mc.quiesce();
      int n = handled("x");
      Mc.check(n == 1 || n == 2, "x handled " + n + " times");
      Mc.eq(n == 1 ? "B" : "A", nm(r.m.getCurrentState()), "state");
      checkAtomic("", true);
    }).weight(5));
    out.add(Scenario.of("one firer of equal events at a free machine", () -> {
      Ring r = dropRing(config(""), null);
      r.m.start();
      r.m.fire(ev("x"));
      r.m.fire(ev("x"));
      r.m.fire(ev("x"));
      Mc.quiesce();
      int n = handled("x");
      Mc.check(n >= 1 && n <= 3, "x handled " + n + " times");
      Mc.eq(n % 2 == 1 ? "B" : "A", nm(r.m.getCurrentState()), "state");
      checkAtomic("", true);
    }).weight(5));
    out.add(Scenario.of("a drop needs an equal event that waits at that time", () -> {
      // the second firer knows that the first event was taken out of the queue already
      Ring r = dropRing(config(""), (w, s, e, sm) -> {
        if (w.equals("begin") && nm(e).equals("x")) {
          Mc.rec("taken");
        }
      });
      r.m.start();
      r.m.fire(ev("x"));
      boolean taken = Mc.index("taken") >= 0;
      r.m.fire(ev("x"));
      Mc.quiesce();
      Mc.check(!taken || handled("x") == 2, "dropped although no equal event waited");
    }).weight(2));
    out.add(Scenario.seq("long names with the same beginning", () -> {
      Gated g = new Gated(true, 1);
      g.r.m.fire(ev(LONG1));
      g.r.m.fire(ev(LONG2));
      g.r.m.fire(ev(LONG1));
      g.gate.countDown();
      Mc.quiesce();
      Mc.eq(1, handled(LONG1), "times the first was handled");
      Mc.eq(1, handled(LONG2), "times the second was handled");
    }));
    out.add(Scenario.of("two executor threads, equal events at a blocked machine", () -> {
      Gated g = new Gated(true, 2);
      Mc.Th t = Mc.spawn("f0", () -> g.r.m.fire(ev("u")));
      g.r.m.fire(ev("u"));
      t.join();
      g.gate.countDown();
      Mc.quiesce();
      int n = handled("u");
      Mc.check(n == 1 || n == 2, "u handled " + n + " times");
    }).weight(7));
    int len = thorough ? 6 : 5;
    for (int dd = 0; dd < 2; dd++) {
      boolean drop = dd == 0;
      out.add(Scenario.seq(
          "every sequence of " + len + " events at a blocked machine, " + (drop ? "drop-duplicates"
              : "default"), () -> {
            Gated g = new Gated(drop, 0);
            List<String> waiting = new ArrayList<>();
            List<String> want = new ArrayList<>();
            waiting.add("x");
            for (int i = 0; i < len; i++) {
              String e = new String[]{"n", "u", "x", "v"}[Mc.choose(4)];
              var x = ev(e);
              x.setPayload("p" + i);
              g.r.m.fire(x);
              // x itself is in processing, so the first further x waits
              if (!drop || !waiting.subList(1, waiting.size()).contains(e)) {
                waiting.add(e);
                if (e.equals("u") || e.equals("v")) {
                  want.add(e + "p" + i);
                }
              }
            }
            g.gate.countDown();
            Mc.quiesce();
            Mc.eq(waiting, order(), "handled");
            List<String> got = new ArrayList<>();
            for (var r : Mc.trace()) {
              if (r.what.equals("unmapped")) {
                got.add(r.args[0] + "" + r.args[2]);
              }
            }
            Mc.eq(want, got, "payloads of the events that were kept");
            Mc.eq(0, Mc.count("exception"), "exceptions");
            Mc.eq(0, g.r.m.getEventQueueSize(), "queue");
          }).named().weight(3));
    }
    out.add(Scenario.seq("different names are never duplicates of each other", () -> {
      String[] odd = {"", " ", "a", "A", "a ", "Aa", "BB", "a1", "a10", "null", "\u00e9", "e\u0301"};
      Gated g = new Gated(true, 0);
      String p = odd[Mc.choose(odd.length)];
      String q = odd[Mc.choose(odd.length)];
      g.r.m.fire(ev(p));
      g.r.m.fire(ev(q));
      g.r.m.fire(ev(p));
      g.gate.countDown();
      Mc.quiesce();
      Mc.eq(p.equals(q) ? List.of("x", p) : List.of("x", p, q), order(), "handled");
    }));
    out.add(Scenario.seq("fired by a callback, which holds the machine", () -> {
      // what the callbacks of one event fire waits until that event is done
      String at = new String[]{"begin", "exit", "entry", "end"}[Mc.choose(4)];
      List<String> want = new ArrayList<>();
      want.add("x");
      GenericStateMachine<Object, Object>[] m = new GenericStateMachine[1];
      Object own = new Object();
      Ring r = dropRing(config(""), (w, s, e, sm) -> {
        if (w.equals(at) && nm(e).equals("x") && want.size() == 1) {
          for (int i = 0; i < 4; i++) {
            String f = Mc.flip() ? "u" : "n";
            if (!want.contains(f)) {
              want.add(f);
            }
            if (Mc.flip()) {
              Mc.locked(own, () -> m[0].fire(ev(f)));
            } else {
              m[0].fire(ev(f));
            }
          }
        }
      });
      m[0] = r.m;
      r.m.start();
      r.m.fire(ev("x"));
      Mc.quiesce();
      Mc.eq(want, order(), "handled");
    }));
    out.add(Scenario.seq("many waiting events", () -> {
      Gated g = new Gated(true, 0);
      int n = new int[]{1, 10, 100}[Mc.choose(3)];
      int again = Mc.choose(3);
      List<String> want = new ArrayList<>();
      want.add("x");
      for (int k = 0; k <= again; k++) {
        for (int i = 0; i < n; i++) {
          g.r.m.fire(ev("u" + i));
          if (k == 0) {
            want.add("u" + i);
          }
        }
      }
      g.gate.countDown();
      Mc.quiesce();
      Mc.eq(want, order(), "handled");
      for (int i = 0; i < n; i++) {
        g.r.m.fire(ev("u" + i));
      }
      Mc.quiesce();
      Mc.eq(2 * n + 1, order().size(), "handled when none waits any more");
    }));
    int steps = thorough ? 9 : 7;
    out.add(Scenario.seq("every sequence of " + steps + " fires and completions", () -> {
      KStep k = new KStep(true, 0);
      for (int i = 0; i < steps; i++) {
        switch (i == 0 ? 0 : Mc.choose(4)) {
          case 0 -> k.fire("u");
          case 1 -> k.step();
          case 2 -> k.fire("x");
          default -> k.fire("v");
        }
      }
      k.drain();
      Mc.eq(k.handled, KStep.begun(), "handled");
      Mc.eq(0, Mc.count("exception"), "exceptions");
    }).weight(3));
    out.add(Scenario.seq("very many waiting events", () -> {
      Gated g = new Gated(true, 0);
      int n = thorough ? 1500 : 600;
      int again = Mc.flip() ? n - 1 : n / 2;
      for (int i = 0; i < n; i++) {
        g.r.m.fire(ev("u" + i));
      }
      g.r.m.fire(ev("u" + again));
      g.r.m.fire(ev("u0"));
      g.gate.countDown();
      Mc.quiesce();
      Mc.eq(n + 1, order().size(), "handled");
      Mc.eq(1, handled("u" + again), "u" + again);
    }).weight(5));
  }
}
