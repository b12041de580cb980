package vf;

import static vf.Kit.*;

import java.util.ArrayList;
import java.util.List;
import mc.Mc;
import mc.Rec;
import mc.Scenario;

/** A bounded queue holds what it promises. */
public final class C10 {

  private static final class Gated {

    final Ring r;
    final Mc.Latch in = Mc.latch(1);
    final Mc.Latch gate = Mc.latch(1);

    Gated(boolean drop, int max) {
      Hook h = (w, s, e, sm) -> {
        if (w.equals("entry") && nm(e).equals("x")) {
          in.countDown();
          gate.await();
        }
      };
      var c = config("").withMaxQueueSize(max);
      r = drop ? dropRing(c, h) : ring(c, h);
      r.m.start();
      r.m.fire(ev("x"));
      in.await();
    }
  }

  private static void refusals(Ring r, int expected) {
    int n = 0;
    for (Rec x : Mc.trace()) {
      if (x.what.equals("exception")) {
        n++;
        Mc.check(x.args[1].getClass() == IllegalStateException.class,
            "refused with " + x.args[1].getClass());
        Mc.check(x.args[3] == r.m, "another machine");
        Mc.eq(x.thread, ((Thread) x.args[2]).getName(), "thread in the report");
        Mc.check(x.thread.startsWith("main") || x.thread.startsWith("f"),
            "refusal reported on " + x.thread);
      }
    }
    Mc.eq(expected, n, "refused events");
  }

  private static Scenario free(String name, int max, String[]... threads) {
    return Scenario.of(name, () -> {
      Ring r = Mc.flip() ? dropRing(config("").withMaxQueueSize(max), null)
          : ring(config("").withMaxQueueSize(max), null);
      r.m.start();
      Mc.Th[] th = new Mc.Th[threads.length];
      for (int i = 0; i < threads.length; i++) {
        String[] mine = threads[i];
        th[i] = Mc.spawn("f" + i, () -> {
          for (String e : mine) {
            r.m.fire(ev(e));
          }
        });
      }
      int total = 0;
      for (int i = 0; i < threads.length; i++) {
        th[i].join();
        total += threads[i].length;
      }
      Mc.quiesce();
      int refused = Mc.count("exception");
      Mc.check(refused <= Math.max(0, total - max), refused + " of " + total
          + " events refused although " + max + " fit");
      for (String[] t : threads) {
        for (String e : t) {
          Mc.eq(1, handled(e), e + " handled or refused");
        }
      }
      refusals(r, refused);
      Mc.eq(0, r.m.getEventQueueSize(), "queue");
      r.m.fire(ev("late"));
      Mc.quiesce();
      Mc.eq(1, Mc.count("unmapped", "late"), "an event fired at an empty queue");
    });
  }

  public static void scenarios(boolean thorough, List<Scenario> out) {
    for (int dd = 0; dd < 2; dd++) {
      boolean drop = dd == 1;
      String dn = drop ? ", drop-duplicates" : "";
      int maxMax = thorough ? 4 : 3;
      for (int mm = 1; mm <= maxMax; mm++) {
        int max = mm;
        out.add(Scenario.of("two firers at a blocked machine, " + max + " fit" + dn, () -> {
          Gated g = new Gated(drop, max);
          int each = max / 2 + 1;
          Mc.Th[] th = new Mc.Th[2];
          for (int i = 0; i < 2; i++) {
            int me = i;
            th[i] = Mc.spawn("f" + i, () -> {
              for (int k = 0; k < each; k++) {
                g.r.m.fire(ev("u" + me + k));
              }
            });
          }
          th[0].join();
          th[1].join();
          refusals(g.r, Math.max(0, 2 * each - max));
          g.gate.countDown();
          Mc.quiesce();
          refusals(g.r, Math.max(0, 2 * each - max));
          Mc.eq(Math.min(max, 2 * each), Mc.count("unmapped"), "events handled");
          for (int i = 0; i < 2; i++) {
            for (int k = 0; k < each; k++) {
              Mc.eq(1, handled("u" + i + k), "u" + i + k + " handled or refused");
            }
          }
        }).weight(4 + max));
      }
      out.add(Scenario.of("three firers at a blocked machine, 1 fits" + dn, () -> {
        Gated g = new Gated(drop, 1);
        Mc.Th[] th = new Mc.Th[3];
        for (int i = 0; i < 3; i++) {
          int me = i;
          th[i] = Mc.spawn("f" + i, () -> g.r.m.fire(ev("u" + me)));
        }
        for (Mc.Th t : th) {
          t.join();
        }
        refusals(g.r, 2);
        g.gate.countDown();
        Mc.quiesce();
        Mc.eq(1, Mc.count("unmapped"), "events handled");
        g.r.m.fire(ev("late"));
        Mc.quiesce();
        Mc.eq(1, Mc.count("unmapped", "late"), "an event fired at an empty queue");
      }).weight(7));
    }
    out.add(free("two firers, 1 fits", 1, new String[]{"x", "u"}, new String[]{"n"}).weight(8));
    out.add(free("two firers, 2 fit", 2, new String[]{"x", "u"}, new String[]{"n"}).weight(8));
    out.add(free("one firer, 1 fits", 1, new String[]{"x", "n", "u"}).weight(6));
    out.add(free("one firer, 2 fit", 2, new String[]{"x", "n", "u"}).weight(6));
    if (thorough) {
      out.add(free("one firer, four events, 2 fit", 2, new String[]{"x", "n", "u", "v"}).weight(20));
      out.add(free("three firers, 2 fit", 2, new String[]{"x"}, new String[]{"n"},
          new String[]{"u"}).weight(20));
      out.add(free("two firers with two events each, 2 fit", 2, new String[]{"x", "v"},
          new String[]{"n", "u"}).weight(20));
    }
    for (int dd = 0; dd < 2; dd++) {
      boolean drop = dd == 1;
      out.add(Scenario.of("the executor is busy elsewhere, nothing is being processed" + (drop
          ? ", drop-duplicates" : ""), () -> {
        java.util.concurrent.ExecutorService ex = Mc.executor(1, "pool");
        Mc.Latch gate = Mc.latch(1);
        ex.execute(gate::await);
        int max = 1 + Mc.choose(3);
        var c = config("").withMaxQueueSize(max).withExecutor(ex);
        Ring r = drop ? dropRing(c, null) : ring(c, null);
        r.m.start();
        Mc.Th t = Mc.spawn("f", () -> r.m.fire(ev("u-1")));
        for (int i = 0; i < max; i++) {
          r.m.fire(ev("u" + i));
        }
        t.join();
        refusals(r, 1);
        gate.countDown();
        Mc.quiesce();
        refusals(r, 1);
        Mc.eq(max, Mc.count("unmapped"), "events handled");
        for (int i = -1; i < max; i++) {
          Mc.eq(1, handled("u" + i), "u" + i + " handled or refused");
        }
      }).weight(5));
    }
    out.add(Scenario.of("an action fires at its own full queue", () -> {
      Mc.Latch gate = Mc.latch(1);
      Ring r = ring(config("").withMaxQueueSize(1), (w, s, e, sm) -> {
        if (w.equals("entry") && nm(e).equals("x")) {
          gate.await();
          sm.fire(ev("v"));
        }
      });
      r.m.start();
      r.m.fire(ev("x"));
      Mc.quiesce();
      r.m.fire(ev("u"));
      gate.countDown();
      Mc.quiesce();
      Mc.eq(1, Mc.count("exception", "v"), "v refused");
      Mc.eq(1, handled("u"), "u");
      Mc.eq(1, handled("x"), "x");
    }));
    int len = thorough ? 6 : 5;
    out.add(Scenario.seq("every sequence of " + len + " events at a blocked machine", () -> {
      int max = new int[]{1, 2, 3, 4, 100, 0, -1, Integer.MIN_VALUE, Integer.MAX_VALUE}[Mc.choose(
          9)];
      boolean drop = Mc.flip();
      Gated g = new Gated(drop, max);
      List<String> waiting = new ArrayList<>();
      List<String> refused = new ArrayList<>();
      for (int i = 0; i < len; i++) {
        String e = new String[]{"n", "u", "x"}[Mc.choose(3)];
        g.r.m.fire(ev(e));
        Mc.quiesce();
        if (drop && waiting.contains(e)) {
          continue;
        }
        if (max > 0 && waiting.size() >= max) {
          refused.add("exception[" + e + "]");
        } else {
          waiting.add(e);
        }
        List<String> got = new ArrayList<>();
        for (Rec x : Mc.trace()) {
          if (x.what.equals("exception")) {
            got.add("exception[" + x.args[0] + "]");
          }
        }
        Mc.eq(refused, got, "refused with " + waiting + " waiting");
      }
      g.gate.countDown();
      Mc.quiesce();
      refusals(g.r, refused.size());
      List<String> want = new ArrayList<>(waiting);
      want.add(0, "x");
      List<String> o = new ArrayList<>();
      for (Rec x : Mc.trace()) {
        if (x.what.equals("end") && !x.args[1].equals(IMMEDIATE)) {
          o.add((String) x.args[1]);
        } else if (x.what.equals("unmapped")) {
          o.add((String) x.args[0]);
        }
      }
      Mc.eq(want, o, "handled");
    }).weight(3));
    out.add(Scenario.seq("filled and drained again and again", () -> {
      int max = 1 + Mc.choose(3);
      boolean drop = Mc.flip();
      Mc.Latch[] gate = new Mc.Latch[1];
      Hook h = (w, s, e, sm) -> {
        if (w.equals("begin") && nm(e).equals("x")) {
          gate[0].await();
        }
      };
      var c = config("").withMaxQueueSize(max);
      Ring r = drop ? dropRing(c, h) : ring(c, h);
      r.m.start();
      int over = Mc.choose(3);
      for (int round = 0; round < 20; round++) {
        gate[0] = Mc.latch(1);
        r.m.fire(ev("x"));
        Mc.quiesce();
        int refusedBefore = Mc.count("exception");
        for (int i = 0; i < max + over; i++) {
          r.m.fire(ev("u" + i));
        }
        Mc.eq(over, Mc.count("exception") - refusedBefore, "refused in round " + round);
        gate[0].countDown();
        Mc.quiesce();
        Mc.eq(max * (round + 1), Mc.count("unmapped"), "handled by round " + round);
      }
      refusals(r, 20 * over);
    }));
    int steps = thorough ? 9 : 7;
    for (int dd = 0; dd < 2; dd++) {
      boolean drop = dd == 1;
      out.add(Scenario.seq("every sequence of " + steps + " fires and completions" + (drop
          ? ", drop-duplicates" : ""), () -> {
        KStep k = new KStep(drop, 1 + Mc.choose(2));
        for (int i = 0; i < steps; i++) {
          switch (i == 0 ? 0 : Mc.choose(drop ? 4 : 3)) {
            case 0 -> k.fire("u");
            case 1 -> k.step();
            case 2 -> k.fire("x");
            default -> k.fire("v");
          }
          Mc.eq(k.refused, KStep.reported("exception"), "refused with " + k.current
              + " in processing, waiting " + k.waiting);
        }
        k.drain();
        Mc.eq(k.refused, KStep.reported("exception"), "refused");
        Mc.eq(k.handled, KStep.begun(), "handled");
        refusals(k.r, k.refused.size());
      }).weight(3));
      out.add(Scenario.seq("large bounds are filled exactly" + (drop ? ", drop-duplicates" : ""),
          () -> {
            int max = new int[]{63, 64, 65, 127, 256, 1000}[Mc.choose(thorough ? 6 : 5)];
            Gated g = new Gated(drop, max);
            for (int i = 0; i < max + 2; i++) {
              g.r.m.fire(ev("u" + i));
            }
            Mc.eq(List.of("u" + max, "u" + (max + 1)), KStep.reported("exception"), "refused");
            g.gate.countDown();
            Mc.quiesce();
            Mc.eq(max, Mc.count("unmapped"), "handled");
            refusals(g.r, 2);
          }).weight(5));
    }
    out.add(Scenario.seq("a very large bound is filled exactly", () -> {
      int max = 33_000;
      Gated g = new Gated(false, max);
      for (int i = 0; i < max + 2; i++) {
        g.r.m.fire(ev("u" + i));
      }
      Mc.eq(List.of("u" + max, "u" + (max + 1)), KStep.reported("exception"), "refused");
      g.gate.countDown();
      Mc.quiesce();
      Mc.eq(max, Mc.count("unmapped"), "handled");
    }).weight(8));
    out.add(Scenario.seq("however it is configured", () -> {
      int[] sizes = {1, 2, 0, -1, Integer.MAX_VALUE};
      int first = Mc.choose(3);
      int max = sizes[Mc.choose(sizes.length)];
      var c = config("");
      int[] order = Mc.flip() ? new int[]{0, 1, 2, 3} : new int[]{3, 2, 1, 0};
      int q = Mc.choose(5);
      int ex = Mc.choose(3);
      for (int o : order) {
        switch (o) {
          case 0 -> {
            if (first > 0) {
              c.withMaxQueueSize(first == 1 ? 1 : 3).withMaxQueueSize(max);
            } else {
              c.withMaxQueueSize(max);
            }
          }
          case 1 -> {
            if (q > 0) {
              c.withEventQueue(switch (q) {
                case 1 -> new java.util.concurrent.LinkedBlockingQueue<>();
                case 2 -> new java.util.concurrent.ConcurrentLinkedQueue<>();
                case 3 -> new java.util.concurrent.ConcurrentLinkedDeque<>();
                default -> new java.util.concurrent.ArrayBlockingQueue<>(50);
              });
            }
          }
          case 2 -> {
            if (ex == 1) {
              c.withExecutor(Mc.executor(1, "pool"));
            } else if (ex == 2) {
              c.withThreadName("own");
            }
          }
          default -> {
          }
        }
      }
      boolean drop = Mc.flip();
      KStep k = new KStep(drop, KStep.KEEP, c);
      k.max = max;
      for (int i = 0; i < 3; i++) {
        k.fire("u" + i);
      }
      k.step();
      for (int i = 3; i < 7; i++) {
        k.fire("u" + i);
      }
      Mc.eq(k.refused, KStep.reported("exception"), "refused");
      k.drain();
      Mc.eq(k.handled, KStep.begun(), "handled");
      refusals(k.r, k.refused.size());
      Mc.eq(0, k.r.m.getEventQueueSize(), "queue size");
    }));
    out.add(Scenario.seq("no bound, many waiting", () -> {
      Gated g = new Gated(false, new int[]{0, -1, -7}[Mc.choose(3)]);
      int n = thorough ? 3000 : 1100;
      for (int i = 0; i < n; i++) {
        g.r.m.fire(ev("u" + i));
      }
      Mc.eq(0, Mc.count("exception"), "refused");
      g.gate.countDown();
      Mc.quiesce();
      Mc.eq(n, Mc.count("unmapped"), "handled");
    }).weight(5));
  }
}
