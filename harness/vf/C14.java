package vf;

import static vf.Kit.*;

import com.webotech.statemachine.GenericStateMachine;
import java.util.List;
import mc.Mc;
import mc.Rec;
import mc.Scenario;

/** The queue size counts the events that have not completed. */
public final class C14 {

  private static Ring make(int kind, Hook h) {
    var c = config("");
    return kind == 1 ? dropRing(c, h) : ring(kind == 2 ? c.withMaxQueueSize(2)
        : kind == 3 ? c.withExecutor(Mc.executor(2, "pool")) : c, h);
  }

  public static void scenarios(boolean thorough, List<Scenario> out) {
    String[] names = {"default", "drop-duplicates", "bounded", "two executor threads"};
    for (int kk = 0; kk < 4; kk++) {
      int kind = kk;
      out.add(Scenario.of("zero at rest, in range before, " + names[kk], () -> {
        Ring r = make(kind, null);
        Mc.eq(0, r.m.getEventQueueSize(), "before start");
        r.m.start();
        Mc.eq(0, r.m.getEventQueueSize(), "after start");
        Mc.Th t = Mc.spawn("f", () -> r.m.fire(ev("x")));
        Mc.Th o = Mc.spawn("observer", () -> {
          int n = r.m.getEventQueueSize();
          Mc.check(n >= 0 && n <= 2, "queue size " + n + " with two events fired");
        });
        r.m.fire(ev("n"));
        t.join();
        o.join();
        Mc.quiesce();
        Mc.eq(0, r.m.getEventQueueSize(), "at rest");
      }).weight(7));
      out.add(Scenario.of("an event counts until it has completed, " + names[kk], () -> {
        Ring r = make(kind, null);
        r.m.start();
        r.m.fire(ev("x"));
        int n = r.m.getEventQueueSize();
        int closed = Mc.index("end", "A", "x");
        Mc.check(n == 1 || n == 0, "queue size " + n + " with one event");
        Mc.check(n == 1 || closed >= 0, "queue size 0 although x has not completed");
        Mc.quiesce();
        Mc.eq(0, r.m.getEventQueueSize(), "at rest");
      }).weight(3));
      out.add(Scenario.of("the size never drops before a callback of the event, " + names[kk], () -> {
        Ring[] r = new Ring[1];
        Hook h = (w, s, e, sm) -> {
          if (r[0] != null && !nm(e).equals(IMMEDIATE)) {
            int n = r[0].m.getEventQueueSize();
            Mc.check(n >= 1, w + " callback of " + nm(e) + " sees queue size " + n);
            Mc.check(n <= 2, w + " callback of " + nm(e) + " sees queue size " + n);
          }
        };
        r[0] = make(kind, h);
        r[0].m.start();
        Mc.Th t = Mc.spawn("f", () -> r[0].m.fire(ev("x")));
        r[0].m.fire(ev("n"));
        t.join();
        Mc.quiesce();
        Mc.eq(0, r[0].m.getEventQueueSize(), "at rest");
      }).weight(6));
      out.add(Scenario.of("stopped with waiting events, " + names[kk], () -> {
        Ring r = make(kind, null);
        r.m.start();
        r.m.fire(ev("x"));
        r.m.fire(ev("n"));
        r.m.stop();
        Mc.quiesce();
        Mc.eq(0, r.m.getEventQueueSize(), "at rest");
        r.m.fire(ev("x"));
        Mc.eq(0, r.m.getEventQueueSize(), "after the end");
      }).weight(5));
      int len = thorough ? 6 : 5;
      out.add(Scenario.seq("every sequence at a blocked machine, " + names[kk], () -> {
        Mc.Latch gate = Mc.latch(1);
        int fail = Mc.choose(3);
        int[] k = {0};
        Ring[] r = new Ring[1];
        Hook h = (w, s, e, sm) -> {
          if (w.equals("entry") && nm(e).equals("x")) {
            if (k[0]++ == 0) {
              gate.await();
            }
            if (fail > 0) {
              Kit.<RuntimeException>sneak(
                  fail == 1 ? new IllegalStateException("boom") : new AssertionError("boom"));
            }
          }
        };
        r[0] = make(kind, h);
        r[0].m.start();
        r[0].m.fire(ev("x"));
        Mc.quiesce();
        Mc.eq(1, r[0].m.getEventQueueSize(), "one event in processing");
        java.util.List<String> w = new java.util.ArrayList<>();
        for (int i = 0; i < len; i++) {
          String e = new String[]{"x", "n", "u"}[Mc.choose(3)];
          r[0].m.fire(ev(e));
          if (!(kind == 1 && w.contains(e)) && !(kind == 2 && w.size() == 2)) {
            w.add(e);
          }
          Mc.eq(1 + w.size(), r[0].m.getEventQueueSize(), "one in processing, waiting " + w);
          if (kind == 3) {
            Mc.quiesce();
          }
        }
        boolean stop = Mc.flip();
        if (stop) {
          r[0].m.stop();
        }
        gate.countDown();
        Mc.quiesce();
        Mc.eq(0, r[0].m.getEventQueueSize(), "at rest");
        r[0].m.fire(ev("u"));
        Mc.quiesce();
        Mc.eq(0, r[0].m.getEventQueueSize(), "at rest again");
      }).weight(3));
    }
    for (int kk = 0; kk < 4; kk++) {
      int kind = kk;
      out.add(Scenario.of("the event that ends the machine counts until it has completed, "
          + names[kk], () -> {
        Ring[] r = new Ring[1];
        String stopAt = new String[]{null, "begin", "exit", "entry", "end"}[Mc.choose(5)];
        String name = stopAt == null ? "e" : "x";
        boolean unmapped = stopAt == null && Mc.flip();
        Hook h = (w, s, e, sm) -> {
          if (r[0] != null && !nm(e).equals(IMMEDIATE)) {
            if (w.equals(stopAt)) {
              r[0].m.stop();
            }
            int n = r[0].m.getEventQueueSize();
            Mc.check(n >= 1, w + " callback of " + nm(e) + " sees queue size " + n);
            Mc.check(n <= 2, w + " callback of " + nm(e) + " sees queue size " + n);
          }
        };
        r[0] = make(kind, h);
        r[0].m.start();
        Mc.Th t = Mc.spawn("f", () -> r[0].m.fire(ev(name)));
        if (unmapped) {
          r[0].m.fire(ev("u"));
        }
        t.join();
        Mc.quiesce();
        Mc.check(r[0].m.isEnded(), "ended");
        Mc.eq(0, Mc.count("exception"), "failures");
        Mc.eq(0, r[0].m.getEventQueueSize(), "at rest");
      }).weight(5));
      out.add(Scenario.seq("stopped from outside while a callback blocks, " + names[kk], () -> {
        Mc.Latch gate = Mc.latch(1);
        String at = new String[]{"begin", "exit", "entry", "end"}[Mc.choose(4)];
        Hook h = (w, s, e, sm) -> {
          if (w.equals(at) && nm(e).equals("x")) {
            gate.await();
          }
        };
        Ring r = make(kind, h);
        r.m.start();
        r.m.fire(ev("x"));
        Mc.quiesce();
        int n = Mc.choose(3);
        for (int i = 0; i < n; i++) {
          r.m.fire(ev(i == 0 ? "n" : "u"));
        }
        Mc.eq(1 + n, r.m.getEventQueueSize(), "one in processing, waiting " + n);
        if (kind == 3) {
          Mc.quiesce();
        }
        r.m.stop();
        int left = r.m.getEventQueueSize();
        Mc.check(kind == 3 ? left >= 1 && left <= 1 + n : left == 1 + n,
            "queue size " + left + " after a stop with one in processing, waiting " + n);
        r.m.fire(ev("x"));
        Mc.check(r.m.getEventQueueSize() <= left, "an event after the end is not accepted");
        gate.countDown();
        Mc.quiesce();
        Mc.eq(0, r.m.getEventQueueSize(), "at rest");
      }));
    }
    out.add(Scenario.seq("long runs return to zero", () -> {
      int kind = Mc.choose(4);
      int batch = new int[]{1, 7, 60}[Mc.choose(3)];
      int fail = Mc.choose(3);
      Hook h = (w, s, e, sm) -> {
        if (w.equals("entry") && s.equals("B") && fail > 0) {
          Kit.<RuntimeException>sneak(
              fail == 1 ? new IllegalStateException("boom") : new AssertionError("boom"));
        }
      };
      Ring r = make(kind, h);
      r.m.start();
      for (int i = 0; i < 300; i++) {
        r.m.fire(ev(new String[]{"x", "n", "u"}[i % 3]));
        if (i % batch == batch - 1) {
          Mc.quiesce();
          Mc.eq(0, r.m.getEventQueueSize(), "after " + (i + 1) + " events");
        }
      }
      Mc.quiesce();
      Mc.eq(0, r.m.getEventQueueSize(), "at the end");
    }).threads(400));
    out.add(Scenario.of("events fired by actions are counted", () -> {
      GenericStateMachine<Object, Object>[] m = new GenericStateMachine[1];
      Hook h = (w, s, e, sm) -> {
        if (w.equals("entry") && nm(e).equals("x")) {
          Mc.eq(1, sm.getEventQueueSize(), "only x is under way");
          sm.fire(ev("n"));
          Mc.eq(2, sm.getEventQueueSize(), "x is under way and n waits");
        }
      };
      Ring r = make(Mc.choose(3), h);
      r.m.start();
      r.m.fire(ev("x"));
      Mc.quiesce();
      Mc.eq(0, r.m.getEventQueueSize(), "at rest");
    }));
    int steps = thorough ? 9 : 7;
    for (int kk = 0; kk < 2; kk++) {
      boolean drop = kk == 1;
      out.add(Scenario.seq("every sequence of " + steps + " fires and completions, " + names[kk],
          () -> {
            KStep k = new KStep(drop, 0);
            int n = 0;
            for (int i = 0; i < steps; i++) {
              switch (i == 0 ? 0 : Mc.choose(3)) {
                case 0 -> k.fire("u" + n++);
                case 1 -> k.step();
                default -> k.fire(Mc.flip() ? "x" + n++ : "e");
              }
              Mc.eq(k.waiting.size() + (k.current == null ? 0 : 1), k.r.m.getEventQueueSize(),
                  k.current + " in processing, waiting " + k.waiting + (k.ended ? ", ended" : ""));
            }
            k.drain();
            Mc.eq(0, k.r.m.getEventQueueSize(), "at rest");
          }).weight(3));
    }
    out.add(Scenario.seq("many waiting events are counted", () -> {
      int kind = Mc.choose(2);
      Mc.Latch gate = Mc.latch(1);
      Ring r = make(kind, (w, s, e, sm) -> {
        if (w.equals("entry") && nm(e).equals("x")) {
          gate.await();
        }
      });
      r.m.start();
      r.m.fire(ev("x"));
      Mc.quiesce();
      for (int i = 0; i < 600; i++) {
        r.m.fire(ev("u" + i));
        Mc.eq(2 + i, r.m.getEventQueueSize(), "one in processing, waiting " + (1 + i));
      }
      gate.countDown();
      Mc.quiesce();
      Mc.eq(0, r.m.getEventQueueSize(), "at rest");
    }).weight(5));
  }
}
