package vf;

import static vf.Kit.*;

import java.util.ArrayList;
import java.util.List;
import mc.Mc;
import mc.Scenario;

/** Events are handled in the order they were received. */
public final class C02 {

  private static void before(String a, String b) {
    List<String> o = order();
    Mc.check(o.contains(a) && o.contains(b) && o.indexOf(a) < o.indexOf(b),
        a + " must be handled before " + b + " but the order was " + o);
  }

  private static Ring make(int kind, Hook h) {
    return kind == 0 ? ring(config(""), h) : kind == 1 ? dropRing(config(""), h)
        : ring(config("").withMaxQueueSize(100), h);
  }

  public static void scenarios(boolean thorough, List<Scenario> out) {
    String[] names = {"default", "drop-duplicates", "bounded"};
    for (int kind = 0; kind < 3; kind++) {
      int k = kind;
      out.add(Scenario.of("one firer, three events, " + names[k], () -> {
        Ring r = make(k, null);
        r.m.start();
        r.m.fire(ev("x"));
        r.m.fire(ev("n"));
        r.m.fire(ev("u"));
        Mc.quiesce();
        Mc.eq(List.of("x", "n", "u"), order(), "order");
      }).weight(2));
      out.add(Scenario.of("two firers, program order kept, " + names[k], () -> {
        Ring r = make(k, null);
        r.m.start();
        Mc.Th t = Mc.spawn("f1", () -> {
          r.m.fire(ev("x"));
          r.m.fire(ev("u"));
        });
        Mc.Th t2 = Mc.spawn("f2", () -> {
          r.m.fire(ev("n"));
          if (thorough) {
            r.m.fire(ev("v"));
          }
        });
        t.join();
        t2.join();
        Mc.quiesce();
        before("x", "u");
        if (thorough) {
          before("n", "v");
        }
        Mc.eq(thorough ? 4 : 3, order().size(), "handled");
      }).weight(8));
      out.add(Scenario.of("handed over between firing threads, " + names[k], () -> {
        Ring r = make(k, null);
        r.m.start();
        Mc.Latch l = Mc.latch(1);
        Mc.Th t = Mc.spawn("f1", () -> {
          r.m.fire(ev("x"));
          l.countDown();
        });
        Mc.Th t2 = Mc.spawn("f2", () -> {
          l.await();
          r.m.fire(ev("u"));
        });
        r.m.fire(ev("n"));
        t.join();
        t2.join();
        Mc.quiesce();
        before("x", "u");
      }).weight(5));
      out.add(Scenario.of("event fired by an action queues behind waiting ones, " + names[k], () -> {
        Mc.Latch gate = Mc.latch(1);
        Ring r = make(k, (w, s, e, sm) -> {
          if (w.equals("entry") && s.equals("B")) {
            gate.await();
            sm.fire(ev("v"));
          }
        });
        r.m.start();
        r.m.fire(ev("x"));
        r.m.fire(ev("n"));
        r.m.fire(ev("u"));
        gate.countDown();
        Mc.quiesce();
        Mc.eq(List.of("x", "n", "u", "v"), order(), "order");
      }));
      out.add(Scenario.of("order survives a failing event, " + names[k], () -> {
        boolean error = Mc.flip();
        Ring r = make(k, (w, s, e, sm) -> {
          if (w.equals("entry") && s.equals("B")) {
            Kit.<RuntimeException>sneak(
                error ? new AssertionError("boom") : new IllegalStateException("boom"));
          }
        });
        r.m.start();
        r.m.fire(ev("n"));
        r.m.fire(ev("x"));
        r.m.fire(ev("u"));
        if (k == 0) {
          r.m.fire(ev("v"));
        }
        Mc.quiesce();
        List<String> want = new ArrayList<>(List.of("n", "x", "u"));
        if (error) {
          want.remove("x");
        }
        if (k == 0) {
          want.add("v");
        }
        Mc.eq(want, order(), "order");
      }).weight(3));
    }
    out.add(Scenario.of("events fired during start keep their order", () -> {
      Ring r = ring(config(""), (w, s, e, sm) -> {
        if (w.equals("entry") && s.equals("A") && nm(e).equals(IMMEDIATE)) {
          sm.fire(ev("x"));
          sm.fire(ev("n"));
        }
      });
      r.m.start();
      r.m.fire(ev("u"));
      Mc.quiesce();
      Mc.eq(List.of("x", "n", "u"), order(), "order");
    }).weight(2));
    int depth = thorough ? 7 : 5;
    out.add(Scenario.seq("all event sequences up to length " + depth, () -> {
      int kind = Mc.choose(3);
      Ring r = make(kind, null);
      r.m.start();
      int n = 1 + Mc.choose(depth);
      List<String> want = new ArrayList<>();
      String[] al = {"x", "n", "u", "v"};
      for (int i = 0; i < n; i++) {
        String e = al[Mc.choose(4)];
        if (kind == 1 && want.contains(e)) {
          e = e + i;
        }
        want.add(e);
        r.m.fire(ev(e));
      }
      Mc.quiesce();
      Mc.eq(want, order(), "order");
    }).weight(4));
  }
}
