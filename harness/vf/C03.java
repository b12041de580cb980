package vf;

import static vf.Kit.*;

import com.webotech.statemachine.GenericStateMachine;
import com.webotech.statemachine.api.State;
import java.util.List;
import mc.Mc;
import mc.Scenario;

/** Transitions are atomic. */
public final class C03 {

  /** checks, from inside every callback, which state the machine says it is in */
  private static Hook where(GenericStateMachine<Object, Object>[] m, Hook then) {
    return (w, s, e, sm) -> {
      GenericStateMachine<Object, Object> x = m[0];
      if (x != null && !w.equals("end")) {
        Mc.eq(w.equals("begin") && s.equals(UNINIT) ? "A" : s, nm(x.getCurrentState()),
            "current state seen by the " + w + " callback of event " + nm(e));
      }
      if (then != null) {
        then.at(w, s, e, sm);
      }
    };
  }

  @SuppressWarnings("unchecked")
  private static Scenario firers(String name, boolean drop, int pool, boolean racingStart, Hook hook,
      String[]... threads) {
    return Scenario.of(name, () -> {
      var c = config("");
      if (pool > 0) {
        c.withExecutor(Mc.executor(pool, "pool"));
      }
      GenericStateMachine<Object, Object>[] m = new GenericStateMachine[1];
      Hook h = where(m, hook);
      Ring r = drop ? dropRing(c, h) : ring(c, h);
      m[0] = r.m;
      if (!racingStart) {
        r.m.start();
      }
      Mc.Th[] th = new Mc.Th[threads.length];
      for (int i = 0; i < threads.length; i++) {
        String[] mine = threads[i];
        th[i] = Mc.spawn("firer" + i, () -> {
          for (String e : mine) {
            r.m.fire(ev(e));
          }
        });
      }
      if (racingStart) {
        r.m.start();
      }
      for (Mc.Th t : th) {
        t.join();
      }
      Mc.quiesce();
      checkAtomic("", true);
      Mc.eq(0, Mc.count("exception"), "exceptions");
    });
  }

  /** the state seen by every entry and exit action, for every configuration of small machines */
  private static Scenario seen(boolean thorough, int ax) {
    String[] targets = {"A", "B", "C", END, NOOP, null};
    String t0 = targets[ax];
    return Scenario.seq("the state that actions see in every configuration, A+x=" + t0, () -> {
      KRef ref = new KRef();
      ref.init = "A";
      ref.on("A", "x", t0);
      ref.on("A", "y", targets[Mc.choose(5)]);
      String bx = targets[Mc.choose(6)];
      if (bx != null) {
        ref.on("B", "x", bx);
        ref.on("B", "y", targets[Mc.choose(5)]);
      }
      int c = Mc.choose(3);
      if (c == 1) {
        ref.map.put("C", new java.util.LinkedHashMap<>());
        ref.endsAt.add("C");
      } else if (c == 2) {
        ref.on("C", "x", "A");
        ref.on("C", "y", "C");
      }
      GenericStateMachine<Object, Object>[] m = new GenericStateMachine[1];
      Hook h = (w, s, e, sm) -> {
        if (w.equals("entry") || w.equals("exit")) {
          Mc.eq(s, nm(sm.getCurrentState()), "state seen by the " + w + " action for " + nm(e));
          Mc.eq(s, nm(m[0].getCurrentState()), "state seen by the " + w + " action for " + nm(e));
        }
      };
      boolean drop = Mc.flip();
      m[0] = drop ? dropMachine(config(""), listener("", null))
          : machine(config(""), listener("", null));
      java.util.Map<String, com.webotech.statemachine.api.State<Object, Object>> st =
          new java.util.HashMap<>();
      for (String n : new String[]{"A", "B", "C"}) {
        st.put(n, state("", n, h));
      }
      ref.build(m[0], st);
      if (c == 0 || Mc.flip()) {
        m[0].start();
        ref.start();
      } else {
        m[0].startInState(st.get("A"));
        ref.startInState("A");
      }
      for (int i = 0; i < (thorough ? 5 : 4) && !ref.ended; i++) {
        String e = Mc.flip() ? "x" : "y";
        m[0].fire(ev(e));
        ref.fire(e);
        Mc.quiesce();
        Mc.eq(ref.log, Mc.keys(), "effects");
        ref.checkState(m[0]);
      }
    }).weight(4);
  }

  @SuppressWarnings("unchecked")
  public static void scenarios(boolean thorough, List<Scenario> out) {
    Hook fireOnInit = (w, s, e, sm) -> {
      if (w.equals("entry") && s.equals("A") && nm(e).equals(IMMEDIATE)) {
        sm.fire(ev("x"));
      }
    };
    Hook fireTwice = (w, s, e, sm) -> {
      if (w.equals("entry") && s.equals("B")) {
        sm.fire(ev("n"));
        sm.fire(ev("x"));
      }
    };
    String[] x = {"x"};
    String[] n = {"n"};
    out.add(firers("two firers", false, 0, false, null, x, x).weight(4));
    out.add(firers("two firers, drop-duplicates", true, 0, false, null, x, n).weight(4));
    out.add(firers("executor with two threads, two firers", false, 2, false, null, x, x).weight(9));
    out.add(firers("executor with two threads, one firer", false, 2, false, null,
        new String[]{"x", "x"}).weight(8));
    out.add(firers("executor with two threads, mapped and unmapped", false, 2, false, null,
        new String[]{"x", "u"}).weight(8));
    out.add(firers("executor with two threads, action fires", false, 2, false, fireTwice, x).weight(9));
    out.add(firers("drop-duplicates, executor with two threads", true, 2, false, null, x, n).weight(9));
    out.add(firers("firer races start", false, 0, true, null, x).weight(2));
    out.add(firers("two firers race start", false, 0, true, null, x, n).weight(7));
    out.add(firers("initial entry action fires", false, 0, false, fireOnInit, n).weight(3));
    out.add(firers("initial entry action fires, firer races start", false, 0, true, fireOnInit,
        n).weight(5));
    out.add(firers("initial entry action fires, executor with two threads", false, 2, true,
        fireOnInit).weight(5));
    out.add(firers("action fires two events", false, 0, false, fireTwice, x).weight(3));
    for (int a = 0; a < 5; a++) {
      out.add(seen(thorough, a));
    }
    if (thorough) {
      out.add(firers("three firers", false, 0, false, null, x, x, n).weight(20));
      out.add(firers("two firers, two events each", false, 0, false, null, new String[]{"x", "n"},
          new String[]{"x", "u"}).weight(20));
      out.add(firers("executor with three threads, two firers", false, 3, false, null, x, n).weight(
          20));
      out.add(firers("executor with two threads, firer races start", false, 2, true, null,
          x, n).weight(20));
      out.add(firers("executor with two threads, three events", false, 2, false, null,
          new String[]{"x", "x", "n"}).weight(20));
    }
    out.add(Scenario.of("a replaced worker does not overlap the failed one", () -> {
      Ring r = ring(config(""), (w, s, e, sm) -> {
        if (w.equals("unmapped")) {
          throw new AssertionError("boom");
        }
      });
      var m = r.m;
      m.start();
      Mc.Th t = Mc.spawn("f", () -> m.fire(ev("x")));
      m.fire(ev("n"));
      m.fire(ev("x"));
      t.join();
      Mc.quiesce();
      checkAtomic("", true);
    }).weight(5));
    for (int p = 2; p < 4; p++) {
      int pool = p;
      out.add(Scenario.of("many wait for " + p + " executor threads, one fails", () -> {
        Mc.Latch gate = Mc.latch(1);
        Ring r = ring(config("").withExecutor(Mc.executor(pool, "pool"))
            .withUnmappedEventHandler((e, sm) -> {
              if (nm(e).equals("u")) {
                gate.await();
              }
              throw new IllegalStateException("driver");
            }), null);
        r.m.start();
        for (String e : new String[]{"u", "x", "n", "v", "x", "n"}) {
          r.m.fire(ev(e));
        }
        gate.countDown();
        Mc.quiesce();
        checkAtomic("", true);
        Mc.eq("A", nm(r.m.getCurrentState()), "state");
        Mc.eq(2, Mc.count("exception"), "failures");
        Mc.eq(2, Mc.count("entry") - 1, "entries");
      }).bound(thorough ? 2 : 1).weight(5));
    }
    out.add(Scenario.of("an observer sees only states of the path taken, in order", () -> {
      Ring r = ring();
      String[] seen = new String[3];
      boolean[] started = new boolean[3];
      Mc.Th t = Mc.spawn("observer", () -> {
        for (int i = 0; i < 3; i++) {
          started[i] = r.m.isStarted();
          seen[i] = nm(r.m.getCurrentState());
        }
      });
      r.m.start();
      r.m.fire(ev("x"));
      r.m.fire(ev("e"));
      t.join();
      Mc.quiesce();
      List<String> path = List.of("null", "A", "B", END);
      int at = 0;
      for (int i = 0; i < 3; i++) {
        int p = path.indexOf(seen[i]);
        Mc.check(p >= at, "observed " + String.join(",", seen) + " along " + path);
        Mc.check(!started[i] || p > 0, "started without a current state");
        at = p;
      }
    }).weight(4));
  }
}
