package mc;

import java.util.HashSet;
import java.util.List;
import java.util.Set;
import java.util.TreeSet;

/**
 * Cross-validates the reduction: for many small generated programs the outcomes (and deadlocks)
 * found by DPOR must be exactly those found by enumerating every schedule without reduction.
 */
final class SelfTest {

  static int run() throws Exception {
    int[] code = {0};
    Carrier c = new Carrier(() -> {
      try {
        long dpor = 0, full = 0;
        int n = 0, skipped = 0;
        List<Scenario> l = Main.scenarios();
        for (Scenario sc : l) {
          long[] e1 = new long[2];
          Set<String> a = outcomes(sc, -1, e1);
          long[] e2 = new long[2];
          Set<String> b = outcomes(sc, 1000, e2);
          if (a == null || b == null) {
            skipped++;
            continue;
          }
          dpor += e1[0];
          full += e2[0];
          n++;
          if (!a.equals(b)) {
            code[0] = 1;
            Set<String> d = new TreeSet<>(b);
            d.removeAll(a);
            System.out.println("MISMATCH " + sc.name + " dpor=" + a.size() + " full=" + b.size()
                + " missing=" + d);
          }
        }
        System.out.println(
            "selftest programs=" + n + " skipped (too large)=" + skipped + " dpor executions=" + dpor + " full executions=" + full
                + (code[0] == 0 ? " outcomes agree" : " MISMATCH"));
      } catch (Throwable t) {
        t.printStackTrace();
        code[0] = 2;
      }
    }, "selftest");
    c.start();
    c.join();
    return code[0];
  }

  static Set<String> outcomes(Scenario sc, int bound, long[] execs) {
    Sched s = new Sched();
    s.states = new StateSet();
    s.bound = bound;
    Set<String> out = new HashSet<>();
    while (true) {
      boolean ok = s.runOnce(sc);
      if (s.divergence) {
        throw new IllegalStateException("divergence in " + sc.name);
      }
      if (ok) {
        TreeSet<String> k = new TreeSet<>();
        for (Rec r : s.trace) {
          k.add(r.toString());
        }
        out.add(s.violation != null ? "V:" + s.violation.replaceAll(" at .*", "") : k.toString());
      }
      if (++execs[0] > 40_000) {
        return null;
      }
      execs[1] = s.pruned;
      if (!s.advance()) {
        return out;
      }
    }
  }
}
