package vf;

import java.util.List;
import java.util.Random;
import mc.Mc;
import mc.Scenario;

/** Programs for the engine's self-test: bin/check Self --selftest */
public final class Self {

  public static void scenarios(boolean thorough, List<Scenario> out) {
    Random r = new Random(7);
    for (int i = 0; i < (thorough ? 1500 : 300); i++) {
      int nt = 2 + r.nextInt(2);
      int[][] ops = new int[nt][];
      StringBuilder name = new StringBuilder("p" + i);
      for (int t = 0; t < nt; t++) {
        ops[t] = new int[nt == 2 ? 1 + r.nextInt(3) : 1 + r.nextInt(2)];
        name.append(" |");
        for (int k = 0; k < ops[t].length; k++) {
          ops[t][k] = r.nextInt(17);
          name.append(' ').append(ops[t][k]);
        }
      }
      out.add(Scenario.of(name.toString(), () -> {
        ISelf s = new ISelf();
        for (int t = 0; t < ops.length; t++) {
          int tt = t;
          Mc.spawn("t" + t, () -> {
            for (int k = 0; k < ops[tt].length; k++) {
              s.op(ops[tt][k], tt * 3 + k);
            }
          });
        }
        Mc.quiesce();
        s.fin();
      }));
    }
  }
}
