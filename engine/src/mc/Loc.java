package mc;

/** One shared location of the current execution, with what the exploration and the race monitor remember about it. */
final class Loc {

  final String what;
  /** last step index per mode and thread, -1 if none */
  final int[][] last = new int[Modes.N][];
  /** join of the dependency clocks of the steps in each mode */
  final int[][] clock = new int[Modes.N][];
  /** synchronisation clock (Java memory model order) */
  int[] sc;
  // plain-access history for the race monitor
  int wTid = -1;
  int wClk;
  int wSite;
  int[] rClk;
  int[] rSite;

  // the same for accesses of other modes to atomic variables
  int[] awClk;
  int[] arClk;
  int[] aSite;

  Loc(String what) {
    this.what = what;
  }

  void record(int mode, int tid, int step, int[] c) {
    int[] l = last[mode];
    if (l == null) {
      l = last[mode] = new int[c.length];
      java.util.Arrays.fill(l, -1);
    }
    l[tid] = step;
    int[] k = clock[mode];
    if (k == null) {
      clock[mode] = c.clone();
    } else {
      Sched.join(k, c);
    }
  }
}
