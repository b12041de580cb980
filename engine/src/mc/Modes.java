package mc;

/** Access modes and the dependency relation between them. */
final class Modes {

  static final int R = 0, W = 1, ACQ = 2, REL = 3, PUT = 4, TAKE = 5, SIG = 6, AWT = 7, N = 8;
  static final String[] NAMES = {"read", "write", "acquire", "release", "put", "take", "signal", "await"};

  /** Reversible conflict: both orders are possible from some state and may lead to different results. */
  static final boolean[][] RACE = new boolean[N][N];
  /** Ordering: a later b is ordered after an earlier a. Superset of RACE. */
  static final boolean[][] ORDER = new boolean[N][N];

  static {
    for (int a = 0; a < N; a++) {
      sym(W, a);
    }
    for (int a : new int[]{ACQ, REL, PUT, TAKE, SIG}) {
      sym(R, a);
    }
    sym(ACQ, ACQ);
    sym(PUT, PUT);
    sym(TAKE, TAKE);
    for (int a = 0; a < N; a++) {
      for (int b = 0; b < N; b++) {
        ORDER[a][b] = RACE[a][b];
      }
    }
    ORDER[REL][ACQ] = true;
    ORDER[SIG][AWT] = true;
  }

  private static void sym(int a, int b) {
    RACE[a][b] = true;
    RACE[b][a] = true;
  }
}
