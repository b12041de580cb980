package mc;

import java.util.Arrays;

/** Open-addressing set of 64-bit state fingerprints. */
final class StateSet {

  static final int CAP = 1 << 24;
  long[] t = new long[1 << 12];
  int n;
  boolean full;

  void add(long h) {
    if (h == 0) {
      h = 1;
    }
    if (full) {
      return;
    }
    int m = t.length - 1;
    int i = (int) (h ^ (h >>> 32)) & m;
    while (t[i] != 0) {
      if (t[i] == h) {
        return;
      }
      i = (i + 1) & m;
    }
    t[i] = h;
    if (++n * 10L > t.length * 6L) {
      if (t.length >= CAP) {
        full = true;
        return;
      }
      long[] o = t;
      t = new long[o.length * 2];
      m = t.length - 1;
      for (long x : o) {
        if (x != 0) {
          int j = (int) (x ^ (x >>> 32)) & m;
          while (t[j] != 0) {
            j = (j + 1) & m;
          }
          t[j] = x;
        }
      }
    }
  }

  void clear() {
    Arrays.fill(t, 0);
    n = 0;
    full = false;
  }
}
