package mc;

/** One recorded observation of an execution. */
public final class Rec {

  public final int seq;
  public final String thread;
  public final String what;
  public final Object[] args;

  Rec(int seq, String thread, String what, Object... args) {
    this.seq = seq;
    this.thread = thread;
    this.what = what;
    this.args = args;
  }

  public boolean is(String w, Object... a) {
    if (!what.equals(w) || args.length < a.length) {
      return false;
    }
    for (int i = 0; i < a.length; i++) {
      if (a[i] != null && !a[i].equals(args[i])) {
        return false;
      }
    }
    return true;
  }

  public String key() {
    if (args.length == 0) {
      return what;
    }
    StringBuilder b = new StringBuilder(what).append('[');
    for (int i = 0; i < args.length; i++) {
      Object a = args[i];
      b.append(i > 0 ? ", " : "");
      if (a == null || a instanceof String || a instanceof Number || a instanceof Boolean
          || a instanceof java.util.Collection) {
        b.append(a);
      } else if (a instanceof Thread t) {
        b.append(t.getName());
      } else if (a instanceof Throwable t) {
        b.append(t.getClass().getSimpleName());
      } else {
        b.append(a.getClass().getSimpleName());
      }
    }
    return b.append(']').toString();
  }

  @Override
  public String toString() {
    return key() + "@" + thread;
  }
}
