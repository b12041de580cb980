package mc;

/** Unwinds a modelled thread after the execution has been decided. */
final class Abort extends Error {

  Abort(String m) {
    super(m, null, false, false);
  }
}
