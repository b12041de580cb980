package mc;

import java.lang.invoke.MethodHandle;
import java.lang.invoke.MethodHandles;
import java.lang.invoke.MethodType;
import java.util.ArrayList;

/** Classes whose static initialiser is run again before every execution, per carrier. */
final class Statics {

  static final ThreadLocal<ArrayList<MethodHandle>> LIST = ThreadLocal.withInitial(ArrayList::new);

  static void register(Class<?> c) {
    try {
      var m = c.getDeclaredMethod("mc$clinit");
      m.setAccessible(true);
      Reach.CLASSES.get().add(c);
      LIST.get().add(MethodHandles.lookup().unreflect(m));
    } catch (ReflectiveOperationException e) {
      throw new IllegalStateException(e);
    }
  }

  static void reset() {
    ArrayList<MethodHandle> l = LIST.get();
    for (int i = 0; i < l.size(); i++) {
      try {
        l.get(i).invokeExact();
      } catch (Throwable e) {
        throw new IllegalStateException("static initialiser failed", e);
      }
    }
  }
}
