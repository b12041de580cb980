package mc;

import java.lang.reflect.Array;
import java.lang.reflect.Field;
import java.lang.reflect.Modifier;
import java.util.ArrayDeque;
import java.util.ArrayList;
import java.util.IdentityHashMap;

/**
 * How much memory the code under test holds on to: a walk over everything that can be reached from
 * some objects, from its static fields and from thread-local variables. Objects of the driver and of the engine, threads,
 * exceptions and weak references count, but are not entered.
 */
final class Reach {

  static final ThreadLocal<ArrayList<Class<?>>> CLASSES = ThreadLocal.withInitial(ArrayList::new);

  private static final ClassValue<Field[]> FIELDS = new ClassValue<>() {
    @Override
    protected Field[] computeValue(Class<?> c) {
      ArrayList<Field> l = new ArrayList<>();
      for (Class<?> k = c; k != null && k != Object.class; k = k.getSuperclass()) {
        if (!entered(k)) {
          continue;
        }
        for (Field f : k.getDeclaredFields()) {
          if (!Modifier.isStatic(f.getModifiers()) && !f.getType().isPrimitive()
              && f.trySetAccessible()) {
            l.add(f);
          }
        }
      }
      return l.toArray(new Field[0]);
    }
  };

  private static boolean entered(Class<?> c) {
    String n = c.getName();
    if (n.startsWith("java.")) {
      return !(n.startsWith("java.lang.") || Throwable.class.isAssignableFrom(c));
    }
    return !n.startsWith("mc.") && !n.startsWith("vf.") && !n.startsWith("jdk.")
        && !n.startsWith("sun.") && !Throwable.class.isAssignableFrom(c)
        && !Thread.class.isAssignableFrom(c) && !ClassLoader.class.isAssignableFrom(c);
  }

  private final IdentityHashMap<Object, Object> seen = new IdentityHashMap<>();
  private final ArrayDeque<Object> todo = new ArrayDeque<>();
  private int size;

  private void add(Object o) {
    if (o != null && seen.put(o, o) == null) {
      size++;
      todo.add(o);
    }
  }

  static int size(Object... roots) {
    try {
      Reach r = new Reach();
      for (Object o : roots) {
        r.add(o);
      }
      for (Class<?> c : CLASSES.get()) {
        for (Field f : c.getDeclaredFields()) {
          if (Modifier.isStatic(f.getModifiers()) && !f.getType().isPrimitive()
              && entered(c) && f.trySetAccessible()) {
            r.add(f.get(null));
          }
        }
      }
      Sched s = Sched.cur();
      if (s != null) {
        for (T t : s.threads) {
          if (t.locals != null) {
            t.locals.values().forEach(r::add);
          }
        }
      }
      r.walk();
      return r.size;
    } catch (IllegalAccessException e) {
      throw new IllegalStateException(e);
    }
  }

  private void walk() throws IllegalAccessException {
    for (Object o = todo.poll(); o != null; o = todo.poll()) {
      Class<?> c = o.getClass();
      if (o instanceof CharSequence s && c.getName().startsWith("java.lang.")) {
        size += s.length() / 4;
      } else if (c.isArray()) {
        int n = Array.getLength(o);
        if (c.getComponentType().isPrimitive()) {
          size += n / 8;
        } else {
          for (Object x : (Object[]) o) {
            add(x);
          }
        }
      } else if (o instanceof McExecutor x) {
        add(x.factory);
        x.tasks().forEach(this::add);
      } else {
        for (Field f : FIELDS.get(c)) {
          add(f.get(o));
        }
      }
    }
  }
}
