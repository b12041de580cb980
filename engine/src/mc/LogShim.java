package mc;

import java.lang.reflect.Proxy;
import java.util.Arrays;
import org.apache.logging.log4j.Level;
import org.apache.logging.log4j.LogBuilder;
import org.apache.logging.log4j.Logger;
import org.apache.logging.log4j.message.Message;
import org.apache.logging.log4j.message.ParameterizedMessage;
import org.apache.logging.log4j.util.Supplier;

/** Stand-in for LogManager: loggers that write nothing and, on request, keep what was logged. */
public final class LogShim {

  private LogShim() {
  }

  private static final Logger LOGGER = (Logger) Proxy.newProxyInstance(
      LogShim.class.getClassLoader(), new Class<?>[]{Logger.class}, (p, m, a) -> {
        String n = m.getName();
        switch (n) {
          case "info", "warn", "error", "debug", "trace", "fatal" -> {
            Sched s = Sched.cur();
            if (s != null && s.wantLogs && a != null && a.length > 0) {
              log(s, n, a);
            }
            return null;
          }
          case "log", "logMessage" -> {
            Sched s = Sched.cur();
            if (s != null && s.wantLogs && a != null && a.length > 1 && a[0] instanceof Level l) {
              log(s, l.name().toLowerCase(), Arrays.copyOfRange(a, 1, a.length));
            }
            return null;
          }
          case "atInfo", "atWarn", "atError", "atDebug", "atTrace", "atFatal" -> {
            return builder(n.substring(2).toLowerCase());
          }
          case "atLevel" -> {
            return builder(((Level) a[0]).name().toLowerCase());
          }
          case "equals" -> {
            return p == a[0];
          }
          case "hashCode" -> {
            return 7;
          }
          case "toString", "getName" -> {
            return "mc-logger";
          }
          default -> {
          }
        }
        Class<?> r = m.getReturnType();
        if (r == boolean.class) {
          return !n.equals("isDebugEnabled") && !n.equals("isTraceEnabled");
        }
        return null;
      });

  private static LogBuilder builder(String level) {
    Throwable[] t = new Throwable[1];
    return (LogBuilder) Proxy.newProxyInstance(LogShim.class.getClassLoader(),
        new Class<?>[]{LogBuilder.class}, (p, m, a) -> {
          switch (m.getName()) {
            case "withThrowable" -> t[0] = (Throwable) a[0];
            case "log", "logAndGet" -> {
              Sched s = Sched.cur();
              if (s != null && s.wantLogs && a != null && a.length > 0) {
                Object[] b = a;
                if (t[0] != null) {
                  b = Arrays.copyOf(flat(a), flat(a).length + 1);
                  b[b.length - 1] = t[0];
                }
                log(s, level, b);
              }
            }
            default -> {
            }
          }
          return m.getReturnType() == LogBuilder.class ? p : null;
        });
  }

  private static Object[] flat(Object[] a) {
    if (a.length == 2 && a[1] instanceof Object[] v) {
      Object[] r = new Object[v.length + 1];
      r[0] = a[0];
      System.arraycopy(v, 0, r, 1, v.length);
      return r;
    }
    return a;
  }

  /** keeps level, text and the exception that goes with it */
  private static void log(Sched s, String level, Object[] call) {
    if (level.equals("debug") || level.equals("trace")) {
      return; // off, as by default
    }
    Object[] a = flat(call).clone();
    for (int i = 0; i < a.length; i++) {
      if (a[i] instanceof Supplier<?> f) {
        a[i] = f.get();
      }
    }
    String text;
    Throwable t = null;
    if (a[0] instanceof Message m) {
      text = m.getFormattedMessage();
      t = m.getThrowable();
    } else if (a.length == 1) {
      text = String.valueOf(a[0]);
    } else {
      ParameterizedMessage m = new ParameterizedMessage(String.valueOf(a[0]),
          Arrays.copyOfRange(a, 1, a.length));
      text = m.getFormattedMessage();
      t = m.getThrowable();
    }
    if (t == null && a[a.length - 1] instanceof Throwable x) {
      t = x;
    }
    s.trace.add(new Rec(s.trace.size(), s.current.name, "log", level, text, t));
  }

  public static Logger getLogger(Class<?> c) {
    return LOGGER;
  }

  public static Logger getLogger() {
    return LOGGER;
  }

  public static Logger getLogger(String c) {
    return LOGGER;
  }

  public static Logger getLogger(Object c) {
    return LOGGER;
  }

  public static Logger getRootLogger() {
    return LOGGER;
  }
}
