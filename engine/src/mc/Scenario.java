package mc;

/** A closed driver: a bounded set of threads and inputs, plus the checks made on every execution. */
public final class Scenario {

  public interface Body {

    void run() throws Throwable;
  }

  public final String name;
  public final Body body;
  /** sequential mode: threads switch only when they block, only data choices branch */
  public boolean seq;
  /** also report data races seen on the code under test */
  public boolean races;
  /** scenario weight, only used to start long ones first */
  public int weight = 1;
  /** steps after which an execution is abandoned (reported as a cap) */
  public int horizon = 4000;
  /** modelled threads of one execution; more are reported as a cap */
  public int maxThreads = 24;
  /** a liveness oracle: threads left blocked are a violation unless they are idle executor workers */
  public boolean checkBlocked = true;
  /** -1: every interleaving; otherwise at most this many preemptions */
  public int bound = -1;

  /** false: explored only as written */
  public boolean dress = true;
  /** true: it needs events that carry payloads, so it has no variant with events of the user's own class */
  public boolean named;

  private Scenario(String name, Body body) {
    this.name = name;
    this.body = body;
  }

  public static Scenario of(String name, Body body) {
    return new Scenario(name, body);
  }

  public static Scenario seq(String name, Body body) {
    Scenario s = new Scenario(name, body);
    s.seq = true;
    s.horizon = 3000000;
    return s;
  }

  public Scenario races() {
    races = true;
    return this;
  }

  public Scenario threads(int n) {
    maxThreads = n;
    return this;
  }

  public Scenario weight(int w) {
    weight = w;
    return this;
  }

  public Scenario named() {
    named = true;
    return this;
  }

  public Scenario asWritten() {
    dress = false;
    return this;
  }

  public Scenario bound(int b) {
    bound = b;
    return this;
  }
}
