package mc;

import java.io.File;
import java.io.IOException;
import java.io.PrintWriter;
import java.io.StringWriter;
import java.lang.reflect.InvocationTargetException;
import java.net.URL;
import java.net.URLClassLoader;
import java.nio.file.Files;
import java.nio.file.Path;
import java.util.ArrayList;
import java.util.Arrays;
import java.util.Comparator;
import java.util.HashSet;
import java.util.List;
import java.util.Locale;
import java.util.Map;
import java.util.TreeMap;
import java.util.concurrent.ConcurrentLinkedQueue;
import javax.tools.JavaCompiler;
import javax.tools.StandardJavaFileManager;
import javax.tools.ToolProvider;

/** Compiles and instruments the tree, explores every scenario of one property, writes evidence. */
public final class Main {

  static String property;
  static String tier;
  static Path work;
  static List<String> classNames;
  static long deadline;
  static volatile boolean stop;
  static final Object OUT = new Object();
  static int violations;
  static final List<String> errors = new ArrayList<>();
  static final List<Known> known = new ArrayList<>();

  record Known(String property, String scenario, String match, String text) {

  }

  static final class Result {

    String name;
    boolean complete;
    boolean done;
    boolean seq;
    long executions, pruned, capped, transitions, states, diverged, maxSteps, millis;
    int threads;
    int outcomes;
    int boundCompleted = -1;
    /** the scenario itself asks for a preemption bound: complete means within it */
    boolean bounded;
    String violation;
    String known;
    String sample;
    /** the result of the scenario as written, of which this one is a dressed variant */
    Result plain;
  }

  /** variants of every scenario that leaves names, payloads and the like to {@link Mc#dress} */
  static final int DRESSES = 3;
  static final String DRESSED = " / dressed ";
  /** above this many transitions a dressed variant is explored with at most one preemption */
  static final long SMALL = 300_000;
  static final long SMALL_THOROUGH = 1_000_000;

  public static void main(String[] a) throws Exception {
    try {
      System.exit(run(a));
    } catch (Throwable t) {
      t.printStackTrace();
      System.exit(2);
    }
  }

  static int run(String[] a) throws Exception {
    property = a[0];
    tier = System.getenv().getOrDefault("VERIF_TIER", "quick");
    if (!tier.equals("thorough")) {
      tier = "quick";
    }
    Path verif = Path.of(System.getProperty("verif.dir"));
    Path repo = Path.of(System.getProperty("repo.dir", "/repo"));
    work = Path.of(System.getProperty("work.dir"));
    String cp = System.getProperty("compile.cp");
    String replayFile = null;
    String only = null;
    boolean self = false;
    for (int i = 1; i < a.length; i++) {
      if (a[i].equals("--replay")) {
        replayFile = a[++i];
      } else if (a[i].equals("--only")) {
        only = a[++i];
      } else if (a[i].equals("--selftest")) {
        self = true;
      } else if (a[i].equals("--tier")) {
        tier = a[++i];
      }
    }
    long t0 = System.currentTimeMillis();
    compile(repo, verif, cp);
    long t1 = System.currentTimeMillis();
    loadKnown(verif.resolve("known_findings.txt"));
    if (self) {
      return SelfTest.run();
    }
    if (replayFile != null) {
      return replay(Path.of(replayFile));
    }
    long budget = Long.getLong("budget.s", tier.equals("quick") ? 240 : 780) * 1000;
    deadline = t0 + budget;

    List<String> names = new ArrayList<>();
    Map<String, Integer> weights = new TreeMap<>();
    Carrier lister = new Carrier(() -> {
      try {
        for (Scenario s : scenarios()) {
          if (!weights.containsKey(s.name)) {
            names.add(s.name);
          } else {
            throw new IllegalStateException("two scenarios named " + s.name);
          }
          weights.put(s.name, s.weight);
        }
      } catch (Throwable t) {
        error(t);
      }
    }, "lister");
    lister.start();
    lister.join();
    if (!errors.isEmpty()) {
      errors.forEach(System.err::println);
      return 2;
    }
    String onlyF = only;
    List<String> order = new ArrayList<>(
        names.stream().filter(n -> onlyF == null || n.contains(onlyF)).toList());
    order.sort(Comparator.comparing(n -> -weights.get(n)));
    ConcurrentLinkedQueue<String> todo = new ConcurrentLinkedQueue<>(order);
    List<Result> results = new ArrayList<>();
    int par = Math.min(Math.max(1, Integer.getInteger("carriers", 8)), order.size());
    List<Carrier> carriers = new ArrayList<>();
    for (int i = 0; i < par; i++) {
      Carrier c = new Carrier(() -> {
        Map<String, Scenario> mine = new TreeMap<>();
        try {
          for (Scenario s : scenarios()) {
            mine.put(s.name, s);
          }
          String n;
          while (!stop && (n = todo.poll()) != null) {
            Result r = new Result();
            r.name = n;
            synchronized (results) {
              results.add(r);
            }
            try {
              boolean asked = explore(mine.get(n), r, 0);
              int last = mine.get(n).named ? DRESSES - 1 : DRESSES;
              for (int d = 1; d <= last && asked && mine.get(n).dress && !stop; d++) {
                Result q = new Result();
                q.name = n + DRESSED + d;
                q.plain = r;
                synchronized (results) {
                  results.add(q);
                }
                explore(mine.get(n), q, d);
              }
            } catch (RuntimeException | Error t) {
              error(new IllegalStateException("scenario " + n, t));
            }
          }
        } catch (Throwable t) {
          error(t);
        }
      }, "carrier-" + i);
      carriers.add(c);
      c.start();
    }
    for (Carrier c : carriers) {
      while (c.isAlive()) {
        c.join(1000);
        if (System.currentTimeMillis() > deadline + 60_000) {
          StringBuilder b = new StringBuilder("carrier " + c.getName() + " is stuck:");
          for (StackTraceElement e : c.getStackTrace()) {
            b.append("\n  ").append(e);
          }
          error(new IllegalStateException(b.toString()));
          break;
        }
      }
    }
    long wall = System.currentTimeMillis() - t0;
    for (String n : order) {
      boolean has = false;
      for (Result r : results) {
        has |= r.name.equals(n);
      }
      if (!has) {
        Result r = new Result();
        r.name = n;
        results.add(r);
      }
    }
    results.sort(Comparator.comparing((Result r) -> order.indexOf(r.name.split(DRESSED)[0]))
        .thenComparing(r -> r.name));
    evidence(verif, results, wall, t1 - t0);
    if (!errors.isEmpty() && violations == 0) {
      errors.forEach(System.err::println);
      return 2;
    }
    return violations > 0 ? 1 : 0;
  }

  static synchronized void error(Throwable t) {
    StringWriter w = new StringWriter();
    t.printStackTrace(new PrintWriter(w));
    errors.add(w.toString());
  }

  // ------------------------------------------------------------------ build

  static void compile(Path repo, Path verif, String cp) throws IOException {
    Path raw = work.resolve("raw");
    Path inst = work.resolve("inst");
    Files.createDirectories(raw);
    Files.createDirectories(inst);
    List<File> src = new ArrayList<>();
    for (Path dir : List.of(repo.resolve("src/main/java"), verif.resolve("harness"))) {
      try (var s = Files.walk(dir)) {
        s.filter(p -> p.toString().endsWith(".java")).sorted().forEach(p -> src.add(p.toFile()));
      }
    }
    JavaCompiler jc = ToolProvider.getSystemJavaCompiler();
    StringWriter out = new StringWriter();
    try (StandardJavaFileManager fm = jc.getStandardFileManager(null, null, null)) {
      boolean ok = jc.getTask(out, fm, null,
          List.of("--release", "17", "-g", "-nowarn", "-proc:none", "-parameters", "-cp", cp, "-d",
              raw.toString()), null, fm.getJavaFileObjectsFromFiles(src)).call();
      if (!ok) {
        System.err.println(out);
        throw new IllegalStateException("the tree does not compile");
      }
    }
    Instrumenter.run(raw, inst);
    Sites.names = Files.readAllLines(inst.resolve("sites.txt"));
    classNames = Files.readAllLines(inst.resolve("classes.txt"));
  }

  /** Loads the instrumented classes in a loader of this carrier's own and lists the scenarios. */
  static List<Scenario> scenarios() throws Exception {
    URLClassLoader l = new URLClassLoader(
        new URL[]{work.resolve("inst").toUri().toURL()}, Main.class.getClassLoader());
    Thread.currentThread().setContextClassLoader(l);
    for (String n : classNames) {
      if (n.startsWith("vf.") && !n.startsWith("vf." + property) && !n.startsWith("vf.K")
          && !n.startsWith("vf.I")) {
        continue;
      }
      Class.forName(n, true, l);
    }
    Class<?> c = Class.forName("vf." + property, true, l);
    List<Scenario> out = new ArrayList<>();
    try {
      c.getMethod("scenarios", boolean.class, List.class).invoke(null, tier.equals("thorough"), out);
    } catch (InvocationTargetException e) {
      throw new IllegalStateException("scenario list", e.getCause());
    }
    return out;
  }

  static void loadKnown(Path p) throws IOException {
    if (!Files.exists(p)) {
      return;
    }
    for (String l : Files.readAllLines(p)) {
      // known: property=C01 | scenario=<name> | match=<text of the violation> | what fails
      if (l.startsWith("known:")) {
        String[] f = l.substring(6).split("\\|", 4);
        known.add(new Known(val(f[0]), val(f[1]), val(f[2]), f[3].trim()));
      }
    }
  }

  private static String val(String s) {
    return s.substring(s.indexOf('=') + 1).trim();
  }

  // ------------------------------------------------------------------ exploration

  /** returns whether the scenario leaves anything to {@link Mc#dress} */
  static boolean explore(Scenario sc, Result r, int dress) {
    long start = System.currentTimeMillis();
    Sched s = new Sched();
    s.states = new StateSet();
    s.dress = dress;
    HashSet<Integer> outcomes = new HashSet<>();
    r.seq = sc.seq;
    int bound = sc.bound;
    if (dress > 0 && r.plain.transitions > (tier.equals("quick") ? SMALL : SMALL_THOROUGH)) {
      bound = bound < 0 ? 1 : Math.min(bound, 1);
    }
    if (sc.seq || bound >= 0) {
      r.complete = pass(sc, s, r, outcomes, sc.seq ? -1 : bound, Long.MAX_VALUE, deadline);
      r.bounded = !sc.seq;
      if (r.bounded && r.complete) {
        r.boundCompleted = bound;
      }
    } else {
      // short counterexamples first, then every interleaving
      if (pass(sc, s, r, outcomes, 0, 5_000, deadline)) {
        r.boundCompleted = 0;
      }
      if (r.violation == null && pass(sc, s, r, outcomes, 1, 20_000, deadline)) {
        r.boundCompleted = 1;
      }
      if (r.violation == null) {
        long now = System.currentTimeMillis();
        long dporDeadline = now + (deadline - now) * 2 / 3;
        r.complete = pass(sc, s, r, outcomes, -1, Long.MAX_VALUE, dporDeadline);
        for (int b = 2; b <= 3 && !r.complete && r.violation == null && !stop; b++) {
          if (pass(sc, s, r, outcomes, b, Long.MAX_VALUE, deadline)) {
            r.boundCompleted = b;
          }
        }
      }
    }
    r.executions = s.executions;
    r.pruned = s.pruned;
    r.capped = s.capped;
    r.diverged = s.diverged;
    r.transitions = s.transitions;
    r.states = s.states.n;
    r.maxSteps = s.maxSteps;
    r.threads = s.maxThreads;
    r.outcomes = outcomes.size();
    r.millis = System.currentTimeMillis() - start;
    r.done = true;
    s.states = null;
    synchronized (OUT) {
      System.out.printf(Locale.ROOT,
          "%s %-60s %s executions=%d pruned=%d states=%d transitions=%d outcomes=%d maxSteps=%d threads=%d%s%s ms=%d%n",
          property, r.name, r.violation != null ? "VIOLATED" : r.complete && !r.bounded ? "complete"
              : (r.complete ? "complete" : "INCOMPLETE") + "(preemptions<=" + r.boundCompleted + ")", r.executions, r.pruned, r.states,
          r.transitions, r.outcomes, r.maxSteps, r.threads,
          r.capped > 0 ? " capped=" + r.capped : "",
          r.diverged > 0 ? " diverged=" + r.diverged : "", r.millis);
    }
    return s.askedDress;
  }

  /** true when the pass covered its whole space */
  static boolean pass(Scenario sc, Sched s, Result r, HashSet<Integer> outcomes, int bound,
      long maxExec, long limit) {
    s.stack.clear();
    s.branch = 0;
    s.bound = bound;
    s.replay = null;
    long n = 0;
    long caps = s.capped + s.diverged;
    while (true) {
      s.runOnce(sc);
      n++;
      if (s.hitHorizon && !s.threadCap && s.violation == null && sc.checkBlocked && !s.divergence) {
        s.fail("the execution does not come to an end (no progress after " + s.nSteps + " steps)",
            null);
      }
      if (s.violation != null && !s.divergence) {
        if (report(sc, s, r)) {
          return false;
        }
      } else if (!s.divergence && !s.hitHorizon) {
        if (outcomes.size() < 1_000_000) {
          int h = 1;
          for (int i = 0; i < s.trace.size(); i++) {
            h = h * 31 + s.trace.get(i).key().hashCode();
          }
          outcomes.add(h);
        }
        if (r.sample == null) {
          r.sample = sample(s);
        }
      }
      if (sc.seq && bound < 0) {
        s.transitions += s.nSteps;
        long h = 7;
        for (int i = 0; i < s.trace.size(); i++) {
          h = Sched.mix(h * 31 + s.trace.get(i).key().hashCode());
          s.states.add(h);
        }
      }
      if (!s.advance()) {
        return s.capped + s.diverged == caps;
      }
      if (stop || n >= maxExec || (n & 15) == 0 && System.currentTimeMillis() > limit) {
        return false;
      }
      if (s.diverged > 1000) {
        throw new IllegalStateException("scenario " + sc.name + " is not deterministic");
      }
    }
  }

  static String sample(Sched s) {
    StringBuilder b = new StringBuilder();
    for (Rec x : s.trace) {
      if (b.length() > 600) {
        b.append(" ...");
        break;
      }
      b.append(b.length() > 0 ? " ; " : "").append(x);
    }
    return b.toString();
  }

  /** returns true when exploration of the scenario ends */
  static boolean report(Scenario sc, Sched s, Result r) {
    String v = s.violation;
    for (Known k : known) {
      if (k.property.equals(property) && r.name.split(DRESSED)[0].equals(k.scenario) && v.contains(k.match)) {
        if (r.known == null) {
          r.known = k.text;
          synchronized (OUT) {
            System.out.println("KNOWN-FINDING: property=" + property + " " + k.text);
          }
        }
        return false;
      }
    }
    long[] choices = sc.seq ? seqChoices(s) : s.choices();
    // the same schedule fails again; what the code under test takes from outside the model (identity
    // hash codes) may change how, or whether, and does not make the execution that failed unreal
    Sched q = new Sched();
    q.states = new StateSet();
    q.verbose = true;
    q.dress = s.dress;
    q.replay = choices;
    boolean again = false;
    for (int i = 0; i < 20 && !again; i++) {
      q.runOnce(sc);
      if (q.hitHorizon && !q.threadCap && q.violation == null) {
        q.fail("the execution does not come to an end (no progress after " + q.nSteps + " steps)",
            null);
      }
      again = q.violation != null && !q.divergence;
    }
    if (!again) {
      v += " (not in every run of this schedule)";
    }
    r.violation = v;
    try {
      Path dir = Path.of(System.getProperty("verif.dir"), "replays");
      Files.createDirectories(dir);
      Path f = dir.resolve(property + "-" + r.name.replaceAll("[^A-Za-z0-9]+", "_") + ".txt");
      List<String> l = new ArrayList<>();
      l.add("property=" + property);
      l.add("tier=" + tier);
      l.add("scenario=" + sc.name);
      l.add("dress=" + s.dress);
      l.add("violation=" + v.replace('\n', ' '));
      l.add("choices=" + Arrays.toString(choices));
      l.add("");
      if (q.violationCause != null) {
        StringWriter w = new StringWriter();
        q.violationCause.printStackTrace(new PrintWriter(w));
        l.addAll(w.toString().lines().toList());
        l.add("");
      }
      l.add("observations:");
      for (Rec x : q.trace) {
        l.add("  " + x);
      }
      l.add("");
      l.add("steps:");
      int n = 0;
      for (String x : q.steplog) {
        l.add("  " + n++ + " " + x);
        if (n > 2000) {
          break;
        }
      }
      Files.write(f, l);
      synchronized (OUT) {
        violations++;
        System.out.println(
            "VIOLATION property=" + property + " replay=" + f + " scenario=[" + r.name + "] "
                + (v.length() > 1000 ? v.substring(0, 1000) + "..." : v).replace('\n', ' '));
      }
    } catch (IOException e) {
      throw new IllegalStateException(e);
    }
    stop |= !Boolean.getBoolean("all");
    return true;
  }

  static long[] seqChoices(Sched s) {
    return s.stack.stream().mapToLong(n -> n.val).toArray();
  }

  static int replay(Path f) throws Exception {
    Map<String, String> m = new TreeMap<>();
    for (String l : Files.readAllLines(f)) {
      int i = l.indexOf('=');
      if (i > 0 && !l.startsWith(" ")) {
        m.putIfAbsent(l.substring(0, i), l.substring(i + 1));
      }
    }
    tier = m.get("tier");
    String c = m.get("choices").replaceAll("[\\[\\] ]", "");
    long[] choices = c.isEmpty() ? new long[0]
        : Arrays.stream(c.split(",")).mapToLong(Long::parseLong).toArray();
    int[] code = {2};
    Carrier t = new Carrier(() -> {
      try {
        for (Scenario sc : scenarios()) {
          if (sc.name.equals(m.get("scenario"))) {
            Sched s = new Sched();
            s.states = new StateSet();
            s.verbose = true;
            s.dress = Integer.parseInt(m.getOrDefault("dress", "0"));
            s.replay = choices;
            s.runOnce(sc);
            s.steplog.forEach(x -> System.out.println("  " + x));
            System.out.println("observations:");
            s.trace.forEach(x -> System.out.println("  " + x));
            System.out.println(
                s.divergence ? "the schedule does not fit this tree (divergence)"
                    : s.violation == null ? "no violation" : "violation: " + s.violation);
            if (s.violationCause != null) {
              s.violationCause.printStackTrace(System.out);
            }
            code[0] = s.violation != null ? 1 : 0;
          }
        }
      } catch (Throwable e) {
        e.printStackTrace();
      }
    }, "replay");
    t.start();
    t.join();
    return code[0];
  }

  // ------------------------------------------------------------------ evidence

  static void evidence(Path verif, List<Result> rs, long wall, long buildMs) throws IOException {
    long states = 0, transitions = 0, executions = 0, pruned = 0, capped = 0, diverged = 0;
    boolean exhaustive = true;
    StringBuilder sc = new StringBuilder();
    StringBuilder samples = new StringBuilder();
    int nSamples = 0;
    for (Result r : rs) {
      states += r.states;
      transitions += r.transitions;
      executions += r.executions;
      pruned += r.pruned;
      capped += r.capped;
      diverged += r.diverged;
      exhaustive &= r.complete && !r.bounded;
      sc.append(sc.length() > 0 ? ",\n      " : "").append(String.format(Locale.ROOT,
          "{\"name\": %s, \"mode\": %s, \"complete\": %b, \"preemption_bound_completed\": %d, \"executions\": %d, \"redundant_pruned\": %d, \"states\": %d, \"transitions\": %d, \"distinct_outcomes\": %d, \"max_steps\": %d, \"threads\": %d, \"horizon_hits\": %d, \"ms\": %d}",
          q(r.name), q(r.seq ? "exhaustive input enumeration" : r.bounded
              ? "all interleavings within the preemption bound" : "DPOR over all interleavings"),
          r.complete, r.boundCompleted, r.executions, r.pruned, r.states, r.transitions, r.outcomes,
          r.maxSteps, r.threads, r.capped, r.millis));
      if (r.sample != null && nSamples < 12) {
        nSamples++;
        samples.append(samples.length() > 0 ? ",\n      " : "")
            .append("{\"scenario\": ").append(q(r.name)).append(", \"first_execution\": ")
            .append(q(r.sample)).append("}");
      }
    }
    String json = String.format(Locale.ROOT, """
            {
              "property": %s,
              "tier": %s,
              "seed": %s,
              "level": "model_checking",
              "coverage": {
                "states": %d,
                "transitions": %d,
                "traces_validated_against_impl": %d,
                "exhaustive": %b,
                "redundant_executions_pruned": %d,
                "horizon_hits": %d,
                "replay_divergences": %d,
                "scenarios_count": %d,
                "scenarios": [
                  %s
                ],
                "samples": [
                  %s
                ],
                "explanation": %s
              },
              "assumptions": [
                "the executor, thread, monitor, latch and lock models behave as the JDK's documentation says",
                "each call on a java.util.concurrent collection or atomic is one atomic step (its own linearizability is trusted)",
                "executions are interleavings of those steps; weaker orders are covered by the data-race monitor of C20"
              ],
              "wall_s": %.1f,
              "violations": %d
            }
            """, q(property), q(tier), System.getenv().getOrDefault("VERIF_SEED", "1"), states,
        transitions, executions, exhaustive, pruned, capped, diverged, rs.size(), sc, samples,
        q("states = distinct happens-before prefixes (interleaving scenarios) or distinct prefixes of the observed history (sequential scenarios) reached in the real code; transitions = visible steps executed for the first time (interleaving) or executed (sequential); every execution runs the instrumented classes compiled from /repo, so each explored trace is an execution of the implementation itself"),
        wall / 1000.0, violations);
    Path dir = verif.resolve("evidence");
    Files.createDirectories(dir);
    Files.writeString(dir.resolve(property + ".json"), json);
    System.out.printf(Locale.ROOT,
        "%s %s: scenarios=%d executions=%d states=%d transitions=%d exhaustive=%b build_ms=%d wall_s=%.1f violations=%d%n",
        property, tier, rs.size(), executions, states, transitions, exhaustive, buildMs,
        wall / 1000.0, violations);
  }

  static String q(String s) {
    StringBuilder b = new StringBuilder("\"");
    for (char c : s.toCharArray()) {
      if (c == '"' || c == '\\') {
        b.append('\\').append(c);
      } else if (c < 32) {
        b.append(String.format("\\u%04x", (int) c));
      } else {
        b.append(c);
      }
    }
    return b.append('"').toString();
  }
}
