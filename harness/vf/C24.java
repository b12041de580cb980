package vf;

import static vf.Kit.*;

import com.webotech.statemachine.MultiConsumerStateMachineListener;
import com.webotech.statemachine.strategy.EventProcessingStrategyFactory.Config;
import java.util.ArrayList;
import java.util.List;
import mc.Mc;
import mc.Rec;
import mc.Scenario;

/** The listener can be set, replaced and removed at any time. */
public final class C24 {

  private static Ring make(int kind, Hook h) {
    Config<Object, Object> c = config("");
    return switch (kind) {
      case 0 -> new Ring("", machine(c, listener("1", h)), h);
      case 1 -> new Ring("", dropMachine(c, listener("1", h)), h);
      default -> new Ring("", machine(c.withExecutor(Mc.executor(2, "pool")), listener("1", h)), h);
    };
  }

  private static final String[] KIND = {"default", "drop-duplicates", "two executor threads"};

  private static int got(String what, String e) {
    int n = 0;
    for (Rec r : Mc.trace()) {
      n += r.what.equals(what) && r.args.length > 1 && r.args[1].equals(e) ? 1 : 0;
    }
    return n;
  }

  private static int[] notes(String e) {
    return new int[]{got("begin1", e), got("end1", e), got("begin2", e), got("end2", e)};
  }

  public static void scenarios(boolean thorough, List<Scenario> out) {
    for (int kk = 0; kk < 3; kk++) {
      int kind = kk;
      for (int rr = 0; rr < 2; rr++) {
        boolean remove = rr == 1;
        out.add(Scenario.of((remove ? "removed" : "replaced") + " while an event is processed, "
            + KIND[kind], () -> {
          String e = new String[]{"x", "n", "e"}[Mc.choose(3)];
          Ring r = make(kind, null);
          r.m.start();
          r.m.fire(ev(e));
          r.m.setStateMachineListener(remove ? null : listener("2", null));
          int set = Mc.trace().size();
          Mc.rec("set");
          r.m.fire(ev("n"));
          Mc.quiesce();
          Mc.eq(0, Mc.count("exception"), "failures");
          for (String w : new String[]{"begin", "end"}) {
            int o = got(w + "1", e) - (e.equals("n") && kind != 0 ? 0 : 0);
            int n = got(w + "2", e);
            Mc.check(o <= 1, "old listener notified of " + w + " " + o + " times");
            if (!e.equals("n")) {
              Mc.check(remove ? n == 0 : o + n == 1,
                  "listeners notified of " + w + " of " + e + " " + (o + n) + " times");
            }
          }
          int at = -1;
          for (Rec x : Mc.trace()) {
            if (x.what.equals("set")) {
              at = x.seq;
            }
          }
          // an event that is fired after the change is not the old listener's business
          if (!e.equals("n")) {
            for (Rec x : Mc.trace()) {
              Mc.check(!(x.seq > at && x.what.endsWith("1") && x.args[1].equals("n")),
                  "the old listener is notified of an event fired later: " + x);
            }
          }
          if (e.equals("x")) {
            Mc.eq("B", nm(r.m.getCurrentState()), "state");
            Mc.eq(1, Mc.count("entry", "B", "x"), "entry action");
            if (!remove) {
              Mc.eq(1, got("begin2", "n"), "the new listener is notified of the next event");
              Mc.eq(1, got("end2", "n"), "the new listener is notified of the next event");
            }
          }
          if (e.equals("e")) {
            Mc.check(r.m.isEnded(), "ended");
          }
        }).weight(kind == 2 ? 5 : 3));
        out.add(Scenario.of((remove ? "removed" : "replaced") + " while another thread starts it, "
            + KIND[kind], () -> {
          Ring r = make(kind, null);
          Mc.Th t = Mc.spawn("t", () -> r.m.setStateMachineListener(
              remove ? null : listener("2", null)));
          r.m.start();
          t.join();
          Mc.eq(1, Mc.count("entry", "A", IMMEDIATE), "entry action");
          Mc.eq("A", nm(r.m.getCurrentState()), "state");
          for (String w : new String[]{"begin", "end"}) {
            int n = Mc.count(w + "1") + Mc.count(w + "2");
            Mc.check(remove ? n <= 1 : n == 1, w + " notified " + n + " times");
          }
        }));
      }
      out.add(Scenario.of("set on a machine without one while it works, " + KIND[kind], () -> {
        Ring r = make(kind, null);
        r.m.setStateMachineListener(null);
        r.m.start();
        r.m.fire(ev("x"));
        r.m.setStateMachineListener(listener("2", null));
        r.m.fire(ev("n"));
        Mc.quiesce();
        Mc.eq(0, Mc.count("begin1") + Mc.count("end1"), "notifications of the old listener");
        Mc.eq(0, Mc.count("exception"), "failures");
        Mc.check(got("begin2", "x") <= got("end2", "x"), "begin without end");
        Mc.eq(1, got("begin2", "n"), "begin of the next event");
        Mc.eq(1, got("end2", "n"), "end of the next event");
        Mc.eq("B", nm(r.m.getCurrentState()), "state");
      }).weight(kind == 2 ? 5 : 3));
      out.add(Scenario.of("two threads set it while an event is processed, " + KIND[kind], () -> {
        Ring r = make(kind, null);
        r.m.start();
        r.m.fire(ev("x"));
        Mc.Th t = Mc.spawn("t", () -> r.m.setStateMachineListener(null));
        r.m.setStateMachineListener(listener("2", null));
        t.join();
        Mc.quiesce();
        Mc.eq(0, Mc.count("exception"), "failures");
        Mc.eq("B", nm(r.m.getCurrentState()), "state");
        int n = Mc.trace().size();
        r.m.fire(ev("n"));
        Mc.quiesce();
        int k = Mc.trace().size() - n;
        Mc.check(k == 0 || k == 2 && got("begin2", "n") == 1 && got("end2", "n") == 1,
            "the last one set is in place");
      }).weight(kind == 2 ? 5 : 3));
    }
    // sequences of changes between events and from callbacks
    int len = thorough ? 6 : 5;
    for (int kk = 0; kk < 3; kk++) {
      int kind = kk;
      out.add(Scenario.seq("every sequence of " + len + " changes and events, " + KIND[kind], () -> {
        Ring r = make(kind, null);
        boolean started = false;
        String l = "1";
        String at = null;
        List<String> want = new ArrayList<>();
        for (int i = 0; i < len; i++) {
          switch (Mc.choose(6)) {
            case 0 -> {
              l = null;
              r.m.setStateMachineListener(null);
            }
            case 1 -> {
              l = "2";
              r.m.setStateMachineListener(listener("2", null));
            }
            case 2 -> {
              l = "3";
              r.m.setStateMachineListener(listener("3", null));
            }
            case 3 -> {
              if (at == null) {
                r.m.start();
                at = "A";
                note(want, l, UNINIT, IMMEDIATE, "A");
              }
            }
            case 4 -> {
              r.m.fire(ev("x"));
              if (at != null && !at.equals(END)) {
                String to = at.equals("A") ? "B" : "A";
                note(want, l, at, "x", to);
                at = to;
              }
            }
            default -> {
              String e = kind == 0 ? "n" : "e";
              r.m.fire(ev(e));
              if (at != null && !at.equals(END)) {
                note(want, l, at, e, e.equals("n") ? NOOP : END);
                at = e.equals("n") ? at : END;
              }
            }
          }
          Mc.quiesce();
          List<String> got = new ArrayList<>();
          for (Rec x : Mc.trace()) {
            if (x.what.startsWith("begin") || x.what.startsWith("end")) {
              got.add(x.key());
            }
          }
          Mc.eq(want, got, "notifications");
          Mc.eq(at == null ? "null" : at, nm(r.m.getCurrentState()), "state");
        }
      }));
      out.add(Scenario.seq("changed from a callback, " + KIND[kind], () -> {
        String where = new String[]{"begin", "exit", "entry", "end"}[Mc.choose(4)];
        boolean remove = Mc.flip();
        Ring[] r = new Ring[1];
        boolean[] done = {false};
        Hook h = (w, s, e, sm) -> {
          if (w.equals(where) && nm(e).equals("x") && !done[0]) {
            done[0] = true;
            r[0].m.setStateMachineListener(remove ? null : listener("2", null));
          }
        };
        r[0] = make(kind, h);
        r[0].m.start();
        r[0].m.fire(ev("x"));
        Mc.quiesce();
        r[0].m.fire(ev("x"));
        Mc.quiesce();
        Mc.eq(0, Mc.count("exception"), "failures");
        Mc.eq("A", nm(r[0].m.getCurrentState()), "state");
        Mc.eq(1, Mc.count("begin1", "A", "x", "B"), "begin of the first event");
        Mc.eq(0, Mc.count("begin1", "B", "x", "A"), "begin of the second event, old listener");
        Mc.eq(0, Mc.count("end1", "B", "x", "A"), "end of the second event, old listener");
        Mc.eq(remove ? 0 : 1, Mc.count("begin2", "B", "x", "A"), "begin of the second event");
        Mc.eq(remove ? 0 : 1, Mc.count("end2", "B", "x", "A"), "end of the second event");
        Mc.eq(where.equals("end") ? 1 : 0, Mc.count("end1", "A", "x", "B"),
            "end of the first event, old listener");
        Mc.eq(where.equals("end") || remove ? 0 : 1, Mc.count("end2", "A", "x", "B"),
            "end of the first event, new listener");
      }));
    }
    // a fan-out listener gains and loses consumers while the machine works
    out.add(Scenario.of("consumers of a fan-out listener change while an event is processed", () -> {
      var one = listener("1", null);
      var two = listener("2", null);
      var three = listener("3", null);
      var multi = new MultiConsumerStateMachineListener<Object, Object>(one, two);
      Ring r = new Ring("", machine(config(""), multi), null);
      r.m.start();
      r.m.fire(ev("x"));
      Mc.check(multi.add(three), "add returns true");
      Mc.check(multi.remove(two), "remove returns true");
      r.m.fire(ev("n"));
      Mc.quiesce();
      Mc.eq(0, Mc.count("exception"), "failures");
      for (String e : new String[]{"x", "n"}) {
        Mc.eq(1, got("begin1", e), "begin of " + e + " to the consumer that stays");
        Mc.eq(1, got("end1", e), "end of " + e + " to the consumer that stays");
      }
      Mc.eq(1, got("begin3", "n"), "begin of n to the added consumer");
      Mc.eq(1, got("end3", "n"), "end of n to the added consumer");
      Mc.eq(0, got("begin2", "n") + got("end2", "n"), "n to the removed consumer");
      Mc.check(got("end2", "x") <= got("begin2", "x") && got("begin3", "x") <= got("end3", "x"),
          "notifications of consumers that come and go");
    }).weight(4));
    out.add(Scenario.seq("the app's listener between its calls", () -> {
      boolean exit = Mc.flip();
      KApp.App a = new KApp.App(KApp.ctx(1, null), 1, exit);
      String[] l = {"none"};
      Mc.keepLogs();
      Mc.Th t = null;
      int cycles = 0;
      for (int i = 0; i < 4; i++) {
        switch (Mc.choose(3)) {
          case 0 -> {
            a.setStateMachineListener(null);
            l[0] = "null";
          }
          case 1 -> {
            a.setStateMachineListener(tagged("1"));
            l[0] = "1";
          }
          default -> {
            a.setStateMachineListener(tagged("2"));
            l[0] = "2";
          }
        }
        Mc.trace().clear();
        String s = a.state();
        if (s == null) {
          t = KApp.launch(a);
        } else if (s.equals("STARTED")) {
          a.stop();
        } else if (s.equals("STOPPED")) {
          a.start();
        } else {
          break;
        }
        Mc.quiesce();
        int n = s == null ? 3 : s.equals("STARTED") && exit ? 3 : 2;
        for (String who : new String[]{"1", "2"}) {
          Mc.eq(l[0].equals(who) ? n : 0, Mc.count("begin" + who), "begins for listener " + who);
          Mc.eq(l[0].equals(who) ? n : 0, Mc.count("end" + who), "ends for listener " + who);
        }
        for (Rec x : Mc.trace()) {
          Mc.check(!x.what.equals("log") || !x.args[1].toString().contains("transition"),
              "the replaced logging listener is still there: " + x);
        }
      }
      if ("STARTED".equals(a.state())) {
        a.stop();
        Mc.quiesce();
      }
      if ("STOPPED".equals(a.state())) {
        a.stop();
      }
      t.join();
      Mc.quiesce();
    }));
    for (int kk = 0; kk < 3; kk++) {
      int kind = kk;
      out.add(Scenario.seq("every sequence of kinds of transitions and changes, " + KIND[kind],
          () -> {
            Ring r = make(kind, null);
            r.m.when(r.a).receives(ev("s")).itTransitionsTo(r.a);
            String[] who = {"1"};
            r.m.start();
            Mc.eq(1, got("begin1", IMMEDIATE), "begin of the start");
            Mc.eq(1, got("end1", IMMEDIATE), "end of the start");
            int steps = thorough ? 5 : 4;
            boolean b = false;
            for (int i = 0; i < steps && !r.m.isEnded(); i++) {
              switch (Mc.choose(4)) {
                case 0 -> {
                  r.m.setStateMachineListener(null);
                  who[0] = null;
                }
                case 1 -> {
                  r.m.setStateMachineListener(listener("2", null));
                  who[0] = "2";
                }
                default -> {
                }
              }
              String e = new String[]{"x", "n", "s", "e"}[Mc.choose(4)];
              boolean mapped = !e.equals("s") || !b;
              int[] before = notes(e);
              r.m.fire(ev(e));
              Mc.quiesce();
              int[] after = notes(e);
              for (int k = 0; k < 4; k++) {
                boolean mine = mapped && who[0] != null && (who[0].equals("1") == (k < 2));
                Mc.eq(before[k] + (mine ? 1 : 0), after[k],
                    (k % 2 == 0 ? "begin" : "end") + " notes of " + e + " for " + (k / 2 + 1));
              }
              b ^= e.equals("x");
            }
            Mc.eq(0, Mc.count("exception"), "failures");
          }).weight(2));
    }
    out.add(Scenario.of("the app's listener changes while it works", () -> {
      KApp.App a = KApp.app(1, true, null);
      Mc.Th t = KApp.launch(a);
      if (Mc.flip()) {
        a.setStateMachineListener(null);
        Mc.quiesce();
      } else {
        Mc.quiesce();
        Mc.Th s = KApp.launch(a, "stop");
        a.setStateMachineListener(null);
        s.join();
        Mc.quiesce();
        t.join();
        Mc.eq(1, Mc.count("stopped", 0), "subsystem stopped");
        Mc.eq("_END_", a.state(), "state");
        return;
      }
      Mc.eq("STARTED", a.state(), "state");
      a.stop();
      t.join();
      Mc.quiesce();
      Mc.eq(1, Mc.count("stopped", 0), "subsystem stopped");
    }).weight(2));
  }

  private static com.webotech.statemachine.api.StateMachineListener<KApp.Ctx, Void> tagged(
      String tag) {
    return new com.webotech.statemachine.api.StateMachineListener<>() {
      @Override
      public void onStateChangeBegin(com.webotech.statemachine.api.State<KApp.Ctx, Void> f,
          com.webotech.statemachine.api.StateEvent<Void> e,
          com.webotech.statemachine.api.State<KApp.Ctx, Void> t) {
        Mc.rec("begin" + tag, f.getName(), e.getName(), t.getName());
      }

      @Override
      public void onStateChangeEnd(com.webotech.statemachine.api.State<KApp.Ctx, Void> f,
          com.webotech.statemachine.api.StateEvent<Void> e,
          com.webotech.statemachine.api.State<KApp.Ctx, Void> t) {
        Mc.rec("end" + tag, f.getName(), e.getName(), t.getName());
      }
    };
  }

  private static void note(List<String> want, String l, String f, String e, String t) {
    if (l != null) {
      want.add("begin" + l + "[" + f + ", " + e + ", " + t + "]");
      want.add("end" + l + "[" + f + ", " + e + ", " + t + "]");
    }
  }
}
