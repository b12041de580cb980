package vf;

import static vf.Kit.*;

import com.webotech.statemachine.GenericStateMachine;
import com.webotech.statemachine.strategy.EventProcessingStrategyFactory.Config;
import java.util.List;
import mc.Mc;
import mc.Scenario;

/** Firing never waits for processing, and nothing the callbacks do can deadlock the machine. */
public final class C25 {

  private static final String[] KIND = {"default", "drop-duplicates", "bounded",
      "two executor threads"};

  private static Ring make(int kind, String tag, Hook h) {
    Config<Object, Object> c = config(tag);
    if (kind == 2) {
      c.withMaxQueueSize(2);
    } else if (kind == 3) {
      c.withExecutor(Mc.executor(2, "pool" + tag));
    }
    return new Ring(tag, kind == 1 ? dropMachine(c, listener(tag, h))
        : machine(c, listener(tag, h)), h);
  }

  private static final String[] CALLS = {"fire", "fire the same", "current state", "flags",
      "queue size", "context", "text", "set listener", "stop", "fire thrice"};

  private static void call(GenericStateMachine<Object, Object> m, String c) {
    switch (c) {
      case "fire" -> m.fire(ev("n"));
      case "fire the same" -> m.fire(ev("x"));
      case "fire thrice" -> {
        m.fire(ev("n"));
        m.fire(ev("n"));
        m.fire(ev("u"));
      }
      case "current state" -> m.getCurrentState();
      case "flags" -> {
        m.isStarted();
        m.isEnded();
      }
      case "queue size" -> m.getEventQueueSize();
      case "context" -> m.getContext();
      case "text" -> m.toString();
      case "set listener" -> m.setStateMachineListener(null);
      default -> m.stop();
    }
  }

  /** an event fails, in the variant in which unmapped events do */
  private static void past(Ring r) {
    if (Mc.dress() == 2) {
      r.m.fire(ev("past"));
      Mc.quiesce();
    }
  }

  public static void scenarios(boolean thorough, List<Scenario> out) {
    for (int kk = 0; kk < 4; kk++) {
      int kind = kk;
      for (String c : CALLS) {
        if (kind == 3 && !thorough && c.equals("fire thrice")) {
          continue;
        }
        for (String where : new String[]{"begin", "exit", "entry", "end", "unmapped"}) {
          out.add(Scenario.of(c + " while a callback (" + where + ") blocks, " + KIND[kind], () -> {
            Mc.Latch gate = Mc.latch(1);
            Hook h = (w, s, e, sm) -> {
              if (w.equals(where) && nm(e).equals("x")) {
                gate.await();
              }
            };
            Ring r;
            if (where.equals("unmapped")) {
              Config<Object, Object> cf = config("").withUnmappedEventHandler((e, sm) -> {
                if (nm(e).equals("u")) {
                  gate.await();
                }
                leave();
              });
              if (kind == 2) {
                cf.withMaxQueueSize(2);
              } else if (kind == 3) {
                cf.withExecutor(Mc.executor(2, "pool"));
              }
              r = kind == 1 ? dropRing(cf, null) : ring(cf, null);
            } else {
              r = make(kind, "", h);
            }
            r.m.start();
            past(r);
            r.m.fire(ev(where.equals("unmapped") ? "u" : "x"));
            Mc.Th t = Mc.spawn("t", () -> call(r.m, c));
            Mc.quiesce();
            Mc.check(t.finished(), c + " waits for the callback that is running");
            gate.countDown();
            Mc.quiesce();
            Mc.eq(0, r.m.getEventQueueSize(), "events left");
          }).weight(2));
        }
      }
      // callbacks use the machine they are called by
      for (String where : new String[]{"begin", "exit", "entry", "end"}) {
        out.add(Scenario.of("a callback (" + where + ") uses its machine, " + KIND[kind], () -> {
          String c = CALLS[Mc.choose(kind == 3 && !thorough ? CALLS.length - 1 : CALLS.length)];
          Ring[] r = new Ring[1];
          int[] n = {0};
          Hook h = (w, s, e, sm) -> {
            if (w.equals(where) && (nm(e).equals("x") || kind != 3 && nm(e).equals(IMMEDIATE))
                && n[0]++ < (kind == 3 && !thorough ? 1 : 2)) {
              call(r[0].m, c);
            }
          };
          r[0] = make(kind, "", h);
          r[0].m.start();
          r[0].m.fire(ev("x"));
          Mc.quiesce();
          Mc.eq(0, r[0].m.getEventQueueSize(), "events left");
        }).weight(kind == 3 ? 4 : 2));
        out.add(Scenario.of("a callback (" + where + ") waits for another thread that fires, "
            + KIND[kind], () -> {
          Ring[] r = new Ring[1];
          boolean[] done = {false};
          Hook h = (w, s, e, sm) -> {
            if (w.equals(where) && nm(e).equals("x") && !done[0]) {
              done[0] = true;
              Mc.Th t = Mc.spawn("t", () -> {
                r[0].m.fire(ev("n"));
                r[0].m.getEventQueueSize();
                r[0].m.getCurrentState();
              });
              t.join();
            }
          };
          r[0] = make(kind, "", h);
          r[0].m.start();
          r[0].m.fire(ev("x"));
          Mc.quiesce();
          Mc.eq(1, Mc.count("end", "A", "x", "B"), "x completes");
          Mc.eq(1, Mc.count("end", "B", "n", NOOP), "n is processed");
          Mc.eq(0, r[0].m.getEventQueueSize(), "events left");
        }).weight(3));
      }
      // machines that fire at each other
      out.add(Scenario.of("two machines fire at each other, " + KIND[kind], () -> {
        Ring[] r = new Ring[2];
        for (int i = 0; i < 2; i++) {
          int other = 1 - i;
          r[i] = make(kind, "" + i, (w, s, e, sm) -> {
            if (w.equals("entry") && nm(e).equals("x")) {
              r[other].m.fire(ev("n"));
              r[other].m.getCurrentState();
              r[other].m.getEventQueueSize();
            }
          });
        }
        r[0].m.start();
        r[1].m.start();
        r[0].m.fire(ev("x"));
        r[1].m.fire(ev("x"));
        Mc.quiesce();
        for (int i = 0; i < 2; i++) {
          Mc.eq(1, Mc.count("end" + i, "A", "x", "B"), "x on machine " + i);
          Mc.eq(1, Mc.count("end" + i, "B", "n", NOOP) + Mc.count("end" + i, "A", "n", NOOP),
              "n on machine " + i);
          Mc.eq(0, r[i].m.getEventQueueSize(), "events left on machine " + i);
        }
      }).weight(9).bound(thorough ? -1 : kind == 3 ? 1 : 2));
      out.add(Scenario.of("machines stop and query each other, " + KIND[kind], () -> {
        Ring[] r = new Ring[2];
        for (int i = 0; i < 2; i++) {
          int other = 1 - i;
          r[i] = make(kind, "" + i, (w, s, e, sm) -> {
            if (w.equals("exit") && nm(e).equals("x")) {
              r[other].m.isEnded();
              r[other].m.stop();
              r[other].m.setStateMachineListener(null);
            }
          });
        }
        r[0].m.start();
        r[1].m.start();
        r[0].m.fire(ev("x"));
        r[1].m.fire(ev("x"));
        Mc.quiesce();
        Mc.check(r[0].m.isEnded() || r[1].m.isEnded(), "one of them has been stopped");
        for (int i = 0; i < 2; i++) {
          Mc.eq(0, r[i].m.getEventQueueSize(), "events left on machine " + i);
        }
      }).weight(9).bound(thorough ? -1 : kind == 3 ? 1 : 2));
      // starting while firing, stopping while firing: everybody comes back
      out.add(Scenario.of("start, fire and stop at once, " + KIND[kind], () -> {
        Ring r = make(kind, "", null);
        Mc.Th s = Mc.spawn("s", () -> r.m.start());
        Mc.Th f = Mc.spawn("f", () -> r.m.fire(ev("x")));
        s.join();
        f.join();
        r.m.stop();
        Mc.quiesce();
        Mc.eq(0, r.m.getEventQueueSize(), "events left");
        Mc.check(r.m.isEnded(), "ended");
      }).weight(4));
      out.add(Scenario.of("events fired while the initial action waits for them to be fired, "
          + KIND[kind], () -> {
        Mc.Latch fired = Mc.latch(1);
        Ring[] r = new Ring[1];
        Hook h = (w, s, e, sm) -> {
          if (w.equals("entry") && nm(e).equals(IMMEDIATE)) {
            fired.await();
          }
        };
        r[0] = make(kind, "", h);
        Mc.Th f = Mc.spawn("f", () -> {
          r[0].m.fire(ev("x"));
          fired.countDown();
        });
        r[0].m.start();
        f.join();
        Mc.quiesce();
        Mc.eq(0, r[0].m.getEventQueueSize(), "events left");
        int n = Mc.count("end", "A", "x", "B") + Mc.count("beforeStart", "x", r[0].m);
        Mc.eq(1, n, "x is processed or reported");
      }).weight(3));
    }
    // the callbacks that are no transitions may block, too
    for (int kk = 0; kk < KIND.length; kk++) {
      int kind = kk;
      for (String c : CALLS) {
        out.add(Scenario.of(c + " while a report blocks, " + KIND[kind], () -> {
          Mc.Latch gate = Mc.latch(1);
          Mc.Latch work = Mc.latch(1);
          int which = Mc.choose(kind == 2 ? 4 : 3);
          boolean[] held = {false};
          Config<Object, Object> cf = new Config<Object, Object>().withUnexpectedFlowListener(
              new com.webotech.statemachine.UnexpectedFlowListener<Object, Object>() {
                void hold(boolean now) {
                  if (now && !held[0]) {
                    held[0] = true;
                    gate.await();
                  }
                }

                @Override
                public void onExceptionDuringEventProcessing(
                    com.webotech.statemachine.api.StateEvent<Object> e,
                    com.webotech.statemachine.api.StateMachine<Object, Object> sm, Thread thread,
                    Exception x) {
                  hold(nm(e).equals(which == 0 ? "x" : "u"));
                }

                @Override
                public void onEventAfterMachineEnd(
                    com.webotech.statemachine.api.StateEvent<Object> e,
                    com.webotech.statemachine.api.StateMachine<Object, Object> sm) {
                  hold(nm(e).equals("late"));
                }

                @Override
                public void onEventBeforeMachineStart(
                    com.webotech.statemachine.api.StateEvent<Object> e,
                    com.webotech.statemachine.api.StateMachine<Object, Object> sm) {
                  hold(nm(e).equals("early"));
                }
              }).withUnmappedEventHandler((e, sm) -> leave());
          if (kind == 2) {
            cf.withMaxQueueSize(1);
          } else if (kind == 3) {
            cf.withExecutor(Mc.executor(2, "pool"));
          }
          Hook h = (w, s, e, sm) -> {
            if (w.equals("entry") && nm(e).equals("x")) {
              if (which == 0) {
                throw new IllegalStateException("boom");
              } else if (which == 3) {
                work.await();
              }
            }
          };
          Ring r = new Ring("", kind == 1 ? dropMachine(cf, listener("", h))
              : machine(cf, listener("", h)), h);
          Mc.Th b = null;
          switch (which) {
            case 0 -> {
              r.m.start();
              r.m.fire(ev("x"));
            }
            case 1 -> {
              b = Mc.spawn("early", () -> r.m.fire(ev("early")));
              Mc.quiesce();
              r.m.start();
            }
            case 2 -> {
              r.m.start();
              r.m.stop();
              b = Mc.spawn("late", () -> r.m.fire(ev("late")));
            }
            default -> {
              r.m.start();
              r.m.fire(ev("x"));
              Mc.quiesce();
              r.m.fire(ev("n"));
              b = Mc.spawn("refused", () -> r.m.fire(ev("u")));
            }
          }
          Mc.quiesce();
          Mc.check(held[0], "the report is made");
          Mc.Th t = Mc.spawn("t", () -> call(r.m, c));
          Mc.quiesce();
          Mc.check(t.finished(), c + " waits for the report that is being made");
          gate.countDown();
          work.countDown();
          if (b != null) {
            b.join();
          }
          Mc.quiesce();
          Mc.eq(0, r.m.getEventQueueSize(), "events left");
        }).weight(2));
      }
    }
    out.add(Scenario.of("a callback waits for a callback of another machine", () -> {
      int kind = Mc.choose(4);
      String at = new String[]{"begin", "exit", "entry", "end"}[Mc.choose(4)];
      Mc.Latch done = Mc.latch(1);
      Ring[] r = new Ring[2];
      r[0] = make(kind, "1", (w, s, e, sm) -> {
        if (w.equals(at) && nm(e).equals("x")) {
          done.await();
        }
      });
      r[1] = make(kind, "2", (w, s, e, sm) -> {
        if (w.equals("end") && nm(e).equals("x")) {
          done.countDown();
        }
      });
      r[1].m.start();
      r[0].m.start();
      r[0].m.fire(ev("x"));
      r[1].m.fire(ev("x"));
      Mc.quiesce();
      for (int i = 0; i < 2; i++) {
        Mc.eq("B", nm(r[i].m.getCurrentState()), "state of machine " + (i + 1));
        Mc.eq(0, r[i].m.getEventQueueSize(), "events left");
      }
    }).weight(5));
    out.add(Scenario.seq("a flood of events while an action blocks", () -> {
      int kind = Mc.choose(4);
      Mc.Latch gate = Mc.latch(1);
      Hook h = (w, s, e, sm) -> {
        if (w.equals("entry") && nm(e).equals("x")) {
          gate.await();
        }
      };
      Ring r = make(kind, "", h);
      r.m.start();
      r.m.fire(ev("x"));
      Mc.quiesce();
      Mc.Th t = Mc.spawn("t", () -> {
        for (int i = 0; i < 1500; i++) {
          r.m.fire(ev("n"));
        }
      });
      Mc.quiesce();
      Mc.check(t.finished(), "firing waits for the action that is running");
      gate.countDown();
      Mc.quiesce();
      Mc.eq(kind == 1 ? 1 : kind == 2 ? 2 : 1500, Mc.count("end", "B", "n", NOOP), "events");
    }));
    for (int xx = 0; xx < 2; xx++) {
      boolean exit = xx == 1;
      out.add(Scenario.of("app: stop and error return while a subsystem blocks" + (exit
          ? ", exits when stopped" : ", restartable"), () -> {
        boolean inStart = Mc.flip();
        Mc.Latch gate = Mc.latch(1);
        KApp.App a = KApp.app(1, exit, (w, i) -> {
          if (w.equals(inStart ? "start" : "stop")) {
            gate.await();
          }
        });
        Mc.Th t = KApp.launch(a);
        Mc.quiesce();
        if (!inStart) {
          Mc.Th s = KApp.launch(a, "stop");
          Mc.quiesce();
          Mc.check(s.finished(), "stop() waits for the subsystem");
        }
        for (String op : new String[]{"stop", "error", "start"}) {
          Mc.Th s = KApp.launch(a, op);
          Mc.quiesce();
          Mc.check(s.finished(), op + "() waits for the subsystem");
        }
        gate.countDown();
        Mc.quiesce();
        Mc.eq(exit ? "_END_" : "STOPPED", a.state(), "state");
        if (!exit) {
          a.stop();
        }
        t.join();
        Mc.quiesce();
      }).weight(2));
    }
  }
}
