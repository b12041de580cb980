package vf;

import static vf.Kit.*;

import com.webotech.statemachine.strategy.EventProcessingStrategyFactory.Config;
import java.util.ArrayList;
import java.util.List;
import mc.Mc;
import mc.Rec;

/**
 * A machine that stops at the first callback of every event until it is told to go on, and what it
 * must hold at every such point. n stays, u is unmapped, x goes round, e ends.
 */
public final class KStep {

  /** leaves the bound of the configuration alone */
  public static final int KEEP = Integer.MIN_VALUE;

  public final Ring r;
  public final boolean drop;
  public int max;
  /** what waits and what is in processing, by the documentation */
  public final List<String> waiting = new ArrayList<>();
  public final List<String> handled = new ArrayList<>();
  public final List<String> refused = new ArrayList<>();
  public String current;
  public boolean ended;
  private Mc.Latch gate;

  public KStep(boolean drop, int max) {
    this(drop, max, config(""));
  }

  public KStep(boolean drop, int max, Config<Object, Object> c) {
    this.drop = drop;
    this.max = max;
    Hook h = (w, s, e, sm) -> {
      if (w.equals("begin") && !nm(e).equals(IMMEDIATE)) {
        stop();
      }
    };
    if (max != KEEP) {
      c.withMaxQueueSize(max);
    }
    c.withUnmappedEventHandler((e, sm) -> {
      Mc.rec("unmapped", nm(e), nm(sm.getCurrentState()));
      stop();
      leave();
    });
    r = drop ? dropRing(c, h) : ring(c, h);
    r.m.start();
  }

  private void stop() {
    Mc.Latch g = Mc.latch(1);
    gate = g;
    g.await();
  }

  public void fire(String e) {
    r.m.fire(ev(e));
    Mc.quiesce();
    if (ended) {
      return;
    }
    if (drop && waiting.contains(e)) {
      return;
    }
    if (current == null) {
      current = e;
    } else if (max > 0 && waiting.size() >= max) {
      refused.add(e);
    } else {
      waiting.add(e);
    }
  }

  /** lets the event in processing finish; nothing happens if there is none */
  public void step() {
    if (current == null) {
      return;
    }
    gate.countDown();
    Mc.quiesce();
    handled.add(current);
    if (current.equals("e")) {
      ended = true;
    }
    if (ended) {
      waiting.clear();
    }
    current = waiting.isEmpty() ? null : waiting.remove(0);
  }

  public void drain() {
    while (current != null) {
      step();
    }
  }

  /** the events whose processing has begun, in order */
  public static List<String> begun() {
    List<String> l = new ArrayList<>();
    for (Rec x : Mc.trace()) {
      if (x.what.equals("begin") && !x.args[1].equals(IMMEDIATE)) {
        l.add((String) x.args[1]);
      } else if (x.what.equals("unmapped")) {
        l.add((String) x.args[0]);
      }
    }
    return l;
  }

  public static List<String> reported(String what) {
    List<String> l = new ArrayList<>();
    for (Rec x : Mc.trace()) {
      if (x.what.equals(what)) {
        l.add((String) x.args[0]);
      }
    }
    return l;
  }

  public List<String> shouldHaveBegun() {
    List<String> l = new ArrayList<>(handled);
    if (current != null) {
      l.add(current);
    }
    return l;
  }
}
