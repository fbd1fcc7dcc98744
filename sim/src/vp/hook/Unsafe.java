package vp.hook;

import java.util.Arrays;
import java.util.HashSet;
import java.util.Set;

/**
 * Platform objects that are documented as unfit for use by several threads at once. A call on one
 * is a stretch of time, not an instant: if a second thread's call on the same object falls into it
 * and either of them alters the object, its behaviour is undefined, and the simulator lets the
 * second call fail.
 */
public final class Unsafe {
  private static final Set<String> CLASSES =
      new HashSet<String>(
          Arrays.asList(
              "java.util.ArrayList", "java.util.LinkedList", "java.util.ArrayDeque", "java.util.PriorityQueue",
              "java.util.HashMap", "java.util.LinkedHashMap", "java.util.IdentityHashMap", "java.util.WeakHashMap",
              "java.util.TreeMap", "java.util.EnumMap", "java.util.HashSet", "java.util.LinkedHashSet", "java.util.TreeSet",
              "java.util.RegularEnumSet", "java.util.JumboEnumSet", "java.util.BitSet", "java.util.StringJoiner",
              "java.util.Formatter", "java.util.regex.Matcher", "java.util.GregorianCalendar", "java.text.SimpleDateFormat",
              "java.lang.StringBuilder"));

  private static final int DEPTH = 32;

  private Unsafe() {}

  /** a call on o begins; mode 0 reads it, 1 alters it. */
  public static void begin(Object o, int mode, int site) {
    Thread th = Thread.currentThread();
    if (!(th instanceof SimThread)) return;
    SimThread t = (SimThread) th;
    if (t.suppress > 0) {
      t.busy(null, 0);
      return;
    }
    if (o == null || !CLASSES.contains(o.getClass().getName())) {
      t.busy(null, 0);
    } else {
      if (mode == 0 && o.getClass() == java.util.WeakHashMap.class) mode = 1;
      SimThread[] all = t.sim.threads;
      for (int k = 0; all != null && k < all.length; k++) {
        if (all[k] == t) continue;
        for (int i = Math.min(all[k].busyDepth, DEPTH) - 1; i >= 0; i--) {
          if (all[k].busyObjects[i] == o && mode + all[k].busyModes[i] > 0) {
            t.sim.note(6666);
            throw new java.util.ConcurrentModificationException("simulated: " + o.getClass().getName() + " used by two threads at once");
          }
        }
      }
      t.busy(o, mode);
    }
    try {
      t.sim.point(t, site);
    } catch (Throwable e) {
      t.busyDepth--;
      throw e;
    }
  }

  public static void end() {
    Thread th = Thread.currentThread();
    if (th instanceof SimThread && ((SimThread) th).busyDepth > 0) {
      SimThread t = (SimThread) th;
      if (--t.busyDepth < DEPTH) t.busyObjects[t.busyDepth] = null;
    }
  }
}
