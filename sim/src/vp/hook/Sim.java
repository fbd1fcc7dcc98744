package vp.hook;

import java.util.ArrayList;
import java.util.List;
import java.util.concurrent.Semaphore;
import java.util.concurrent.TimeUnit;

/** One simulated execution: at any instant exactly one simulated thread runs. */
public final class Sim {
  public static final int ALLOC_WALL = 64 << 20;

  /** points of the library passed by any run of this process. */
  public static final boolean[] REACHED = new boolean[8192];

  public SimThread[] threads;
  volatile int turn = -1;
  public long step;
  public final long cap;
  final Policy policy; // null in replay
  final long[][] script; // replay: {step, to}; step -1 for a forced choice
  int scriptPos;
  public final List<long[]> decisions = new ArrayList<long[]>();
  public long digest = 17;
  public long scheduleHash = 17;
  public int preemptions;
  public final java.util.BitSet sites = new java.util.BitSet();
  public volatile boolean aborted;
  public volatile Throwable harnessError;

  /** set when a thread had to wait for another one: property violation material. */
  public volatile String blockedReport;

  public boolean deadlock;
  public boolean capHit;
  private final Semaphore done = new Semaphore(0);
  private int[] scratch;
  public volatile int blockedSeen;

  /** looks at the surroundings of the library at every point, and more closely at every switch. */
  public Watch watch;

  /** where the threads live, null for the group of their creator. */
  public ThreadGroup group;

  public interface Watch {
    void look(SimThread t, boolean closely);
  }

  public Sim(Policy policy, long[][] script, long cap) {
    this.policy = policy;
    this.script = script;
    this.cap = cap;
  }

  public void note(long v) {
    digest = Rng.mix(digest * 31 + v);
  }

  // ------------------------------------------------------------------ points

  void point(SimThread t, int site) {
    if (turn != t.idx) {
      // woke up from a real lock while another thread has the turn
      t.blocked = false;
      await(t);
    }
    if (aborted) throw new SimAbort("aborted");
    long s = ++step;
    if (site >>> 3 < REACHED.length) REACHED[site >>> 3] = true;
    t.opPoints++;
    if (s > cap) {
      capHit = true;
      aborted = true;
      throw new SimAbort("step cap");
    }
    if (t.freezeAt >= 0 && t.opPoints >= t.freezeAt) {
      t.freezeAt = -1;
      freeze(t, site);
    }
    if (t.interruptAt >= 0 && t.opPoints >= t.interruptAt) {
      t.interruptAt = -1;
      t.interruptFired = true;
      note(7777);
      t.interrupt();
    }
    if (watch != null) watch.look(t, false);
    if (policy != null) {
      if (policy.preempt(this, t, site)) {
        int next = choose(t, false);
        if (next >= 0 && next != t.idx) {
          record(s, next, site);
          switchTo(t, next);
        }
      }
    } else {
      while (scriptPos < script.length && script[scriptPos][0] >= 0 && script[scriptPos][0] < s) scriptPos++;
      if (scriptPos < script.length && script[scriptPos][0] == s) {
        int next = (int) script[scriptPos++][1];
        settle();
        if (next != t.idx && next < threads.length && runnable(threads[next])) {
          record(s, next, site);
          switchTo(t, next);
        }
      }
    }
    if (aborted) throw new SimAbort("aborted");
    if (t.vmKind != 0) vmFault(t, site);
  }

  private void vmFault(SimThread t, int site) {
    int k = site & 7;
    boolean eligible;
    switch (t.vmKind) {
      case SimHook.VM_OOM:
        eligible = k == SimHook.ALLOC || k == SimHook.CALL || k == SimHook.VALUE;
        break;
      case SimHook.VM_SOE:
        eligible = k == SimHook.ENTRY || k == SimHook.CALL || k == SimHook.VALUE;
        break;
      default:
        eligible = k != SimHook.USER;
    }
    if (!eligible || --t.vmCountdown > 0) return;
    int kind = t.vmKind;
    t.vmKind = 0;
    t.vmFired = true;
    t.vmSite = site;
    note(9000 + kind);
    switch (kind) {
      case SimHook.VM_OOM:
        throw new OutOfMemoryError("simulated");
      case SimHook.VM_SOE:
        throw new StackOverflowError("simulated");
      case SimHook.VM_DEATH:
        throw new SimKill();
      default:
        throw new InternalError("simulated");
    }
  }

  /** suspends the thread until every other thread is done or stuck. */
  public void freeze(SimThread t, int site) {
    t.frozen = true;
    t.freezeFired = true;
    note(8000 + t.idx);
    int next = forced(t);
    if (next == t.idx || next < 0) {
      t.frozen = false;
      return;
    }
    switchTo(t, next);
  }

  // --------------------------------------------------------------- switching

  private boolean runnable(SimThread t) {
    return !t.finished && !t.frozen && !t.blocked;
  }

  /** waits until threads stuck on real locks are either still stuck or back under control. */
  private void settle() {
    if (blockedSeen == 0) return;
    for (SimThread b : threads) {
      if (!b.blocked) continue;
      long end = System.nanoTime() + 200_000_000L;
      int calm = 0;
      while (b.blocked && calm < 3 && System.nanoTime() < end) {
        Thread.State st = b.getState();
        if (st == Thread.State.BLOCKED || st == Thread.State.WAITING || st == Thread.State.TIMED_WAITING) {
          calm++;
          java.util.concurrent.locks.LockSupport.parkNanos(100_000);
        } else {
          calm = 0;
          Thread.yield();
        }
      }
      // it cleared the flag just before parking: wait for the park itself
      while (!b.blocked && !b.simParked && !b.finished && b.idx != turn && System.nanoTime() < end) Thread.yield();
    }
  }

  private int choose(SimThread t, boolean forced) {
    settle();
    if (scratch == null) scratch = new int[threads.length];
    int n = 0;
    for (SimThread o : threads) if (runnable(o)) scratch[n++] = o.idx;
    if (n == 0) return -1;
    // a preempted thread yields to another one when there is one
    if (!forced && policy.kind != Policy.PCT && n > 1) {
      int m = 0;
      for (int i = 0; i < n; i++) if (scratch[i] != t.idx) scratch[m++] = scratch[i];
      n = m;
    }
    return policy.choose(this, scratch, n);
  }

  private void record(long s, int next, int site) {
    decisions.add(new long[] {s, next});
    preemptions++;
    if (site >>> 3 < 1_000_000) sites.set(site >>> 3);
    digest = Rng.mix(digest * 31 + s * 64 + next);
    scheduleHash = Rng.mix(scheduleHash * 31 + site * 64L + next);
  }

  /** a choice that has to be made because the running thread cannot go on. */
  private int forced(SimThread t) {
    settle();
    int next = -1;
    if (policy != null) {
      next = choose(t, true);
    } else {
      int want = -1;
      if (scriptPos < script.length && script[scriptPos][0] < 0) want = (int) script[scriptPos++][1];
      if (want >= 0 && want < threads.length && runnable(threads[want])) next = want;
      else for (SimThread o : threads) if (runnable(o)) { next = o.idx; break; }
    }
    if (next < 0) {
      // nobody can run: give back the frozen ones
      String stuck = null;
      for (SimThread o : threads) if (o.blocked && !o.finished) stuck = (stuck == null ? "" : stuck + " ") + o.getName() + " at " + where(o);
      SimThread thaw = null;
      for (SimThread o : threads) if (o.frozen && !o.finished) { thaw = o; break; }
      if (stuck != null && blockedReport == null) {
        blockedReport = stuck + (thaw != null ? " waits for suspended " + thaw.getName() + " at " + where(thaw) : " (nobody left to release it)");
      }
      if (thaw != null) {
        thaw.frozen = false;
        next = thaw.idx;
      } else {
        if (stuck != null) deadlock = true;
        return -1;
      }
    }
    decisions.add(new long[] {-1, next});
    digest = Rng.mix(digest * 31 + 5000 + next);
    return next;
  }

  private static String where(Thread t) {
    StringBuilder sb = new StringBuilder();
    int n = 0;
    for (StackTraceElement e : t.getStackTrace()) {
      String c = e.getClassName();
      if (c.startsWith("vp.") || c.startsWith("java.") || c.startsWith("jdk.") || c.startsWith("sun.")) continue;
      if (n++ > 0) sb.append('<');
      sb.append(c.substring(c.lastIndexOf('.') + 1)).append('.').append(e.getMethodName());
      if (n == 2) break;
    }
    return n == 0 ? "caller code" : sb.toString();
  }

  private void switchTo(SimThread from, int next) {
    if (watch != null) watch.look(from, true);
    from.simParked = true;
    turn = next;
    threads[next].gate.release();
    from.gate.acquireUninterruptibly();
    from.simParked = false;
  }

  private void await(SimThread t) {
    t.simParked = true;
    t.gate.acquireUninterruptibly();
    t.simParked = false;
  }

  void finish(SimThread t) {
    if (turn != t.idx) {
      t.blocked = false;
      await(t);
    }
    t.finished = true;
    boolean all = true;
    for (SimThread o : threads) all &= o.finished;
    if (all) {
      done.release();
      return;
    }
    int next;
    if (aborted) {
      next = -1;
      for (SimThread o : threads) if (!o.finished && !o.blocked) { o.frozen = false; next = o.idx; break; }
      if (next < 0) {
        deadlock = true;
        done.release();
        return;
      }
    } else {
      next = forced(t);
      if (next < 0) {
        aborted = true;
        done.release();
        return;
      }
    }
    turn = next;
    threads[next].gate.release();
  }

  // ------------------------------------------------------------------ driver

  /** runs all threads to the end; the caller is the watchdog for real blocking. */
  public void run(SimThread[] ts) {
    threads = ts;
    for (SimThread t : ts) t.start();
    int first = forcedFirst();
    turn = first;
    ts[first].gate.release();
    long lastStep = -1;
    int lastTurn = -1;
    int same = 0;
    long began = System.nanoTime();
    while (true) {
      try {
        if (done.tryAcquire(same == 0 ? 20 : 3, TimeUnit.MILLISECONDS)) break;
      } catch (InterruptedException e) {
        throw new IllegalStateException(e);
      }
      long s = step;
      int tn = turn;
      if (s != lastStep || tn != lastTurn) {
        lastStep = s;
        lastTurn = tn;
        same = 0;
        began = System.nanoTime();
        continue;
      }
      SimThread cur = threads[tn];
      Thread.State st = cur.getState();
      if (!cur.simParked && !cur.finished && (st == Thread.State.BLOCKED || st == Thread.State.WAITING || st == Thread.State.TIMED_WAITING && others(cur))) {
        if (++same >= 5) {
          same = 0;
          cur.blocked = true;
          blockedSeen++;
          if (aborted) {
            boolean any = false;
            for (SimThread o : threads) if (!o.finished && !o.blocked) { o.frozen = false; turn = o.idx; o.gate.release(); any = true; break; }
            if (!any) { deadlock = true; return; }
            continue;
          }
          int next = forced(cur);
          if (next < 0) {
            aborted = true;
            return;
          }
          turn = next;
          threads[next].gate.release();
        }
      } else {
        same = 0;
        if (System.nanoTime() - began > 30_000_000_000L) {
          harnessError = new IllegalStateException("no progress at step " + s + " in " + cur.getName() + " " + st + " " + where(cur));
          aborted = true;
          return;
        }
      }
    }
  }

  private boolean others(SimThread t) {
    for (SimThread o : threads) if (o != t && !o.finished) return true;
    return false;
  }

  private int forcedFirst() {
    int next = 0;
    if (policy != null) {
      next = choose(threads[0], true);
    } else if (scriptPos < script.length && script[scriptPos][0] < 0) {
      next = (int) script[scriptPos++][1];
      if (next >= threads.length) next = 0;
    }
    decisions.add(new long[] {-1, next});
    return next;
  }
}
