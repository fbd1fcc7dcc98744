package vp.hook;

import java.util.concurrent.Semaphore;

/** A simulated thread: a real thread that runs only while the scheduler gives it the turn. */
public final class SimThread extends Thread {
  public final Sim sim;
  public final int idx;
  final Runnable body;
  final Semaphore gate = new Semaphore(0);
  volatile boolean simParked = true;
  volatile boolean blocked;
  volatile boolean finished;
  boolean frozen;

  /** greater than zero while scheduling points are switched off (class initialisers, harness). */
  int suppress;

  /** depth of library frames on this thread's stack. */
  public int depth;

  public int maxDepth;
  public int depthLimit = Integer.MAX_VALUE;

  /** scheduling points passed inside the current operation. */
  public int opPoints;

  /** characters and elements copied or searched by the platform for the current operation. */
  public long opMoved;

  // platform objects in use by the calls this thread is in
  Object[] busyObjects = new Object[32];
  int[] busyModes = new int[32];
  public int busyDepth;

  void busy(Object o, int mode) {
    if (busyDepth < busyObjects.length) {
      busyObjects[busyDepth] = o;
      busyModes[busyDepth] = mode;
    }
    busyDepth++;
  }

  /** what the current operation did to its surroundings. */
  public String outside;

  /** current operation record of the harness. */
  public Object op;

  // armed virtual machine fault
  public int vmKind;
  public int vmCountdown;
  public boolean vmFired;
  public int vmSite;
  // armed freeze / interrupt at the n-th point of the operation
  public int freezeAt = -1;
  public int interruptAt = -1;
  public boolean freezeFired;
  public boolean interruptFired;
  public int maxAlloc;

  public SimThread(Sim sim, int idx, Runnable body) {
    super(sim.group, null, "sim-" + idx, 0);
    this.sim = sim;
    this.idx = idx;
    this.body = body;
    setDaemon(true);
  }

  @Override
  public void run() {
    gate.acquireUninterruptibly();
    simParked = false;
    try {
      if (!sim.aborted) body.run();
    } catch (SimAbort e) {
      // given up
    } catch (Throwable e) {
      sim.harnessError = e;
    }
    sim.finish(this);
  }
}
