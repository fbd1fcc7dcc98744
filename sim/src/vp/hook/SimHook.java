package vp.hook;

/** Static entry points the instrumented library classes call. */
public final class SimHook {
  // kinds of points, in the low three bits of a site number
  public static final int FIELD = 0;
  public static final int ARRAY = 1;
  public static final int CALL = 2; // call into the platform on a possibly mutable object
  public static final int VALUE = 3; // call into the platform on an immutable value class
  public static final int ALLOC = 4;
  public static final int ENTRY = 5;
  public static final int SYNC = 6;
  public static final int USER = 7; // caller supplied code: argument, destination, operation

  public static final int VM_OOM = 1;
  public static final int VM_SOE = 2;
  public static final int VM_DEATH = 3;
  public static final int VM_INTERNAL = 4;

  private SimHook() {}

  /** a scheduling and fault point. */
  public static void y(int site) {
    Thread th = Thread.currentThread();
    if (!(th instanceof SimThread)) return;
    SimThread t = (SimThread) th;
    if (t.suppress > 0) return;
    t.sim.point(t, site);
  }

  public static void enter(int site) {
    Thread th = Thread.currentThread();
    if (!(th instanceof SimThread)) return;
    SimThread t = (SimThread) th;
    int d = ++t.depth;
    if (d > t.maxDepth) t.maxDepth = d;
    if (t.suppress > 0) return;
    try {
      if (d > t.depthLimit) throw new StackOverflowError("simulated stack limit");
      t.sim.point(t, site);
    } catch (Throwable e) {
      // the caller's frame is not entered, so its exit is not run
      t.depth--;
      throw e;
    }
  }

  public static void exit() {
    Thread th = Thread.currentThread();
    if (th instanceof SimThread) ((SimThread) th).depth--;
  }

  public static void enterInit() {
    Thread th = Thread.currentThread();
    if (th instanceof SimThread) ((SimThread) th).suppress++;
  }

  public static void exitInit() {
    Thread th = Thread.currentThread();
    if (th instanceof SimThread) ((SimThread) th).suppress--;
  }

  private static final java.util.IdentityHashMap<Object, Integer> identities = new java.util.IdentityHashMap<Object, Integer>();

  /** identity hash codes are numbers in order of first use, so that every run sees the same ones. */
  public static synchronized int identityHashCode(Object o) {
    if (o == null) return 0;
    if (o instanceof Identified) o = ((Identified) o).identity();
    Integer i = identities.get(o);
    if (i == null) {
      int n = identities.size();
      if (different > 0) n %= different;
      i = 0x10000000 | ((n + 1) * 0x9e3779b1 & 0xfffffff);
      identities.put(o, i);
    }
    return i;
  }

  private static int different;

  /** n: how many different identity hash codes there are, 0 for no limit. */
  public static synchronized void newRun(int n) {
    identities.clear();
    different = n;
  }

  /** the library is about to hand work to another thread or the system. */
  public static void started(String how) {
    Thread th = Thread.currentThread();
    if (th instanceof SimThread && ((SimThread) th).outside == null) ((SimThread) th).outside = "work was handed to another thread or the system through " + how;
  }

  /** an allocation of n elements or characters is about to be requested. */
  public static void alloc(int n) {
    Thread th = Thread.currentThread();
    if (th instanceof SimThread) {
      SimThread t = (SimThread) th;
      if (n > t.maxAlloc) t.maxAlloc = n;
      if (n > Sim.ALLOC_WALL && t.suppress == 0) {
        // do not let the sandbox pay for a runaway request
        throw new OutOfMemoryError("simulated: request of " + n);
      }
    }
  }
}
