package vp.hook;

/** Seeded choice of when to preempt and whom to run next. */
public final class Policy {
  public static final int SERIAL = 0;
  public static final int RANDOM = 1;
  public static final int PCT = 2;
  public static final int SITES = 3;
  public static final int ROBIN = 4;
  public static final int CALLBACKS = 5;

  public final int kind;
  public final int param;
  public final int kindsMask;
  public final long seed;
  private final Rng rng;
  private int countdown;
  private int[] prio;
  private long[] change;
  private int changeIdx;
  private int low = -1;

  public Policy(int kind, int param, int kindsMask, long seed) {
    this.kind = kind;
    this.param = Math.max(1, param);
    this.kindsMask = kindsMask;
    this.seed = seed;
    this.rng = new Rng(seed);
    this.countdown = draw();
  }

  public static Policy random(Rng r) {
    int kind = r.pick(new int[] {SERIAL, RANDOM, RANDOM, RANDOM, PCT, PCT, SITES, SITES, SITES, ROBIN, CALLBACKS, CALLBACKS});
    int param;
    switch (kind) {
      case RANDOM:
        param = r.pick(new int[] {2, 4, 8, 16, 32, 64, 128, 300});
        break;
      case PCT:
        param = r.pick(new int[] {100, 300, 1000, 3000});
        break;
      case SITES:
        param = r.pick(new int[] {2, 4, 8, 16, 32});
        break;
      case ROBIN:
        param = r.pick(new int[] {1, 2, 3, 5, 9, 17, 40});
        break;
      default:
        param = 2;
    }
    int hot = bit(SimHook.FIELD) | bit(SimHook.ARRAY) | bit(SimHook.CALL) | bit(SimHook.SYNC) | bit(SimHook.USER);
    int mask = r.chance(1, 4) ? 0xff : hot;
    if (r.chance(1, 4)) mask &= ~bit(SimHook.ARRAY);
    return new Policy(kind, param, mask, r.next());
  }

  private static int bit(int k) {
    return 1 << k;
  }

  private int draw() {
    switch (kind) {
      case RANDOM:
        return 1 + rng.below(2 * param);
      case ROBIN:
        return param;
      default:
        return 1;
    }
  }

  /** does the running thread give up its turn here? */
  boolean preempt(Sim sim, SimThread t, int site) {
    int k = site & 7;
    if ((kindsMask & (1 << k)) == 0) return false;
    switch (kind) {
      case RANDOM:
      case ROBIN:
        if (--countdown > 0) return false;
        countdown = draw();
        return true;
      case PCT:
        init(sim);
        if (changeIdx < change.length && sim.step >= change[changeIdx]) {
          changeIdx++;
          prio[t.idx] = low--;
          return true;
        }
        return false;
      case SITES:
        // a seeded subset of program sites, each taken half of the time
        return Rng.mix(seed ^ (site * 0x9e3779b97f4a7c15L)) >>> 1 <= Long.MAX_VALUE / param && rng.chance(1, 2);
      case CALLBACKS:
        return k == SimHook.USER && rng.chance(1, 2);
      default:
        return false;
    }
  }

  private void init(Sim sim) {
    if (prio != null) return;
    int n = sim.threads.length;
    prio = new int[n];
    for (int i = 0; i < n; i++) prio[i] = i;
    for (int i = n - 1; i > 0; i--) {
      int j = rng.below(i + 1);
      int x = prio[i];
      prio[i] = prio[j];
      prio[j] = x;
    }
    int d = rng.range(1, 4);
    change = new long[d];
    for (int i = 0; i < d; i++) change[i] = sim.step + 1 + rng.below(param);
    java.util.Arrays.sort(change);
  }

  /** picks among the runnable threads; others first when yielding. */
  int choose(Sim sim, int[] runnable, int n) {
    if (n == 1) return runnable[0];
    if (kind == PCT) {
      init(sim);
      int best = runnable[0];
      for (int i = 1; i < n; i++) if (prio[runnable[i]] > prio[best]) best = runnable[i];
      return best;
    }
    if (kind == ROBIN) {
      int cur = sim.turn;
      for (int i = 0; i < n; i++) if (runnable[i] > cur) return runnable[i];
      return runnable[0];
    }
    return runnable[rng.below(n)];
  }

  @Override
  public String toString() {
    return new String[] {"serial", "random", "pct", "sites", "robin", "callbacks"}[kind] + "/" + param + "/" + Integer.toHexString(kindsMask);
  }
}
