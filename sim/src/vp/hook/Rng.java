package vp.hook;

/** SplitMix64: the only source of randomness in the simulator. */
public final class Rng {
  private long s;

  public Rng(long seed) {
    this.s = seed;
  }

  public static long mix(long z) {
    z = (z ^ (z >>> 30)) * 0xbf58476d1ce4e5b9L;
    z = (z ^ (z >>> 27)) * 0x94d049bb133111ebL;
    return z ^ (z >>> 31);
  }

  public static long derive(long a, long b) {
    return mix(mix(a + 0x9e3779b97f4a7c15L) + b * 0xd1342543de82ef95L + 0x632be59bd9b4e019L);
  }

  public long next() {
    s += 0x9e3779b97f4a7c15L;
    return mix(s);
  }

  public int below(int n) {
    return (int) ((next() >>> 33) % n);
  }

  public int range(int lo, int hi) {
    return lo + below(hi - lo + 1);
  }

  public boolean chance(int num, int den) {
    return below(den) < num;
  }

  public <T> T pick(T[] a) {
    return a[below(a.length)];
  }

  public <T> T pick(java.util.List<T> a) {
    return a.get(below(a.size()));
  }

  public int pick(int[] a) {
    return a[below(a.length)];
  }
}
