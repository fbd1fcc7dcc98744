package vp.hook;

/** Stands for the thread being stopped at an arbitrary point. */
public final class SimKill extends Error {
  public SimKill() {
    super("simulated thread kill");
  }
}
