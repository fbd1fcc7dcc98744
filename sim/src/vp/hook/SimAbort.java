package vp.hook;

/** Unwinds a simulated thread when the run is given up. */
public final class SimAbort extends Error {
  public SimAbort(String m) {
    super(m, null, false, false);
  }
}
