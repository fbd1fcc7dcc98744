package vp.core;

import java.util.List;

/** Runs cases in given or fresh copies of the library. */
final class Runner {
  static final class Result {
    Violation violation;
    Exec exec;
    int failedAt = -1;

    long digest() {
      return exec.sim.digest;
    }
  }

  /** set up, run, judge */
  static final long[] nanos = new long[3];

  final Loaders loaders;
  Api sut;
  Api twin;

  Runner(Loaders l) {
    loaders = l;
    fresh();
  }

  void fresh() {
    sut = loaders.load(true);
    twin = loaders.load(false);
  }

  Result run(Case c) {
    Result r = new Result();
    Exec x = new Exec(c, sut, twin);
    r.exec = x;
    long t0 = System.nanoTime();
    x.setUp();
    long t1 = System.nanoTime();
    x.run();
    long t2 = System.nanoTime();
    r.violation = new Judge(x).judge();
    nanos[0] += t1 - t0;
    nanos[1] += t2 - t1;
    nanos[2] += System.nanoTime() - t2;
    return r;
  }

  /** all cases in order, in fresh copies; stops at the first violation. */
  Result runList(List<Case> cs) {
    fresh();
    Result r = null;
    for (int i = 0; i < cs.size(); i++) {
      r = run(cs.get(i));
      if (r.violation != null) {
        r.failedAt = i;
        return r;
      }
    }
    return r;
  }
}
