package vp.core;

import java.io.IOException;
import vp.hook.SimHook;
import vp.hook.SimThread;

/** A destination under the simulator's control. */
public final class SimSink implements Appendable, java.io.Flushable, java.io.Closeable {
  static final int SITE_BEFORE = (1_000_001 << 3) | SimHook.USER;
  static final int SITE_CHAR = (1_000_002 << 3) | SimHook.USER;
  static final int SITE_AFTER = (1_000_003 << 3) | SimHook.USER;

  final StringBuilder content = new StringBuilder();
  final boolean shared;
  boolean closed;

  SimSink(boolean shared, String init) {
    this.shared = shared;
    content.append(init);
  }

  @Override
  public Appendable append(CharSequence s) throws IOException {
    if (s == null) s = "null";
    return write(s, 0, s.length());
  }

  @Override
  public Appendable append(CharSequence s, int a, int b) throws IOException {
    if (s == null) s = "null";
    return write(s, a, b);
  }

  @Override
  public Appendable append(char c) throws IOException {
    return write(String.valueOf(c), 0, 1);
  }

  @Override
  public void flush() throws IOException {
    Thread th = Thread.currentThread();
    if (!(th instanceof SimThread)) return;
    OpRun r = (OpRun) ((SimThread) th).op;
    SimHook.y(SITE_BEFORE);
    // a destination that failed once fails to flush, too, and with another exception
    if (r.sinkFailed) throw new IOException("flush after failure");
  }

  @Override
  public void close() throws IOException {
    closed = true;
    flush();
  }

  private Appendable write(CharSequence s, int a, int b) throws IOException {
    Thread th = Thread.currentThread();
    if (!(th instanceof SimThread)) {
      Cb.foreign();
      content.append(s, a, b);
      return this;
    }
    SimThread t = (SimThread) th;
    OpRun r = (OpRun) t.op;
    r.writes++;
    if (r.sinkFailed) r.writeAfterFail = true;
    SimHook.y(SITE_BEFORE);
    for (Case.Fault f : r.op.faults) {
      if (f.kind.equals("freeze.sink") && f.n == r.writes) {
        r.fire(f);
        t.sim.freeze(t, SITE_BEFORE);
      } else if (f.kind.equals("sink.nest") && f.n == r.writes) {
        r.fire(f);
        r.exec.nested(t, f.a, f.b);
      }
    }
    int len = b - a;
    for (Case.Fault f : r.op.faults) {
      if (!f.kind.startsWith("sink.") || f.kind.equals("sink.nest") || r.sinkFailed) continue;
      // n is the number of characters the destination takes before it fails
      if (r.accepted + len <= f.n) continue;
      int take = f.a == 1 ? f.n - r.accepted : 0;
      if (take > 0) put(r, s, a, a + take, t);
      r.sinkFailed = true;
      r.fire(f);
      Throwable e = Faults.make(f.kind, r.exec);
      r.injected = e;
      Faults.<IOException>sneak(e);
    }
    int had = r.delivered.length();
    put(r, s, a, b, t);
    if (!(s instanceof String) && r.exec.c.prop.equals("C13") && r.handed.size() < 200 && b - a <= 4096) r.handed.add(new Object[] {s, a, b, r.delivered.substring(had)});
    if (!shared) SimHook.y(SITE_AFTER);
    // what append returns is no part of where the text goes
    return (r.op.mode & 2) != 0 ? null : (r.op.mode & 4) != 0 ? new Other() : this;
  }

  /** another destination, whose text nobody reads. */
  private static final class Other implements Appendable {
    @Override
    public Appendable append(CharSequence s) {
      return this;
    }

    @Override
    public Appendable append(CharSequence s, int a, int b) {
      return this;
    }

    @Override
    public Appendable append(char c) {
      return this;
    }
  }

  private void put(OpRun r, CharSequence s, int a, int b, SimThread t) {
    if (shared || (r.op.mode & 1) == 0 || b - a > 64) {
      content.append(s, a, b);
      r.delivered.append(s, a, b);
      r.accepted += b - a;
    } else {
      for (int i = a; i < b; i++) {
        char c = s.charAt(i);
        content.append(c);
        r.delivered.append(c);
        r.accepted++;
        SimHook.y(SITE_CHAR);
      }
    }
  }
}
