package vp.core;

import vp.hook.SimThread;

/** Caller supplied argument objects: every use of them is a point for the simulator. */
public final class Cb {
  private Cb() {}

  static void hit(int id, String method) {
    hit(id, method, false);
  }

  static void hit(int id, String method, boolean soft) {
    Thread t = Thread.currentThread();
    if (t instanceof SimThread) {
      OpRun r = (OpRun) ((SimThread) t).op;
      if (r != null) r.callback((SimThread) t, id, method, soft);
    } else {
      foreign();
    }
  }

  /** set while a simulation runs; caller code may then only run on simulated threads. */
  static volatile Exec running;

  static void foreign() {
    Exec x = running;
    if (x != null) x.foreignThread = Thread.currentThread().getName().replaceAll("[0-9]+", "#");
  }

  /** plain object, rendered by toString. */
  public static final class Obj {
    final int id;
    String text;
    final boolean soft;

    Obj(int id, String text) {
      this(id, text, false);
    }

    Obj(int id, String text, boolean soft) {
      this.id = id;
      this.text = text;
      this.soft = soft;
    }

    @Override
    public String toString() {
      hit(id, "toString", soft);
      return text;
    }
  }

  /** custom character sequence. */
  public static final class Chars implements CharSequence {
    final int id;
    String text;

    Chars(int id, String text) {
      this.id = id;
      this.text = text;
    }

    @Override
    public int length() {
      hit(id, "length");
      return text.length();
    }

    @Override
    public char charAt(int i) {
      hit(id, i == 0 ? "charAt0" : "charAt");
      return text.charAt(i);
    }

    @Override
    public CharSequence subSequence(int a, int b) {
      hit(id, "subSequence");
      return text.substring(a, b);
    }

    @Override
    public String toString() {
      hit(id, "toString");
      return text;
    }
  }

  /** custom number; also the payload of a custom conversion trait. */
  public static final class Num extends Number {
    public final int id;
    public long value;

    Num(int id, long value) {
      this.id = id;
      this.value = value;
    }

    public void use(String how) {
      hit(id, how);
    }

    @Override
    public int intValue() {
      hit(id, "intValue");
      return (int) value;
    }

    @Override
    public long longValue() {
      hit(id, "longValue");
      return value;
    }

    @Override
    public float floatValue() {
      hit(id, "floatValue");
      return value;
    }

    @Override
    public double doubleValue() {
      hit(id, "doubleValue");
      return value + 0.5;
    }

    @Override
    public String toString() {
      hit(id, "toString");
      return "n" + value;
    }
  }

  /** date value that calls back on every field read. */
  public static final class Tmp implements java.time.temporal.TemporalAccessor {
    final int id;
    final java.time.ZonedDateTime value;

    Tmp(int id, java.time.ZonedDateTime value) {
      this.id = id;
      this.value = value;
    }

    @Override
    public boolean isSupported(java.time.temporal.TemporalField f) {
      hit(id, "isSupported");
      return value.isSupported(f);
    }

    @Override
    public long getLong(java.time.temporal.TemporalField f) {
      hit(id, "getLong");
      return value.getLong(f);
    }

    @Override
    public <R> R query(java.time.temporal.TemporalQuery<R> q) {
      return value.query(q);
    }

    @Override
    public String toString() {
      hit(id, "toString");
      return "tmp:" + value;
    }
  }

  /** stands for a caller's own argument list. */
  public static final class Own {
    public void use(String how) {
      hit(LIST, how);
    }
  }

  static final int LIST = 800000;

  /** producer of a lazy rope's text; also the text of a caller's own sequence. */
  public static final class Lazy implements java.util.function.Consumer<StringBuilder> {
    public final int id;
    public final String text;

    public Lazy(int id, String text) {
      this.id = id;
      this.text = text;
    }

    public void use(String how) {
      hit(id, how);
    }

    @Override
    public void accept(StringBuilder sb) {
      hit(id, "lazy");
      int h = text.length() / 2;
      sb.append(text, 0, h);
      hit(id, "lazyMid");
      sb.append(text, h, text.length());
    }
  }

  /** object that formats again while it is being rendered. */
  public static final class Nest implements CharSequence {
    final int id;
    final Exec exec;
    final int var;
    final int args;
    boolean soft;

    Nest(int id, Exec exec, int var, int args) {
      this.id = id;
      this.exec = exec;
      this.var = var;
      this.args = args;
    }

    String render() {
      Thread t = Thread.currentThread();
      if (!(t instanceof SimThread)) return exec.inertNest(var, args);
      hit(id, "nest", soft);
      String s = exec.nested((SimThread) t, var, args);
      hit(id, "nested", soft);
      return s;
    }

    @Override
    public String toString() {
      return render();
    }

    @Override
    public int length() {
      return render().length();
    }

    @Override
    public char charAt(int i) {
      return (i == 0 ? render() : exec.inertNest(var, args)).charAt(i);
    }

    @Override
    public CharSequence subSequence(int a, int b) {
      return render().substring(a, b);
    }
  }

  /** the same, seen only as an object. */
  public static final class NestObj {
    final Nest n;

    NestObj(Nest n) {
      this.n = n;
    }

    @Override
    public String toString() {
      return n.render();
    }
  }

  /** a number that formats again when asked for its value. */
  public static final class NestNum extends Number {
    final Nest n;
    final long value;

    NestNum(Nest n, long value) {
      this.n = n;
      this.value = value;
    }

    @Override
    public int intValue() {
      n.render();
      return (int) value;
    }

    @Override
    public long longValue() {
      n.render();
      return value;
    }

    @Override
    public float floatValue() {
      n.render();
      return value;
    }

    @Override
    public double doubleValue() {
      n.render();
      return value;
    }

    @Override
    public String toString() {
      n.render();
      return Long.toString(value);
    }
  }
}
