package vp.sut;

import io.fastprintf.Args;
import io.fastprintf.FastPrintf;
import io.fastprintf.PrintfException;
import io.fastprintf.number.FloatForm;
import io.fastprintf.number.IntForm;
import io.fastprintf.seq.AtomicSeq;
import io.fastprintf.seq.Seq;
import io.fastprintf.traits.FormatTraits;
import io.fastprintf.traits.RefSlot;
import java.io.IOException;
import java.math.BigDecimal;
import java.math.BigInteger;
import java.time.LocalDate;
import java.time.temporal.TemporalAccessor;
import java.util.ArrayList;
import java.util.Arrays;
import java.util.Collections;
import java.util.List;
import vp.core.Api;
import vp.core.Cb;
import vp.core.Exec;
import vp.core.Values.Prim;

/** Adapter between the harness and one copy of the library. */
public final class Driver implements Api {

  @Override
  public Object compile(String format) {
    return FastPrintf.compile(format);
  }

  @Override
  public Object cache(Object f) {
    return ((FastPrintf) f).enableThreadLocalCache();
  }

  @Override
  public Object capacity(Object f, int n) {
    return ((FastPrintf) f).setStringBuilderInitialCapacity(n);
  }

  @Override
  public Object args(String how, Object[] values, Object[] source) {
    if (how.equals("of")) {
      Object[] a = unwrap(values);
      if (source != null) source[0] = a;
      return Args.of(a);
    }
    if (how.equals("iter")) {
      List<Object> l = new ArrayList<Object>(Arrays.asList(unwrap(values)));
      if (source != null) source[0] = l;
      return Args.of((Iterable<?>) l);
    }
    if (how.equals("iterable")) {
      final List<Object> l = new ArrayList<Object>(Arrays.asList(unwrap(values)));
      if (source != null) source[0] = l;
      return Args.of((Iterable<?>) () -> l.iterator());
    }
    if (how.equals("own")) return new OwnArgs(unwrap(values));
    Args args = how.equals("typed") ? Args.create() : Args.createWithExpectedSize(values.length);
    for (int i = 0; i < values.length; i++) {
      Object v = values[i];
      if (how.equals("typed") && v == null) nothing(args, i);
      else if (how.equals("typed")) typed(args, v);
      else args.put(v instanceof Prim ? ((Prim) v).boxed : v);
    }
    return args;
  }

  private static boolean prims(Object[] v) {
    for (Object o : v) if (o instanceof Prim) return true;
    return false;
  }

  private static Object[] unwrap(Object[] v) {
    Object[] a = new Object[v.length];
    for (int i = 0; i < a.length; i++) a[i] = v[i] instanceof Prim ? ((Prim) v[i]).boxed : v[i];
    return a;
  }

  /** one of the many ways to put nothing. */
  private static void nothing(Args args, int i) {
    switch (i % 14) {
      case 0:
        args.putNull();
        return;
      case 1:
        args.putString(null);
        return;
      case 2:
        args.putIntOrNull(null);
        return;
      case 3:
        args.putCharSequence(null);
        return;
      case 4:
        args.putBigDecimal(null);
        return;
      case 5:
        args.putDateTime(null);
        return;
      case 6:
        args.putLongOrNull(null);
        return;
      case 7:
        args.putBooleanOrNull(null);
        return;
      case 8:
        args.putCharOrNull(null);
        return;
      case 9:
        args.putDoubleOrNull(null);
        return;
      case 10:
        args.putBigInteger(null);
        return;
      case 11:
        args.putByteOrNull(null);
        return;
      case 12:
        args.putShortOrNull(null);
        return;
      default:
        args.putFloatOrNull(null);
    }
  }

  private static void typed(Args args, Object v) {
    if (v instanceof Prim) {
      Object b = ((Prim) v).boxed;
      if (b instanceof Boolean) args.putBoolean((Boolean) b);
      else if (b instanceof Character) args.putChar((Character) b);
      else if (b instanceof Byte) args.putByte((Byte) b);
      else if (b instanceof Short) args.putShort((Short) b);
      else if (b instanceof Integer) args.putInt((Integer) b);
      else if (b instanceof Long) args.putLong((Long) b);
      else if (b instanceof Float) args.putFloat((Float) b);
      else args.putDouble((Double) b);
    } else if (v == null) args.putNull();
    else if (v instanceof Boolean) args.putBooleanOrNull((Boolean) v);
    else if (v instanceof Character) args.putCharOrNull((Character) v);
    else if (v instanceof Byte) args.putByteOrNull((Byte) v);
    else if (v instanceof Short) args.putShortOrNull((Short) v);
    else if (v instanceof Integer) args.putIntOrNull((Integer) v);
    else if (v instanceof Long) args.putLongOrNull((Long) v);
    else if (v instanceof Float) args.putFloatOrNull((Float) v);
    else if (v instanceof Double) args.putDoubleOrNull((Double) v);
    else if (v instanceof String) args.putString((String) v);
    else if (v instanceof CharSequence) args.putCharSequence((CharSequence) v);
    else if (v instanceof BigInteger) args.putBigInteger((BigInteger) v);
    else if (v instanceof BigDecimal) args.putBigDecimal((BigDecimal) v);
    else if (v instanceof TemporalAccessor) args.putDateTime((TemporalAccessor) v);
    else args.put(v);
  }

  @Override
  public void put(Object args, Object v, boolean any) {
    if (any) ((Args) args).put(v instanceof Prim ? ((Prim) v).boxed : v);
    else typed((Args) args, v);
  }

  @Override
  public List<Object> values(Object args) {
    return ((Args) args).values();
  }

  @Override
  public String format(Object f, Object args) {
    return ((FastPrintf) f).format((Args) args);
  }

  @Override
  public String formatVar(Object f, Object[] values) {
    return ((FastPrintf) f).format(prims(values) ? unwrap(values) : values);
  }

  @Override
  public <T extends Appendable> T formatTo(Object f, T sink, Object args) {
    return ((FastPrintf) f).format(sink, (Args) args);
  }

  @Override
  public Throwable printfError(String message) {
    return new PrintfException(message);
  }

  @Override
  public Object traits(final Cb.Num cb) {
    return new FormatTraits() {
      @Override
      public IntForm asIntForm() {
        cb.use("asIntForm");
        return IntForm.valueOf(cb.value);
      }

      @Override
      public FloatForm asFloatForm() {
        cb.use("asFloatForm");
        return FloatForm.valueOf(cb.value + 0.25);
      }

      @Override
      public String asString() {
        cb.use("asString");
        return "t" + cb.value;
      }

      @Override
      public int asInt() {
        cb.use("asInt");
        return (int) cb.value;
      }

      @Override
      public TemporalAccessor asTemporalAccessor() {
        cb.use("asTemporalAccessor");
        return LocalDate.ofEpochDay(cb.value % 10000);
      }

      @Override
      public Object asObject() {
        cb.use("asObject");
        return cb;
      }

      @Override
      public RefSlot ref() {
        return RefSlot.of(cb);
      }
    };
  }

  // ----------------------------------------------------------------- ropes

  @Override
  public Object rope(List<String> d, Object[] t, Cb.Lazy lazy) {
    switch (d.get(0)) {
      case "wrap":
        return Seq.wrap(d.get(1));
      case "rng":
        return Seq.wrap(d.get(1), n(d, 2), n(d, 3));
      case "from":
        return Seq.wrap(d.get(1), n(d, 2));
      case "ch":
        return Seq.ch(d.get(1).charAt(0));
      case "rep":
        return Seq.repeated(d.get(1).charAt(0), n(d, 2));
      case "arr":
        return Seq.forArray(d.get(1).toCharArray(), n(d, 2), n(d, 3));
      case "arrall":
        return Seq.forArray(d.get(1).toCharArray());
      case "lazy":
        return Seq.lazy(lazy, d.get(1).length());
      case "own":
        return new OwnSeq(lazy, lazy.text);
      case "chain":
        {
          Seq s = null;
          for (int i = 0; i < n(d, 2); i++) {
            Seq w = Seq.wrap(d.get(1) + (char) ('a' + i % 26));
            s = s == null ? w : Exec.chainFront(d.get(3), i) ? s.prepend(w) : s.append(w);
          }
          return s;
        }
      case "empty":
        return Seq.empty();
      case "cat":
        return Seq.concat(r(t, d, 1), r(t, d, 2));
      case "app":
        return r(t, d, 1).append(r(t, d, 2));
      case "pre":
        return r(t, d, 1).prepend(r(t, d, 2));
      case "up":
        return r(t, d, 1).upperCase();
      case "sub":
        return r(t, d, 1).subSequence(n(d, 2), n(d, 3));
      case "dup":
        return r(t, d, 1).dup();
      case "join":
        {
          List<AtomicSeq> l = new ArrayList<AtomicSeq>();
          for (int i = 1; i < d.size(); i++) {
            Seq s = r(t, d, i);
            if (s instanceof AtomicSeq) l.add((AtomicSeq) s);
            else l.add(Seq.wrap(s.toString()));
          }
          return Seq.join(l);
        }
      default:
        throw new IllegalArgumentException(d.get(0));
    }
  }

  private static Seq r(Object[] t, List<String> d, int i) {
    return (Seq) t[n(d, i)];
  }

  private static int n(List<String> d, int i) {
    return Integer.parseInt(d.get(i));
  }

  @Override
  public int ropeLength(Object r) {
    return ((Seq) r).length();
  }

  @Override
  public char ropeChar(Object r, int i) {
    return ((Seq) r).charAt(i);
  }

  @Override
  public int ropeIndexOf(Object r, char c) {
    return ((Seq) r).indexOf(c);
  }

  @Override
  public boolean ropeStartsWith(Object r, char c) {
    return ((Seq) r).startsWith(c);
  }

  @Override
  public boolean ropeIsEmpty(Object r) {
    return ((Seq) r).isEmpty();
  }

  @Override
  public void ropeTo(Object r, StringBuilder sb) {
    ((Seq) r).appendTo(sb);
  }

  @Override
  public void ropeTo(Object r, Appendable sink) throws IOException {
    ((Seq) r).appendTo(sink);
  }

  @Override
  public Object ropeMap(Object r) {
    return ((Seq) r).map(s -> s.upperCase());
  }

  @Override
  public String ropeJoined(Object r) {
    if (!(r instanceof Iterable)) return ((Seq) r).toString();
    StringBuilder sb = new StringBuilder();
    java.util.Iterator<?> it = ((Iterable<?>) r).iterator();
    while (it.hasNext()) sb.append(it.next().toString());
    try {
      sb.append(" and then ").append(it.next());
    } catch (java.util.NoSuchElementException e) {
      sb.setLength(sb.length() - " and then ".length());
    }
    return sb.toString();
  }

  /** a caller's own text sequence. */
  static final class OwnSeq implements AtomicSeq, vp.hook.Identified {
    private final Cb.Lazy cb;
    private final String text;

    OwnSeq(Cb.Lazy cb, String text) {
      this.cb = cb;
      this.text = text;
    }

    @Override
    public Object identity() {
      return cb;
    }

    @Override
    public int length() {
      cb.use("length");
      return text.length();
    }

    @Override
    public char charAt(int i) {
      cb.use("charAt");
      return text.charAt(i);
    }

    @Override
    public AtomicSeq subSequence(int a, int b) {
      cb.use("subSequence");
      return new OwnSeq(cb, text.substring(a, b));
    }

    @Override
    public AtomicSeq upperCase() {
      cb.use("upperCase");
      char[] a = text.toCharArray();
      for (int i = 0; i < a.length; i++) if (a[i] >= 'a' && a[i] <= 'z') a[i] -= 32;
      return new OwnSeq(cb, new String(a));
    }

    @Override
    public String toString() {
      cb.use("toString");
      return text;
    }
  }

  /** a caller's own argument list. */
  static final class OwnArgs implements Args {
    private final Args inner;
    private final Cb.Own cb = new Cb.Own();

    OwnArgs(Object[] values) {
      inner = Args.of(values);
    }

    @Override
    public java.util.Iterator<FormatTraits> iterator() {
      cb.use("iterator");
      final java.util.Iterator<FormatTraits> i = inner.iterator();
      return new java.util.Iterator<FormatTraits>() {
        @Override
        public boolean hasNext() {
          return i.hasNext();
        }

        @Override
        public FormatTraits next() {
          cb.use("next");
          return i.next();
        }
      };
    }

    @Override
    public String toString() {
      return inner.toString();
    }

    @Override
    public List<Object> values() {
      return inner.values();
    }

    @Override
    public Args putNull() {
      inner.putNull();
      return this;
    }

    @Override
    public Args putBoolean(boolean v) {
      inner.putBoolean(v);
      return this;
    }

    @Override
    public Args putBooleanOrNull(Boolean v) {
      inner.putBooleanOrNull(v);
      return this;
    }

    @Override
    public Args putChar(char v) {
      inner.putChar(v);
      return this;
    }

    @Override
    public Args putCharOrNull(Character v) {
      inner.putCharOrNull(v);
      return this;
    }

    @Override
    public Args putByte(byte v) {
      inner.putByte(v);
      return this;
    }

    @Override
    public Args putByteOrNull(Byte v) {
      inner.putByteOrNull(v);
      return this;
    }

    @Override
    public Args putShort(short v) {
      inner.putShort(v);
      return this;
    }

    @Override
    public Args putShortOrNull(Short v) {
      inner.putShortOrNull(v);
      return this;
    }

    @Override
    public Args putInt(int v) {
      inner.putInt(v);
      return this;
    }

    @Override
    public Args putIntOrNull(Integer v) {
      inner.putIntOrNull(v);
      return this;
    }

    @Override
    public Args putLong(long v) {
      inner.putLong(v);
      return this;
    }

    @Override
    public Args putLongOrNull(Long v) {
      inner.putLongOrNull(v);
      return this;
    }

    @Override
    public Args putFloat(float v) {
      inner.putFloat(v);
      return this;
    }

    @Override
    public Args putFloatOrNull(Float v) {
      inner.putFloatOrNull(v);
      return this;
    }

    @Override
    public Args putDouble(double v) {
      inner.putDouble(v);
      return this;
    }

    @Override
    public Args putDoubleOrNull(Double v) {
      inner.putDoubleOrNull(v);
      return this;
    }

    @Override
    public Args putDateTime(TemporalAccessor v) {
      inner.putDateTime(v);
      return this;
    }

    @Override
    public Args putCharSequence(CharSequence v) {
      inner.putCharSequence(v);
      return this;
    }

    @Override
    public Args putBigInteger(BigInteger v) {
      inner.putBigInteger(v);
      return this;
    }

    @Override
    public Args putBigDecimal(BigDecimal v) {
      inner.putBigDecimal(v);
      return this;
    }

    @Override
    public Args put(Object v) {
      inner.put(v);
      return this;
    }
  }

  static List<Object> none() {
    return Collections.emptyList();
  }
}
