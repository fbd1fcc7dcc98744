package vp.core;

import java.math.BigDecimal;
import java.math.BigInteger;
import java.time.Instant;
import java.time.LocalDate;
import java.time.LocalDateTime;
import java.time.LocalTime;
import java.time.OffsetDateTime;
import java.time.ZoneId;
import java.time.ZonedDateTime;
import java.util.Calendar;
import java.util.Date;
import java.util.GregorianCalendar;
import java.util.TimeZone;
import java.util.concurrent.atomic.AtomicInteger;
import java.util.concurrent.atomic.AtomicLong;

/** Turns argument tokens of a case into values. */
public final class Values {
  /** a primitive, to be passed through the typed methods. */
  public static final class Prim {
    public final Object boxed;

    Prim(Object boxed) {
      this.boxed = boxed;
    }
  }

  /** a value that belongs to one class loader. */
  static final class Foreign {
    final String kind;
    final Object payload;

    Foreign(String kind, Object payload) {
      this.kind = kind;
      this.payload = payload;
    }
  }

  private Values() {}

  static Object make(String tok, int id, Exec ex) {
    if (tok.equals("null")) return null;
    int c = tok.indexOf(':');
    String t = tok.substring(0, c);
    String v = tok.substring(c + 1);
    switch (t) {
      case "z":
        return new Prim(Boolean.valueOf(v));
      case "Z":
        return Boolean.valueOf(v);
      case "c":
        return new Prim((char) Integer.parseInt(v));
      case "C":
        return (char) Integer.parseInt(v);
      case "b":
        return new Prim(Byte.valueOf(v));
      case "B":
        return Byte.valueOf(v);
      case "h":
        return new Prim(Short.valueOf(v));
      case "H":
        return Short.valueOf(v);
      case "i":
        return new Prim(Integer.valueOf(v));
      case "I":
        return new Integer(v);
      case "l":
        return new Prim(Long.valueOf(v));
      case "L":
        return new Long(v);
      case "f":
        return new Prim(Float.valueOf(v));
      case "F":
        return Float.valueOf(v);
      case "d":
        return new Prim(Double.valueOf(v));
      case "D":
        return Double.valueOf(v);
      case "s":
        return new String(v);
      case "S":
        { // S:count:text repeated
          int k = v.indexOf(':');
          int n = Integer.parseInt(v.substring(0, k));
          if (v.length() == k + 2) {
            char[] a = new char[n];
            java.util.Arrays.fill(a, v.charAt(k + 1));
            return new String(a);
          }
          StringBuilder sb = new StringBuilder();
          for (int i = 0; i < n; i++) sb.append(v, k + 1, v.length());
          return sb.toString();
        }
      case "bi":
        return new BigInteger(v);
      case "bd":
        return new BigDecimal(v);
      case "ins":
        return Instant.ofEpochMilli(Long.parseLong(v));
      case "ld":
        return LocalDate.parse(v);
      case "ldt":
        return LocalDateTime.parse(v);
      case "lt":
        return LocalTime.parse(v);
      case "zdt":
        return ZonedDateTime.ofInstant(Instant.ofEpochMilli(Long.parseLong(v)), ZoneId.of("Europe/Paris"));
      case "odt":
        return OffsetDateTime.ofInstant(Instant.ofEpochMilli(Long.parseLong(v)), ZoneId.of("-03:30"));
      case "date":
        return new Date(Long.parseLong(v));
      case "cal":
        {
          Calendar cal = new GregorianCalendar(TimeZone.getTimeZone("America/New_York"), java.util.Locale.ROOT);
          cal.setTimeInMillis(Long.parseLong(v));
          return cal;
        }
      case "ai":
        return new AtomicInteger(Integer.parseInt(v));
      case "al":
        return new AtomicLong(Long.parseLong(v));
      case "ia":
        {
          String[] p = v.isEmpty() ? new String[0] : v.split(",");
          int[] a = new int[p.length];
          for (int i = 0; i < a.length; i++) a[i] = Integer.parseInt(p[i]);
          return a;
        }
      case "da":
        {
          String[] p = v.isEmpty() ? new String[0] : v.split(",");
          double[] a = new double[p.length];
          for (int i = 0; i < a.length; i++) a[i] = Double.parseDouble(p[i]);
          return a;
        }
      case "za":
        {
          String[] p = v.split(",");
          boolean[] a = new boolean[p.length];
          for (int i = 0; i < a.length; i++) a[i] = Boolean.parseBoolean(p[i]);
          return a;
        }
      case "ha":
        {
          String[] p = v.split(",");
          short[] a = new short[p.length];
          for (int i = 0; i < a.length; i++) a[i] = Short.parseShort(p[i]);
          return a;
        }
      case "la":
        {
          String[] p = v.split(",");
          long[] a = new long[p.length];
          for (int i = 0; i < a.length; i++) a[i] = Long.parseLong(p[i]);
          return a;
        }
      case "fa":
        {
          String[] p = v.split(",");
          float[] a = new float[p.length];
          for (int i = 0; i < a.length; i++) a[i] = Float.parseFloat(p[i]);
          return a;
        }
      case "ca":
        return v.toCharArray();
      case "ba":
        return v.getBytes(java.nio.charset.StandardCharsets.ISO_8859_1);
      case "oa":
        {
          String[] p = v.isEmpty() ? new String[0] : v.split(",");
          Object[] a = new Object[p.length];
          for (int i = 0; i < a.length; i++) a[i] = p[i].equals("null") ? null : p[i].startsWith("#") ? (Object) new Cb.Obj(id, p[i], true) : p[i];
          return a;
        }
      case "cba":
        {
          // an array of objects with callbacks
          String[] p = v.split(",");
          Object[] a = new Object[p.length];
          for (int i = 0; i < a.length; i++) a[i] = new Cb.Obj(id, p[i], true);
          return a;
        }
      case "cbl":
        {
          java.util.List<Object> l = new java.util.ArrayList<Object>();
          for (String s : v.split(",")) l.add(new Cb.Obj(id, s));
          return l;
        }
      case "nestl":
      case "nesta":
        {
          String[] p = v.split(":");
          Cb.Nest nest = new Cb.Nest(id, ex, Integer.parseInt(p[0]), Integer.parseInt(p[1]));
          nest.soft = t.equals("nesta");
          Object n = new Cb.NestObj(nest);
          if (t.equals("nesta")) return new Object[] {"x", n, n};
          return new java.util.ArrayList<Object>(java.util.Arrays.asList(n, "y"));
        }
      case "lst":
        {
          java.util.ArrayList<Object> l = new java.util.ArrayList<Object>();
          for (String s : v.split(",")) l.add(s.equals("null") ? null : s);
          return l;
        }
      case "sbld":
        return new StringBuilder(v);
      case "sbuf":
        return new StringBuffer(v);
      case "chb":
        {
          // a buffer with something before and after the part it shows
          java.nio.CharBuffer b = java.nio.CharBuffer.wrap(("<<" + v + ">").toCharArray());
          ((java.nio.Buffer) b).limit(v.length() + 2);
          ((java.nio.Buffer) b).position(2);
          return b;
        }
      case "cbo":
        return new Cb.Obj(id, v);
      case "cbs":
        return new Cb.Chars(id, v);
      case "cbn":
        return new Cb.Num(id, Long.parseLong(v));
      case "cbd":
        return new Cb.Tmp(id, ZonedDateTime.ofInstant(Instant.ofEpochMilli(Long.parseLong(v)), ZoneId.of("Asia/Tokyo")));
      case "cbt":
        return new Foreign("traits", new Cb.Num(id, Long.parseLong(v)));
      case "cbq":
        return new Foreign("seq", new Cb.Lazy(id, v));
      case "rope":
        return new Foreign("rope", Integer.valueOf(v));
      case "nest":
      case "nests":
      case "nestn":
        {
          String[] p = v.split(":");
          Cb.Nest n = new Cb.Nest(id, ex, Integer.parseInt(p[0]), Integer.parseInt(p[1]));
          if (t.equals("nests")) return n;
          if (t.equals("nest")) return new Cb.NestObj(n);
          return new Cb.NestNum(n, Long.parseLong(p[2]));
        }
      default:
        throw new IllegalArgumentException("token " + tok);
    }
  }

  /** the value after its owner has changed it n times. */
  static void age(Object v, String tok, int n) {
    if (v == null) return;
    int c = tok.indexOf(':');
    String w = tok.substring(c + 1);
    String more = n == 0 ? "" : "+" + n;
    switch (tok.substring(0, c)) {
      case "sbld":
        ((StringBuilder) v).setLength(0);
        ((StringBuilder) v).append(w).append(more);
        return;
      case "sbuf":
        ((StringBuffer) v).setLength(0);
        ((StringBuffer) v).append(w).append(more);
        return;
      case "ai":
        ((AtomicInteger) v).set(Integer.parseInt(w) + n);
        return;
      case "al":
        ((AtomicLong) v).set(Long.parseLong(w) + n);
        return;
      case "ia":
        if (!w.isEmpty()) ((int[]) v)[0] = Integer.parseInt(w.split(",")[0]) + n;
        return;
      case "date":
        ((Date) v).setTime(Long.parseLong(w) + 1000L * n);
        return;
      case "cal":
        ((Calendar) v).setTimeInMillis(Long.parseLong(w) + 1000L * n);
        return;
      case "oa":
        if (!w.isEmpty() && !w.startsWith("#")) ((Object[]) v)[0] = w.split(",")[0].equals("null") ? null : w.split(",")[0] + more;
        return;
      case "cbo":
        ((Cb.Obj) v).text = w + more;
        return;
      case "cbs":
        ((Cb.Chars) v).text = w + more;
        return;
      case "cbn":
        ((Cb.Num) v).value = Long.parseLong(w) + n;
        return;
      default:
    }
  }
}
