package vp.core;

import java.util.ArrayList;
import java.util.LinkedHashMap;
import java.util.List;
import java.util.Map;

/** Minimal JSON reader and writer (maps, lists, strings, longs, doubles, booleans, null). */
public final class Json {
  private final String s;
  private int p;

  private Json(String s) {
    this.s = s;
  }

  public static Object parse(String s) {
    Json j = new Json(s);
    Object v = j.value();
    j.ws();
    if (j.p != s.length()) throw new IllegalArgumentException("trailing text at " + j.p);
    return v;
  }

  private void ws() {
    while (p < s.length() && s.charAt(p) <= ' ') p++;
  }

  private Object value() {
    ws();
    char c = s.charAt(p);
    if (c == '{') {
      p++;
      Map<String, Object> m = new LinkedHashMap<String, Object>();
      ws();
      if (s.charAt(p) == '}') {
        p++;
        return m;
      }
      while (true) {
        ws();
        String k = string();
        ws();
        p++; // colon
        m.put(k, value());
        ws();
        if (s.charAt(p++) == '}') return m;
      }
    }
    if (c == '[') {
      p++;
      List<Object> l = new ArrayList<Object>();
      ws();
      if (s.charAt(p) == ']') {
        p++;
        return l;
      }
      while (true) {
        l.add(value());
        ws();
        if (s.charAt(p++) == ']') return l;
      }
    }
    if (c == '"') return string();
    int b = p;
    while (p < s.length() && "+-.eE0123456789truefalsn".indexOf(s.charAt(p)) >= 0) p++;
    String w = s.substring(b, p);
    if (w.equals("true")) return Boolean.TRUE;
    if (w.equals("false")) return Boolean.FALSE;
    if (w.equals("null")) return null;
    if (w.indexOf('.') >= 0 || w.indexOf('e') >= 0 || w.indexOf('E') >= 0) return Double.valueOf(w);
    return Long.valueOf(w);
  }

  private String string() {
    StringBuilder sb = new StringBuilder();
    p++;
    while (true) {
      char c = s.charAt(p++);
      if (c == '"') return sb.toString();
      if (c != '\\') {
        sb.append(c);
        continue;
      }
      c = s.charAt(p++);
      switch (c) {
        case 'n':
          sb.append('\n');
          break;
        case 't':
          sb.append('\t');
          break;
        case 'r':
          sb.append('\r');
          break;
        case 'b':
          sb.append('\b');
          break;
        case 'f':
          sb.append('\f');
          break;
        case 'u':
          sb.append((char) Integer.parseInt(s.substring(p, p + 4), 16));
          p += 4;
          break;
        default:
          sb.append(c);
      }
    }
  }

  public static String write(Object o) {
    StringBuilder sb = new StringBuilder();
    write(sb, o, -1);
    return sb.toString();
  }

  public static String pretty(Object o) {
    StringBuilder sb = new StringBuilder();
    write(sb, o, 0);
    return sb.append('\n').toString();
  }

  private static void nl(StringBuilder sb, int ind) {
    sb.append('\n');
    for (int i = 0; i < ind; i++) sb.append(' ');
  }

  private static void write(StringBuilder sb, Object o, int ind) {
    if (o == null) {
      sb.append("null");
    } else if (o instanceof Map) {
      sb.append('{');
      boolean first = true;
      for (Map.Entry<?, ?> e : ((Map<?, ?>) o).entrySet()) {
        if (!first) sb.append(',');
        first = false;
        if (ind >= 0) nl(sb, ind + 1);
        str(sb, String.valueOf(e.getKey()));
        sb.append(':');
        write(sb, e.getValue(), ind < 0 ? -1 : ind + 1);
      }
      if (ind >= 0 && !first) nl(sb, ind);
      sb.append('}');
    } else if (o instanceof List) {
      sb.append('[');
      boolean first = true;
      boolean flat = true;
      for (Object x : (List<?>) o) flat &= !(x instanceof Map);
      for (Object x : (List<?>) o) {
        if (!first) sb.append(',');
        first = false;
        if (ind >= 0 && !flat) nl(sb, ind + 1);
        write(sb, x, ind < 0 || flat ? -1 : ind + 1);
      }
      if (ind >= 0 && !flat) nl(sb, ind);
      sb.append(']');
    } else if (o instanceof Number || o instanceof Boolean) {
      sb.append(o);
    } else {
      str(sb, o.toString());
    }
  }

  private static void str(StringBuilder sb, String s) {
    sb.append('"');
    for (int i = 0; i < s.length(); i++) {
      char c = s.charAt(i);
      if (c == '"' || c == '\\') sb.append('\\').append(c);
      else if (c == '\n') sb.append("\\n");
      else if (c < ' ' || c > '~') {
        sb.append("\\u");
        String h = Integer.toHexString(c);
        for (int k = h.length(); k < 4; k++) sb.append('0');
        sb.append(h);
      } else sb.append(c);
    }
    sb.append('"');
  }
}
