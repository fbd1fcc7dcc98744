package vp.core;

import java.io.IOException;

/** Observations of shared text sequences, and their plain string meaning. */
final class RopeOps {
  private RopeOps() {}

  static void perform(Exec x, OpRun r) throws Throwable {
    String[] p = r.op.text.split(" ", -1);
    Api api = x.sut;
    Object s = x.ropes[i(p, 1)];
    switch (p[0]) {
      case "len":
        r.text = "" + api.ropeLength(s);
        return;
      case "emp":
        r.text = "" + api.ropeIsEmpty(s);
        return;
      case "chr":
        r.text = "" + api.ropeChar(s, i(p, 2));
        return;
      case "idx":
        r.text = "" + api.ropeIndexOf(s, (char) i(p, 2));
        return;
      case "sw":
        r.text = "" + api.ropeStartsWith(s, (char) i(p, 2));
        return;
      case "str":
        r.text = s.toString();
        return;
      case "parts":
        r.text = api.ropeJoined(s);
        return;
      case "up":
        r.text = show(api, api.rope(java.util.Arrays.asList("up", p[1]), x.ropes, null), i(p, 2));
        return;
      case "map":
        r.text = show(api, api.ropeMap(s), i(p, 2));
        return;
      case "sub":
        r.text = show(api, api.rope(java.util.Arrays.asList("sub", p[1], p[2], p[3]), x.ropes, null), i(p, 4));
        return;
      case "cat":
        r.text = show(api, api.rope(java.util.Arrays.asList("cat", p[1], p[2]), x.ropes, null), i(p, 3));
        return;
      case "pre":
        r.text = show(api, api.rope(java.util.Arrays.asList("pre", p[1], p[2]), x.ropes, null), i(p, 3));
        return;
      case "app":
        r.text = show(api, api.rope(java.util.Arrays.asList("app", p[1], p[2]), x.ropes, null), i(p, 3));
        return;
      case "mk":
        r.text = show(api, api.rope(x.c.ropes.get(i(p, 1)), x.ropes, null), i(p, 2));
        return;
      case "chars":
        {
          StringBuilder sb = new StringBuilder();
          ((CharSequence) s).chars().forEach(ch -> sb.append((char) ch));
          r.text = sb.toString();
          return;
        }
      case "self":
        r.text = "" + s.equals(s) + s.equals(null);
        return;
      case "hash":
        r.text = "" + s.hashCode();
        return;
      case "sb":
        {
          StringBuilder sb = new StringBuilder(r.op.init);
          try {
            api.ropeTo(s, sb);
            r.text = "";
          } finally {
            r.sinkText = sb.toString();
          }
          return;
        }
      case "sink":
        {
          SimSink k = new SimSink(false, r.op.init);
          try {
            api.ropeTo(s, (Appendable) k);
            r.text = "";
          } finally {
            r.sinkText = k.content.toString();
          }
          return;
        }
      default:
        throw new IllegalArgumentException(p[0]);
    }
  }

  /** looks at a derived sequence in one of several orders. */
  private static String show(Api api, Object s, int how) throws IOException {
    switch (how % 4) {
      case 0:
        return api.ropeLength(s) + "|" + s;
      case 1:
        {
          String t = s.toString();
          return api.ropeLength(s) + "|" + t;
        }
      case 2:
        {
          int n = api.ropeLength(s);
          StringBuilder sb = new StringBuilder();
          for (int i = 0; i < n; i++) sb.append(api.ropeChar(s, i));
          return n + "|" + sb;
        }
      default:
        {
          StringBuilder sb = new StringBuilder();
          api.ropeTo(s, sb);
          return api.ropeLength(s) + "|" + sb;
        }
    }
  }

  /** what the operation must yield, from plain strings only. */
  static String expect(Exec x, OpRun r) {
    String[] p = r.op.text.split(" ", -1);
    String s = x.ropeText[i(p, 1)];
    switch (p[0]) {
      case "len":
        return "" + s.length();
      case "emp":
        return "" + s.isEmpty();
      case "chr":
        return "" + s.charAt(i(p, 2));
      case "idx":
        return "" + s.indexOf(i(p, 2));
      case "sw":
        return "" + (s.length() > 0 && s.charAt(0) == i(p, 2));
      case "str":
      case "parts":
      case "chars":
      case "sb":
      case "sink":
        return s;
      case "up":
      case "map":
        return s.length() + "|" + Exec.upper(s);
      case "sub":
        return (i(p, 3) - i(p, 2)) + "|" + s.substring(i(p, 2), i(p, 3));
      case "mk":
        return s.length() + "|" + s;
      case "self":
        return "truefalse";
      case "cat":
      case "app":
        {
          String t = s + x.ropeText[i(p, 2)];
          return t.length() + "|" + t;
        }
      case "pre":
        {
          String t = x.ropeText[i(p, 2)] + s;
          return t.length() + "|" + t;
        }
      case "hash":
        return null;
      default:
        throw new IllegalArgumentException(p[0]);
    }
  }

  private static int i(String[] p, int k) {
    return Integer.parseInt(p[k]);
  }
}
