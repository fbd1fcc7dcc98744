package vp.core;

import java.io.IOException;
import java.io.UncheckedIOException;
import java.util.ArrayList;
import java.util.LinkedHashSet;
import java.util.List;
import java.util.Set;
import vp.hook.Rng;

/** Decides whether the history of one run satisfies its property. */
final class Judge {
  private final Exec x;
  private final Case c;

  Judge(Exec x) {
    this.x = x;
    this.c = x.c;
  }

  Violation judge() {
    if (x.setUpError != null) return x.setUpError;
    if (x.foreignThread != null) return new Violation("thread", "caller code was run on a thread other than the calling one: " + x.foreignThread);
    if (x.sim.capHit) return new Violation("steps", "more than " + x.sim.cap + " steps: a call does not finish");
    if (x.sim.deadlock) return new Violation("deadlock", String.valueOf(x.sim.blockedReport));
    if (x.sim.blockedReport != null) return new Violation("blocked", x.sim.blockedReport);
    if (x.sim.blockedSeen > 0 && c.prop.equals("C10")) return new Violation("blocked", "a call had to wait for another thread's call");
    // the solo results are computed in an order unrelated to the run's
    List<OpRun> order = new ArrayList<OpRun>(x.runs);
    Rng rng = new Rng(c.seed ^ 0x5eed);
    for (int i = order.size() - 1; i > 0; i--) {
      int j = rng.below(i + 1);
      OpRun o = order.get(i);
      order.set(i, order.get(j));
      order.set(j, o);
    }
    Violation first = null;
    for (int pass = 0; pass < 2; pass++) {
      for (OpRun r : order) {
        // compilations that must fail are looked at last
        if (r.op.kind.equals("bad") != (pass == 1)) continue;
        Violation v;
        Exec.setEnv(c.locale, c.zone);
        try {
          v = one(r);
        } finally {
          Exec.setEnv("", "UTC");
        }
        if (v != null) {
          String d = "thread " + r.thread + " op " + r.index + (r.nested ? " nested" : "") + " " + show(r) + ": " + v.detail;
          if (first == null) first = new Violation(v.rule, d);
        }
      }
    }
    if (first != null) return first;
    if (c.prop.equals("C17")) return buffers();
    if (c.prop.equals("C19")) return failures();
    if (c.prop.equals("C13")) {
      Violation v = handed();
      if (v != null) return v;
    }
    if (!c.prop.equals("C09")) return ropeHashes();
    Violation v = sharedBuffer("sharedbuf", x.sharedBuf.toString());
    return v != null ? v : sharedBuffer("sharedsw", x.sharedSw.toString());
  }

  private String show(OpRun r) {
    switch (r.op.kind) {
      case "bad":
        return "compile " + Violation.clip(r.op.text);
      case "rope":
      case "env":
      case "put":
        return r.op.kind + " " + r.op.text;
      case "touch":
      case "mutsrc":
      case "values":
        return r.op.kind;
      default:
        Case.Var v = c.vars.get(r.op.var);
        return r.op.kind + " " + Violation.clip(c.format(v.fmt)) + " " + v.derive + (r.op.sink.isEmpty() ? "" : " into " + r.op.sink);
    }
  }

  private Violation one(OpRun r) {
    if (!r.done) return new Violation("steps", "the call never finished");
    x.setAge(r.age);
    if (r.outside != null) return new Violation("outside", r.outside);
    if (r.interrupted && !r.interruptKept) return new Violation("interrupt", "the interrupt was lost");
    switch (r.op.kind) {
      case "env":
      case "touch":
      case "mutsrc":
      case "put":
        return r.error == null ? null : new Violation("error", "failed with " + Exec.describe(r.error));
      case "values":
        return values(r);
      case "rope":
        return rope(r);
      case "bad":
        return bad(r);
      default:
        return call(r);
    }
  }

  // ------------------------------------------------------------------ calls

  private Violation bad(OpRun r) {
    if (r.firedKind("vm.")) return r.error != null ? null : sameBad(r);
    return sameBad(r);
  }

  private Violation sameBad(OpRun r) {
    String want;
    String all = null;
    try {
      x.twin.compile(r.op.text);
      want = "compiled";
    } catch (Throwable e) {
      want = Exec.describe(e);
      all = Exec.describeAll(e);
    }
    if (c.prop.equals("C19")) {
      Violation v = failure(r, all);
      if (v != null) return v;
    }
    String got = r.error == null ? r.text : Exec.describe(r.error);
    if (!want.equals(got)) return new Violation("compile", Violation.diff(want, got));
    if (c.prop.equals("C16")) {
      if (r.error == null || !isFormatting(r.error)) return new Violation("accepted", "not rejected with a formatting exception: " + got);
      if (r.maxAlloc > 16384 + 4 * r.op.text.length()) return new Violation("memory", "requested " + r.maxAlloc + " elements");
    }
    return null;
  }

  /** a failure has the message, causes and stack of its own call, and keeps them. */
  private Violation failure(OpRun r, String want) {
    if (r.error == null || r.error == r.injected) return null;
    String now = Exec.describeAll(r.error);
    if (!now.equals(r.errorText)) return new Violation("altered", "the exception changed after the call: " + Violation.diff(r.errorText, now));
    if (r.fired.isEmpty() && want != null && !want.equals(now)) return new Violation("cause", Violation.diff(want, now));
    // what the caller's own code threw comes alone
    if (r.injected != null && r.error.getCause() == r.injected && r.error.getSuppressed().length > 0) return new Violation("cause", "the failure of the destination or argument comes with others: " + now);
    // an exception without any stack says nothing wrong about where it comes from
    if (!isFormatting(r.error) || r.error.getStackTrace().length == 0) return null;
    for (StackTraceElement e : r.error.getStackTrace()) if (e.getClassName().equals(vp.hook.SimThread.class.getName())) return null;
    return new Violation("trace", "the exception does not carry the stack of the call: " + Exec.describe(r.error));
  }

  /** no two calls fail with one and the same exception, and none changes with the arguments it speaks of. */
  private Violation failures() {
    for (Object[] l : x.rawValues) for (Object v : l) alter(v);
    java.util.IdentityHashMap<Throwable, OpRun> seen = new java.util.IdentityHashMap<Throwable, OpRun>();
    for (OpRun r : x.runs) {
      if (r.error == null || r.error == r.injected || !isFormatting(r.error)) continue;
      String now = Exec.describeAll(r.error);
      if (!now.equals(r.errorText)) return new Violation("altered", "thread " + r.thread + " op " + r.index + " " + show(r) + ": the exception changed with an argument: " + Violation.diff(r.errorText, now));
      for (Throwable e = r.error; e != null && e != r.injected; e = e.getCause()) {
        // without stack, cause and suppressed exceptions there is nothing that belongs to one call
        if (e.getStackTrace().length == 0) continue;
        OpRun o = seen.put(e, r);
        if (o != null && o != r) return new Violation("same", "thread " + o.thread + " op " + o.index + " " + show(o) + " and thread " + r.thread + " op " + r.index + " " + show(r) + " failed with the very same exception: " + Exec.describe(e));
      }
    }
    return null;
  }

  private static void alter(Object v) {
    if (v instanceof StringBuilder) ((StringBuilder) v).append('~');
    else if (v instanceof StringBuffer) ((StringBuffer) v).append('~');
    else if (v instanceof java.util.ArrayList) ((java.util.ArrayList<?>) v).clear();
    else if (v instanceof int[] && ((int[]) v).length > 0) ((int[]) v)[0]++;
    else if (v instanceof java.util.Date) ((java.util.Date) v).setTime(1);
  }

  /** text a destination was handed stays as it was. */
  private Violation handed() {
    for (OpRun r : x.runs) {
      for (Object[] h : r.handed) {
        String now;
        try {
          StringBuilder sb = new StringBuilder();
          for (int i = (Integer) h[1]; i < (Integer) h[2]; i++) sb.append(((CharSequence) h[0]).charAt(i));
          now = sb.toString();
        } catch (RuntimeException e) {
          now = Exec.describe(e);
        }
        if (!h[3].equals(now)) return new Violation("handed", "thread " + r.thread + " op " + r.index + " " + show(r) + ": text handed to the destination changed later: " + Violation.diff((String) h[3], now));
      }
    }
    return null;
  }

  static boolean isFormatting(Throwable e) {
    for (Class<?> k = e.getClass(); k != null; k = k.getSuperclass()) {
      if (k.getName().equals("io.fastprintf.PrintfException") || k.getName().equals("io.fastprintf.PrintfSyntaxException")) return true;
    }
    return false;
  }

  private static int snap(OpRun r) {
    if (r.op.sink.startsWith("var")) return -1;
    return r.op.own ? 0 : r.argSnap;
  }

  private Exec.Out expected(OpRun r) {
    return x.expect(c.vars.get(r.op.var).fmt, -1, r.op.args, snap(r));
  }

  private Violation call(OpRun r) {
    if (c.prop.equals("C08")) return windowed(r);
    Exec.Out want = expected(r);
    if (c.prop.equals("C16")) {
      Violation v = sizes(r, want);
      if (v != null) return v;
      if (hostile(r) >= 0) return null;
    }
    if (c.prop.equals("C19")) {
      Violation v = failure(r, want.errorAll);
      if (v != null) return v;
    }
    if (r.kept != null) return new Violation("kept", r.kept);
    if (c.prop.equals("C18")) {
      Violation v = work(r, want);
      if (v != null) return v;
    }
    Violation v = outcome(r, want);
    if (v != null) return v;
    if (c.prop.equals("C14")) return consumption(r, want);
    if (c.prop.equals("C05")) {
      v = missing(r);
      return v != null ? v : unsuitable(r);
    }
    return null;
  }

  private static final java.util.Set<String> NO_NUMBER =
      new java.util.HashSet<String>(java.util.Arrays.asList("lst", "ia", "da", "oa", "ca", "ba", "za", "ha", "la", "fa", "cbo", "cbl", "cba"));

  private static final java.util.regex.Pattern PRIMITIVE = java.util.regex.Pattern.compile("[zcbhilfd]:.*", java.util.regex.Pattern.DOTALL);

  /** can the argument not serve the conversion ('*' for a width or precision) for certain? */
  private boolean never(String tok, char conv) {
    boolean integer = "*diuoxX".indexOf(conv) >= 0;
    boolean real = "fFeEgGaA".indexOf(conv) >= 0;
    boolean time = conv == 't' || conv == 'T';
    boolean one = conv == 'c';
    if (!integer && !real && !time && !one) return false;
    if (tok.equals("null")) return true;
    int colon = tok.indexOf(':');
    String kind = tok.substring(0, colon);
    if (NO_NUMBER.contains(kind)) return true;
    if (kind.equals("ld") || kind.equals("ldt")) return !time;
    if (kind.equals("ins") || kind.equals("zdt") || kind.equals("odt")) return one;
    if (kind.equals("bi") && tok.startsWith("bi:-")) return "uoxX".indexOf(conv) >= 0 || time;
    if (kind.equals("z") || kind.equals("Z") || kind.equals("c") || kind.equals("C") || kind.equals("d") || kind.equals("D")) return time;
    if (!kind.equals("s") && !kind.equals("sbld") && !kind.equals("sbuf") && !kind.equals("chb")) return false;
    // a builder may have been changed by its owner
    if (kind.startsWith("sb")) for (List<Case.Op> l : c.threads) for (Case.Op o : l) if (o.kind.equals("touch")) return false;
    String text = tok.substring(colon + 1);
    if (one) return text.isEmpty();
    if (time) return true;
    try {
      if (real) Double.parseDouble(text);
      else Long.parseLong(text);
      return false;
    } catch (NumberFormatException e) {
      return true;
    }
  }

  /** a call with an argument that its conversion has no use for never returns. */
  private Violation unsuitable(OpRun r) {
    if (r.error != null) return null;
    int pos = 0;
    List<String> flat = c.args.get(r.op.args).flat();
    for (String d : c.fmts.get(c.vars.get(r.op.var).fmt)) {
      int n = needs(d);
      for (int k = 0; k < n && pos < flat.size(); k++, pos++) {
        char conv = k == n - 1 ? conv(d) : '*';
        boolean bare = conv == 'p' && !r.op.sink.startsWith("var") && c.args.get(r.op.args).how.equals("typed") && PRIMITIVE.matcher(flat.get(pos)).matches();
        if (bare || never(flat.get(pos), conv)) {
          return new Violation("unsuitable", "argument " + flat.get(pos) + " cannot serve " + conv + " and yet the call returned " + Violation.clip(r.sinkText == null ? r.text : r.sinkText));
        }
      }
    }
    return null;
  }

  private Violation outcome(OpRun r, Exec.Out want) {
    if (r.firedKind("sink.") && !r.firedKind("sink.nest")) return sinkFault(r, want);
    if (r.firedKind("arg.")) return argFault(r, want);
    if (r.firedKind("vm.")) return vmFault(r, want);
    return plain(r, want);
  }

  private Violation plain(OpRun r, Exec.Out want) {
    if (want.error != null) {
      if (r.error == null) return new Violation("text", "must fail with " + want.error + " but yields " + Violation.clip(r.text));
      String got = Exec.describe(r.error);
      if (r.op.sink.startsWith("cbuf:") && r.error instanceof java.nio.BufferOverflowException && full(r)) return partial(r, want);
      if (!want.error.equals(got)) return new Violation("error", Violation.diff(want.error, got));
      return partial(r, want);
    }
    if (r.op.sink.startsWith("cbuf:")) {
      int room = Integer.parseInt(r.op.sink.substring(5));
      if (want.text.length() > room) {
        if (!(r.error instanceof java.nio.BufferOverflowException)) return new Violation("swallowed", "full buffer not reported: " + r.error);
        return prefix(r.sinkText, r.op.init, want.text);
      }
    }
    if (r.error != null) return new Violation("error", "must yield " + Violation.clip(want.text) + " but fails with " + Exec.describe(r.error));
    return text(r, want.text);
  }

  private Violation text(OpRun r, String want) {
    if (r.op.sink.isEmpty() || r.op.sink.startsWith("var") || r.nested) {
      return want.equals(r.text) ? null : new Violation("text", Violation.diff(want, r.text));
    }
    if (!r.sameRef) return new Violation("return", "the call returned another destination");
    SimSink sim = r.realSink instanceof Exec.SimWriter ? ((Exec.SimWriter) r.realSink).s : r.realSink instanceof SimSink ? (SimSink) r.realSink : null;
    if (sim != null && sim.closed) return new Violation("closed", "the call closed the destination");
    if (r.op.sink.equals("sharedbuf") || r.op.sink.equals("sharedsw")) return null;
    if (logged(r)) {
      String got = r.delivered.toString();
      return want.equals(got) ? null : new Violation("text", "share of the shared destination: " + Violation.diff(want, got));
    }
    String w = r.op.init + want;
    if ((r.op.sink.equals("ps") || r.op.sink.equals("osw")) && !encodable(w)) return null;
    return w.equals(r.sinkText) ? null : new Violation("text", Violation.diff(w, r.sinkText));
  }

  /** can a byte stream carry this text unchanged? */
  private static boolean encodable(String s) {
    for (int i = 0; i < s.length(); i++) {
      char ch = s.charAt(i);
      if (ch == 0xfffd || ch == 0xfffe || Character.isLowSurrogate(ch)) return false;
      if (Character.isHighSurrogate(ch) && (++i == s.length() || !Character.isLowSurrogate(s.charAt(i)))) return false;
    }
    return true;
  }

  /** a shared destination that notes who sent what. */
  private static boolean logged(OpRun r) {
    return r.op.sink.equals("shared") || r.op.sink.equals("sharedwr");
  }

  private static Violation prefix(String content, String init, String full) {
    if (content == null) return null;
    if (content.indexOf(0xfffd) >= 0) return null; // what a byte stream made of half a surrogate pair
    if (!content.startsWith(init)) return new Violation("prefix", "earlier content changed: " + Violation.diff(init, content));
    String d = content.substring(init.length());
    if (!full.startsWith(d)) return new Violation("prefix", "destination got something that is not a prefix: " + Violation.diff(full, d));
    return null;
  }

  /** a call that fails by itself may have written the text of the directives before the failing one. */
  private Violation partial(OpRun r, Exec.Out want) {
    String got = r.sinkText;
    String init = r.op.init;
    if (logged(r)) {
      got = r.delivered.toString();
      init = "";
    }
    if (got == null) return null;
    return prefix(got, init, c.prop.equals("C08") ? want.partial : before(r));
  }

  /** text of the directives before the one that fails by itself. */
  private String before(OpRun r) {
    int fmt = c.vars.get(r.op.var).fmt;
    int n = c.fmts.get(fmt).size();
    String before = "";
    for (int k = 1; k <= n; k++) {
      Exec.Out o = x.expect(fmt, k, r.op.args, snap(r));
      if (o.error != null) break;
      before = o.text;
    }
    return before;
  }

  private boolean full(OpRun r) {
    return before(r).length() > Integer.parseInt(r.op.sink.substring(5));
  }

  private Violation sinkFault(OpRun r, Exec.Out want) {
    if (r.writeAfterFail) return new Violation("after-failure", "the destination was written to after it had failed");
    if (r.error == null) return new Violation("swallowed", "the destination failed but the call did not");
    Throwable e = r.injected;
    if (e instanceof IOException) {
      if (!(r.error instanceof UncheckedIOException) || r.error.getCause() != e) {
        return new Violation("cause", "IOException surfaced as " + Exec.describe(r.error) + " with cause " + r.error.getCause());
      }
    } else if (r.error != e) {
      return new Violation("cause", e.getClass().getName() + " surfaced as " + Exec.describe(r.error));
    }
    if (want.error != null) return partial(r, want);
    if (logged(r)) return prefix(r.delivered.toString(), "", want.text);
    return prefix(r.sinkText, r.op.init, want.text);
  }

  private Violation argFault(OpRun r, Exec.Out want) {
    if (r.error == null) return new Violation("swallowed", "the argument failed but the call returned " + Violation.clip(r.sinkText == null ? r.text : r.sinkText));
    boolean same = false;
    for (Throwable t = r.error; t != null; t = t.getCause()) {
      same |= t == r.injected;
      for (Throwable s : t.getSuppressed()) same |= s == r.injected;
    }
    if (!same && !isFormatting(r.error) && !(want.error != null && want.error.equals(Exec.describe(r.error)))) {
      return new Violation("cause", r.injected.getClass().getName() + " surfaced as " + Exec.describe(r.error));
    }
    if (want.error != null) return partial(r, want);
    if (logged(r)) return prefix(r.delivered.toString(), "", want.text);
    return prefix(r.sinkText, r.op.init, want.text);
  }

  private Violation vmFault(OpRun r, Exec.Out want) {
    if (r.error != null) return null;
    if (want.error != null) return new Violation("text", "aborted by the VM, yet returned " + Violation.clip(r.text));
    return text(r, want.text);
  }

  // ----------------------------------------------------- property specifics

  /** number of arguments the directive takes. */
  static int needs(String d) {
    if (!d.startsWith("%") || d.equals("%%")) return 0;
    int n = 1;
    int brace = d.indexOf('{');
    String head = brace < 0 ? d : d.substring(0, brace);
    for (int i = 0; i < head.length(); i++) if (head.charAt(i) == '*') n++;
    return n;
  }

  static char conv(String d) {
    int brace = d.indexOf('{');
    return d.charAt((brace < 0 ? d.length() : brace) - 1);
  }

  private Violation missing(OpRun r) {
    int fmt = c.vars.get(r.op.var).fmt;
    int need = 0;
    for (String d : c.fmts.get(fmt)) need += needs(d);
    int have = c.args.get(r.op.args).flat().size() + Math.max(0, snap(r));
    if (have >= need) return null;
    if (r.error == null) return new Violation("missing", need + " arguments needed, " + have + " given, and yet the call returned " + Violation.clip(r.text));
    if (r.fired.isEmpty() && !isFormatting(r.error)) {
      Exec.Out o = expected(r);
      if (o.errorClass == null || !o.errorClass.equals(r.error.getClass().getName())) return new Violation("missing", "missing argument reported as " + Exec.describe(r.error));
    }
    return null;
  }

  private Violation consumption(OpRun r, Exec.Out want) {
    Violation m = missing(r);
    if (m != null) return m;
    Case.ArgSet a = c.args.get(r.op.args);
    List<String> dirs = c.fmts.get(c.vars.get(r.op.var).fmt);
    List<String> flat = a.flat();
    // which argument positions the directives use, in order
    List<Integer> ids = new ArrayList<Integer>();
    List<String> toks = new ArrayList<String>();
    List<Character> convs = new ArrayList<Character>();
    int pos = 0;
    for (String d : dirs) {
      int n = needs(d);
      for (int k = 0; k < n && pos < flat.size(); k++, pos++) {
        String t = flat.get(pos);
        if (!t.startsWith("cb")) continue;
        boolean main = k == n - 1;
        if (main && (conv(d) == 'n' || conv(d) == 'p')) continue;
        ids.add(r.op.args * 1000 + pos);
        toks.add(t);
        convs.add(main ? conv(d) : '*');
      }
    }
    int at = -1;
    int uses = 0;
    boolean failed = r.error != null;
    for (String h : r.log) {
      int sp = h.indexOf(' ');
      int id = Integer.parseInt(h.substring(0, sp));
      String m2 = h.substring(sp + 1);
      if (id == Cb.LIST) continue;
      int k = ids.indexOf(id);
      if (k < 0 && m2.equals("asObject") && id % 1000 < pos) continue;
      if (k < 0) return new Violation("untouched", "argument " + id % 1000 + " was asked (" + m2 + ") though no conversion uses it");
      if (k < at) return new Violation("order", "argument " + id % 1000 + " was asked (" + m2 + ") after argument " + ids.get(at) % 1000);
      if (k > at) {
        for (int j = Math.max(at, 0) + (at < 0 ? 0 : 1); j < k; j++) {
          if (mustAsk(toks.get(j), convs.get(j))) return new Violation("order", "argument " + id % 1000 + " was asked before argument " + ids.get(j) % 1000);
        }
        at = k;
        uses = 0;
      }
      if (value(toks.get(k), m2) && !m2.equals("asObject")) uses++;
      if (uses > 1 && !(failed && r.log.indexOf(h) >= 0 && last(r, id))) {
        return new Violation("once", "argument " + id % 1000 + " was asked more than once for its value: " + r.log);
      }
    }
    if (!failed) {
      for (int j = at + 1; j < ids.size(); j++) {
        if (mustAsk(toks.get(j), convs.get(j))) return new Violation("once", "argument " + ids.get(j) % 1000 + " was never asked");
      }
    }
    return null;
  }

  private static boolean last(OpRun r, int id) {
    return r.log.get(r.log.size() - 1).startsWith(id + " ");
  }

  private static boolean mustAsk(String tok, char conv) {
    return tok.startsWith("cbo:") || tok.startsWith("cbn:") || tok.startsWith("cbt:");
  }

  /** is this call a request for the value or text as a whole? */
  private static boolean value(String tok, String m) {
    if (tok.startsWith("cbd:") || tok.startsWith("cba:") || tok.startsWith("cbl:") || tok.startsWith("cbq:")) return false;
    if (tok.startsWith("cbs:")) return m.equals("charAt0") || m.equals("toString");
    return true;
  }

  /** first directive with a size beyond the limit, or -1. */
  private int hostile(OpRun r) {
    List<String> dirs = c.fmts.get(c.vars.get(r.op.var).fmt);
    List<String> flat = c.args.get(r.op.args).flat();
    int pos = 0;
    for (int i = 0; i < dirs.size(); i++) {
      String d = dirs.get(i);
      int n = needs(d);
      int stars = 0;
      for (int k = 0; k < d.length(); k++) {
        if (d.charAt(k) != '*') continue;
        boolean prec = k > 0 && d.charAt(k - 1) == '.';
        long v = asInt(flat.get(pos + stars));
        stars++;
        if (prec ? v > 65536 : Math.abs(v) > 65536) return i;
      }
      pos += n;
    }
    return -1;
  }

  private static long asInt(String tok) {
    return (int) Long.parseLong(tok.substring(tok.indexOf(':') + 1));
  }

  private Violation sizes(OpRun r, Exec.Out want) {
    if (r.maxAlloc > 1 << 20) return new Violation("memory", "requested " + r.maxAlloc + " elements at once");
    int k = hostile(r);
    if (k < 0) {
      if (want.error != null && want.error.matches("(?i)(?s).*(width|precision|exceed).*")) return new Violation("rejected", "sizes within the limit fail with " + want.error);
      return null;
    }
    Exec.Out earlier = k == 0 ? null : x.expect(c.vars.get(r.op.var).fmt, k, r.op.args, 0);
    long fair = 16384 + 4L * c.format(c.vars.get(r.op.var).fmt).length();
    if (earlier != null) fair += 4L * (earlier.error == null ? earlier.text : earlier.partial).length();
    for (String d : c.vars.get(r.op.var).derive) if (d.startsWith("cap:")) fair += Long.parseLong(d.substring(4));
    if (r.maxAlloc > fair) return new Violation("memory", "requested " + r.maxAlloc + " elements at once before rejecting a size beyond 65536");
    if (r.error == null) return new Violation("accepted", "a size beyond 65536 was accepted: " + Violation.clip(r.sinkText == null ? r.text : r.sinkText));
    if (!isFormatting(r.error)) return new Violation("accepted", "a size beyond 65536 fails with " + Exec.describe(r.error));
    if (r.sinkText != null) {
      Exec.Out o = x.expect(c.vars.get(r.op.var).fmt, k, r.op.args, 0);
      return prefix(r.sinkText, r.op.init, o.error == null ? o.text : o.partial);
    }
    return null;
  }

  // --------------------------------------------------------------------- work

  static final int PER_DIRECTIVE = 400;
  static final int PER_CHARACTER = 40;

  /** the steps of a call are in proportion to its format, its arguments and its result. */
  private Violation work(OpRun r, Exec.Out want) {
    List<String> dirs = c.fmts.get(c.vars.get(r.op.var).fmt);
    long size = want.error == null ? want.text.length() : want.partial.length();
    for (String d : dirs) size += d.length();
    for (String t : c.args.get(r.op.args).flat()) {
      if (t.startsWith("S:")) size += Long.parseLong(t.split(":")[1]);
      else if (t.startsWith("rope:")) size += x.ropeText[Integer.parseInt(t.substring(5))].length();
      else size += t.length();
    }
    long allowed = (dirs.size() + c.args.get(r.op.args).flat().size() + 1L) * PER_DIRECTIVE + size * PER_CHARACTER;
    r.work = r.points * 100L / allowed;
    r.movedWork = r.moved * 100L / allowed;
    if (r.moved > allowed) return new Violation("work", r.moved + " characters moved for a call of " + dirs.size() + " directives and " + size + " characters");
    if (r.points <= allowed) return null;
    return new Violation("work", r.points + " steps for a call of " + dirs.size() + " directives and " + size + " characters");
  }

  // --------------------------------------------------------- argument lists

  private Violation values(OpRun r) {
    if (r.error != null) return new Violation("values", "failed with " + Exec.describe(r.error));
    List<Object> want = new ArrayList<Object>();
    for (Object v : x.rawValues[r.op.args]) want.add(v);
    for (int i = 0; i < r.argSnap; i++) want.add(x.putValues.get(r.op.args).get(i));
    if (want.size() != r.valuesSeen.size()) return new Violation("values", want.size() + " values expected, got " + r.valuesSeen.size());
    for (int i = 0; i < want.size(); i++) {
      Object w = want.get(i);
      Object g = r.valuesSeen.get(i);
      if (w instanceof Values.Foreign) continue;
      boolean ok = w instanceof Values.Prim ? ((Values.Prim) w).boxed.equals(g) : w == g;
      if (!ok) return new Violation("values", "value " + i + " expected " + w + " got " + g);
    }
    String s;
    try {
      s = String.valueOf(x.twinArgs(r.op.args, r.argSnap));
    } catch (RuntimeException e) {
      return null;
    }
    return s.equals(r.text) ? null : new Violation("values", Violation.diff(s, r.text));
  }

  // ------------------------------------------------------ locale, time zone

  private Violation windowed(OpRun r) {
    Set<String> compileLocales = new LinkedHashSet<String>();
    Set<String> zones = new LinkedHashSet<String>();
    Set<String> locales = new LinkedHashSet<String>();
    for (Object[] e : x.env) {
      long s = (Long) e[0];
      if (s > r.seqEnd) continue;
      if (e[1] != null) {
        if (s <= r.seqStart) locales.clear();
        for (String l : ((String) e[1]).split("\\|", -1)) locales.add(l);
      }
      if (e[2] != null) {
        if (s <= r.seqStart) zones.clear();
        zones.add((String) e[2]);
      }
    }
    if (r.op.kind.equals("compile")) compileLocales.addAll(locales);
    else compileLocales.add(c.locale);
    Violation v = null;
    Set<String> seen = new LinkedHashSet<String>();
    for (String l : compileLocales) {
      for (String z : zones) {
        Exec.Out o = x.expectIn(c.vars.get(r.op.var).fmt, r.op.args, l, z);
        if (!seen.add(o.text + "\n" + o.error + "\n" + o.partial)) continue;
        v = outcome(r, o);
        if (v == null) return null;
      }
    }
    return new Violation("locale", v.detail + " (locales " + compileLocales + " zones " + zones + ")");
  }

  // ------------------------------------------------------------ kept buffers

  /** what stays behind of a thread's buffers is in proportion to what its latest calls needed. */
  private Violation buffers() {
    // per thread and formatter: needs that may still be there
    java.util.Map<String, Long> need = new java.util.HashMap<String, Long>();
    for (int t = 0; t < c.threads.size(); t++) {
      need.clear();
      for (OpRun r : x.runs) {
        if (r.thread != t || r.nested) continue;
        Exec.setEnv(c.locale, c.zone);
        Exec.Out o = expected(r);
        Exec.setEnv("", "UTC");
        long n = o.error == null ? o.text.length() : o.partial.length();
        boolean huge = false;
        for (String d : c.vars.get(r.op.var).derive) {
          if (!d.startsWith("cap:")) continue;
          long k = Long.parseLong(d.substring(4));
          huge |= k > 65536;
          n = Math.max(n, k);
        }
        String key = r.op.kind.equals("fmt") ? "v" + r.op.var : "once";
        Long was = need.get(key);
        boolean string = r.op.sink.isEmpty() || r.op.sink.startsWith("var");
        // a call that fails may fail before it looks at the buffer; a large capacity is kept on purpose
        if (was != null && (huge || r.error != null || !string || key.equals("once"))) n = Math.max(n, was);
        need.put(key, n);
        long most = 65536;
        for (long v : need.values()) most = Math.max(most, v);
        if (r.largest > 2 * (2 * most + 64)) {
          return new Violation("buffer", "thread " + t + " op " + r.index + " " + show(r) + ": a buffer of " + r.largest + " bytes stays behind though the latest calls needed at most " + most + " characters");
        }
      }
    }
    return null;
  }

  // ------------------------------------------------------ shared StringBuffer

  private Violation sharedBuffer(String name, String all) {
    int total = 0;
    int[] count = new int[1 << 16];
    for (OpRun r : x.runs) {
      if (!r.op.sink.equals(name)) continue;
      Exec.setEnv(c.locale, c.zone);
      Exec.Out o = expected(r);
      Exec.setEnv("", "UTC");
      if (o.error != null) return null; // the share of a failing call is not known exactly
      total += o.text.length();
      int k = 0;
      for (int i = 0; i < all.length() && k < o.text.length(); i++) if (all.charAt(i) == o.text.charAt(k)) k++;
      if (k < o.text.length()) return new Violation("conserve", "the characters of " + Violation.clip(o.text) + " do not all arrive in order in " + Violation.clip(all));
      for (int i = 0; i < o.text.length(); i++) count[o.text.charAt(i)]++;
    }
    if (total != all.length()) return new Violation("conserve", total + " characters sent, " + all.length() + " arrived: " + Violation.clip(all));
    for (int i = 0; i < all.length(); i++) {
      if (--count[all.charAt(i)] < 0) return new Violation("conserve", "character " + (int) all.charAt(i) + " arrived too often: " + Violation.clip(all));
    }
    return null;
  }

  // ------------------------------------------------------------------ ropes

  private Violation rope(OpRun r) {
    String want;
    try {
      want = RopeOps.expect(x, r);
    } catch (IndexOutOfBoundsException e) {
      return r.error != null ? null : new Violation("rope", "outside of the sequence, but yields " + Violation.clip(r.text));
    }
    boolean sunk = r.op.text.startsWith("sink") || r.op.text.startsWith("sb");
    if (r.firedKind("sink.")) {
      if (r.writeAfterFail) return new Violation("after-failure", "the destination was written to after it had failed");
      if (r.error != r.injected) return new Violation("cause", "destination failure surfaced as " + r.error);
      return prefix(r.sinkText, r.op.init, want);
    }
    if (r.firedKind("arg.")) {
      // a lazy text failed: the use fails, or did not need it
      if (r.error != null) return r.sinkText == null ? null : prefix(r.sinkText, r.op.init, want);
      return new Violation("swallowed", "the lazy text failed but the use returned " + Violation.clip(r.text));
    }
    if (r.firedKind("vm.") && r.error != null) return null;
    if (r.error != null) return new Violation("error", "failed with " + Exec.describe(r.error));
    if (sunk) {
      String w = r.op.init + want;
      return w.equals(r.sinkText) ? null : new Violation("rope", Violation.diff(w, r.sinkText));
    }
    if (want == null) return null;
    return want.equals(r.text) ? null : new Violation("rope", Violation.diff(want, r.text));
  }

  private Violation ropeHashes() {
    String[] first = new String[c.ropes.size()];
    for (OpRun r : x.runs) {
      if (!r.op.kind.equals("rope") || !r.op.text.startsWith("hash") || r.text == null) continue;
      int i = Integer.parseInt(r.op.text.split(" ")[1]);
      if (first[i] == null) first[i] = r.text;
      else if (!first[i].equals(r.text)) return new Violation("rope", "hashCode of sequence " + i + " changed from " + first[i] + " to " + r.text);
    }
    return null;
  }
}
