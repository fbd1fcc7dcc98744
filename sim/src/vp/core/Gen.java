package vp.core;

import java.util.ArrayList;
import java.util.Arrays;
import java.util.List;
import vp.hook.Policy;
import vp.hook.Rng;

/** Turns a seed into a case for one property. */
final class Gen {
  private static final String INT = "duoxX";
  private static final String FLT = "fFeEgGaA";
  private static final String[] LOCALES = {"tr-TR", "ar-EG-u-nu-arab", "de-DE", "hi-IN-u-nu-deva", "fa-IR", "th-TH-u-ca-buddhist", "ja-JP", "lt-LT", "az-AZ", "fr-FR"};
  private static final String[] ZONES = {"Asia/Tokyo", "America/St_Johns", "Europe/Paris", "Pacific/Apia", "Asia/Kathmandu", "UTC", "America/New_York"};
  private static final String[] PATTERNS = {
    "yyyy-MM-dd", "MMM d, yyyy", "EEEE", "dd/MM/yy", "MMMM", "G yyyy", "'it''s }' yyyy", "E", "D", "uuuu-'W'w"
  };
  private static final String[] TIMES = {"HH:mm:ss", "h:mm a", "HH:mm:ss.SSS", "k"};
  private static final String[] BAD = {
    "%", "%-", "%5", "%.", "%q", "%--d", "%t{", "%t{}", "%t{yyyy", "%99999999999d", "%.99999999999d", "%70000d", "%.70000f", "abc%", "%d%d%k", "%s and %y", "%++d", "%t{bbbb}", "%d %t{'x}", "%-05.3", "%*", "%.*", "x%5.q"
  };

  private static final int[] LENGTHS = {63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300, 511, 512, 513, 1000, 1024};

  private final Rng r;
  private final Case c = new Case();
  private int tag;
  private boolean cbs = true;
  private int badPct = 8;
  private boolean dates = true;
  private boolean ptr = true;
  private String fam = "idfsctpn";

  private Gen(String prop, long seed) {
    c.prop = prop;
    c.seed = seed;
    r = new Rng(seed);
  }

  /** first: the first case a copy of the library sees. */
  static Case make(String prop, long seed, boolean first) {
    Gen g = new Gen(prop, seed);
    g.build();
    if (first || g.r.chance(1, 10)) g.cold();
    if (g.r.chance(1, 8)) g.c.hashes = g.r.pick(new int[] {1, 1, 2, 3});
    if ("C02 C05 C06 C07 C11 C13".contains(prop) && g.r.chance(1, 4)) g.touch();
    return g.c;
  }

  /** the caller changes its argument objects between calls. */
  private void touch() {
    if (c.threads.size() != 1) return;
    for (Case.ArgSet a : c.args) for (String tok : a.flat()) if (tok.startsWith("nest")) return;
    List<Case.Op> l = c.threads.get(0);
    for (Case.Op o : l) for (Case.Fault f : o.faults) if (f.kind.equals("sink.nest")) return;
    if (l.size() > 50) return;
    for (int i = l.size() - 1; i > 0; i--) {
      if (r.chance(1, 2)) continue;
      Case.Op o = new Case.Op();
      o.kind = "touch";
      l.add(i, o);
    }
  }

  /** nothing is prepared: every call compiles its format and builds its arguments. */
  private void cold() {
    if ("C03 C07 C15".contains(c.prop)) return;
    for (List<Case.Op> l : c.threads) {
      for (Case.Op o : l) {
        if (o.kind.equals("fmt")) o.kind = "compile";
        if (o.kind.equals("compile")) o.own = true;
      }
    }
  }

  // ------------------------------------------------------------- directives

  private String lit() {
    switch (r.below(8)) {
      case 6:
        // different texts with equal hash codes
        return r.pick(new String[] {"Aa", "BB", "AaAa", "BBBB", "AaBB", "BBAa"});
      case 7:
        return r.chance(1, 3) ? "\ud83d\ude00x" : r.chance(1, 3) ? word(r.pick(LENGTHS)) : " ";
      case 0:
        return "%%";
      case 1:
        return "";
      case 2:
        return ", ";
      case 3:
        return "<" + word(r.range(1, 12)) + ">";
      case 4:
        return "\u00e9\u00df\u0131\u4e2d";
      default:
        return word(r.range(1, 4));
    }
  }

  private String word(int n) {
    StringBuilder sb = new StringBuilder();
    for (int i = 0; i < n; i++) sb.append((char) ('a' + r.below(26)));
    return sb.toString();
  }

  private String flags(String allowed) {
    StringBuilder sb = new StringBuilder();
    for (int i = 0; i < allowed.length(); i++) if (r.chance(1, 4)) sb.append(allowed.charAt(i));
    return sb.toString();
  }

  private String size(boolean big) {
    switch (r.below(big ? 10 : 8)) {
      case 0:
      case 1:
      case 2:
        return "";
      case 3:
        return "" + r.range(1, 9);
      case 4:
        return "" + r.range(10, 40);
      case 5:
      case 6:
        return "*";
      case 7:
        return "" + (r.chance(2, 3) ? r.pick(new int[] {1, 15, 16, 17, 31, 32, 33}) : r.pick(LENGTHS));
      default:
        return "" + r.pick(new int[] {1000, 4096, 65535, 65536});
    }
  }

  private String directive(char kind, boolean big) {
    String w = size(big);
    String p = r.chance(1, 2) ? "" : size(false);
    switch (kind) {
      case 'i':
        return "%" + flags("-0+ #") + w + (p.isEmpty() ? "" : "." + p) + INT.charAt(r.below(INT.length()));
      case 'd':
        return "%" + flags("-0+ ") + w + "d";
      case 'f':
        return "%" + flags("-0+ #") + w + (p.isEmpty() ? "" : "." + (p.length() > 1 ? "" + r.below(20) : p)) + FLT.charAt(r.below(FLT.length()));
      case 's':
        return "%" + flags("-") + w + (p.isEmpty() ? "" : "." + p) + r.pick(new String[] {"s", "s", "s", "S"});
      case 'c':
        return "%" + flags("-") + w + "c";
      case 't':
        {
          String d = "%" + flags("-") + w + r.pick(new String[] {"t", "T"});
          int k = r.below(3);
          if (k == 0) return d;
          return d + "{" + (k == 1 ? r.pick(PATTERNS) : r.pick(TIMES)) + "}";
        }
      case 'p':
        return "%" + flags("-") + w + "p";
      default:
        return "%" + w + "n";
    }
  }

  // ---------------------------------------------------------------- values

  private long num() {
    switch (r.below(10)) {
      case 0:
        return 0;
      case 1:
        return r.pick(new int[] {1, -1, 9, 10, 127, 128, -128, -129, 255, 256, 99999});
      case 2:
        return Integer.MIN_VALUE;
      case 3:
        return Integer.MAX_VALUE;
      case 4:
        return r.range(-1000, 1000);
      default:
        return r.range(-99999, 999999);
    }
  }

  private String text() {
    tag++;
    switch (r.below(11)) {
      case 9:
        return r.pick(new String[] {"Aa", "BB", "AaAa", "BBBB", "AaBB", "BBAa"});
      case 10:
        return "100%s%" + tag + "{}";
      case 0:
        return "";
      case 1:
        return word(1);
      case 2:
        return "q" + tag + word(15) + "\u0131\u00dfi";
      case 3:
        return "istanbul" + tag;
      case 4:
        return word(r.chance(1, 6) ? r.pick(LENGTHS) : r.range(16, 40)) + tag;
      default:
        return word(r.range(2, 8)) + tag;
    }
  }

  private String intTok() {
    long n = num();
    switch (r.below(cbs ? 16 : 13)) {
      case 0:
      case 1:
        return "i:" + (int) n;
      case 2:
      case 3:
        return "I:" + (int) n;
      case 4:
        return "l:" + n * r.pick(new int[] {1, 7919});
      case 5:
        return "L:" + (r.chance(1, 4) ? Long.MIN_VALUE : n * 1000003L);
      case 6:
        return (r.chance(1, 2) ? "b:" : "B:") + (byte) n;
      case 7:
        return "h:" + (short) n;
      case 8:
        return "H:" + (short) n;
      case 9:
        return "bi:" + n + "00000000000000000000" + Math.abs(n);
      case 10:
        return "s:" + n;
      case 11:
        return "ai:" + (int) n;
      case 12:
        return "al:" + n;
      case 13:
      case 14:
        return "cbn:" + n;
      default:
        return r.chance(1, 3) ? "cbs:" + n : "cbt:" + n;
    }
  }

  private String fltTok() {
    String v;
    switch (r.below(8)) {
      case 0:
        v = r.pick(new String[] {"0.0", "-0.0", "1.0", "100.0", "0.1", "9.9999999", "0.5", "1.5", "2.5"});
        break;
      case 1:
        v = r.pick(new String[] {"1.0E-10", "1.7976931348623157E308", "4.9E-324", "1.0E22", "1.0E-5", "123456.789"});
        break;
      case 2:
        v = r.pick(new String[] {"NaN", "Infinity", "-Infinity"});
        break;
      default:
        v = num() + "." + r.below(100000);
    }
    switch (r.below(cbs ? 12 : 9)) {
      case 0:
      case 1:
        return "d:" + v;
      case 2:
      case 3:
        return "D:" + v;
      case 4:
        return "f:" + r.range(-1000, 1000) + "." + r.below(1000);
      case 5:
        return "F:" + r.range(-1000, 1000) + "." + r.below(1000);
      case 6:
        return "bd:" + num() + "." + r.below(100000) + r.pick(new String[] {"", "00", "e10", "e-12", "0000000000000000000001"});
      case 7:
        return intTokPlain();
      case 8:
        return "s:" + num() + ".25";
      case 9:
      case 10:
        return "cbn:" + num();
      default:
        return "cbt:" + num();
    }
  }

  private String intTokPlain() {
    return "I:" + (int) num();
  }

  private String anyTok() {
    switch (r.below(cbs ? 33 : 25)) {
      case 24:
        switch (r.below(5)) {
          case 0:
            return "za:true,false";
          case 1:
            return "ha:" + r.below(100) + ",-" + r.below(100);
          case 2:
            return "la:" + num() + "," + r.below(100);
          case 3:
            return "fa:1.5,-2." + r.below(10);
          default:
            return r.pick(new String[] {"ia:", "da:", "oa:", "ca:", "ba:", "lst:"});
        }
      case 32:
        return "cbo:" + text();
      case 30:
        return "cba:" + word(2) + "," + word(1) + "," + word(3);
      case 31:
        return "cbl:" + word(2) + "," + word(3);
      case 0:
      case 1:
      case 2:
      case 3:
        return "s:" + text();
      case 4:
        return "null";
      case 5:
        return r.pick(new String[] {"z:true", "Z:false", "z:false", "Z:true"});
      case 6:
        return "c:" + (int) r.pick(new String[] {"i", "z", "\u00df", "\u4e2d", "A"}).charAt(0);
      case 7:
        return "C:" + (97 + r.below(26));
      case 8:
        return intTok();
      case 9:
        return fltTok();
      case 10:
        return "ld:20" + r.range(10, 29) + "-0" + r.range(1, 9) + "-" + r.range(10, 28);
      case 11:
        return "ins:" + (1600000000000L + r.below(1000000000));
      case 12:
        return "ia:" + r.below(100) + "," + r.below(100) + "," + r.below(100);
      case 13:
        return "da:1.5,-2." + r.below(10);
      case 14:
        return "ca:" + word(5);
      case 15:
        return "ba:" + word(r.range(1, 9));
      case 16:
        return "oa:" + word(3) + ",null," + word(2);
      case 17:
        return "lst:" + word(2) + "," + word(3) + r.pick(new String[] {"", "", "," + word(1), ",null", ",null,null"});
      case 18:
        return "sbld:" + text();
      case 19:
        return r.pick(new String[] {"sbuf:", "chb:"}) + text();
      case 20:
        return "s:" + text();
      case 21:
        return "bd:12." + r.below(10000);
      case 22:
        return "bi:" + num();
      case 23:
        return c.ropes.isEmpty() ? "s:" + text() : "rope:" + r.below(c.ropes.size());
      case 25:
        return "cbo:" + text();
      case 26:
      case 27:
        return "cbs:" + text();
      case 28:
        return "cbn:" + num();
      default:
        return "cbt:" + num();
    }
  }

  private String dateTok(String d) {
    int brace = d.indexOf('{');
    String ms = "" + (1500000000000L + r.below(2000000000) * 100L);
    if (brace < 0) {
      switch (r.below(cbs ? 9 : 8)) {
        case 0:
        case 1:
          return "ins:" + ms;
        case 2:
          return "ld:20" + r.range(10, 29) + "-0" + r.range(1, 9) + "-" + r.range(10, 28);
        case 3:
          return "ldt:2021-0" + r.range(1, 9) + "-1" + r.below(9) + "T1" + r.below(9) + ":20:3" + r.below(9);
        case 4:
          return "zdt:" + ms;
        case 5:
          return "odt:" + ms;
        case 6:
          return r.pick(new String[] {"date:", "cal:", "L:", "l:"}) + ms;
        case 7:
          return "l:" + r.range(1000000, 1999999999);
        default:
          return "cbt:" + r.range(0, 30000);
      }
    }
    String p = d.substring(brace + 1, d.length() - 1);
    boolean time = Arrays.asList(TIMES).contains(p);
    switch (r.below(cbs && !c.prop.equals("C08") ? 5 : 4)) {
      case 0:
        return time ? "lt:1" + r.below(9) + ":05:3" + r.below(9) : "ld:20" + r.range(10, 29) + "-0" + r.range(1, 9) + "-" + r.range(10, 28);
      case 1:
        return "ldt:2021-0" + r.range(1, 9) + "-1" + r.below(9) + "T1" + r.below(9) + ":20:3" + r.below(9);
      case 2:
        return "zdt:" + ms;
      case 3:
        return "odt:" + ms;
      default:
        return "cbd:" + ms;
    }
  }

  private String starTok(boolean prec) {
    if (r.below(300) < badPct) return r.pick(new String[] {"null", "s:" + word(2), "lst:a,b", "D:2.5", "za:true"});
    int v;
    switch (r.below(8)) {
      case 0:
        v = prec ? -1 : -r.range(1, 30);
        break;
      case 1:
        v = 0;
        break;
      case 2:
        v = r.chance(2, 3) ? r.pick(new int[] {15, 16, 17, 32}) : r.pick(LENGTHS);
        break;
      default:
        v = r.range(1, 20);
    }
    switch (r.below(cbs ? 8 : 6)) {
      case 0:
      case 1:
      case 2:
        return "i:" + v;
      case 3:
        return "I:" + v;
      case 4:
        return "L:" + v;
      case 5:
        return v > 127 ? "h:" + v : "b:" + v;
      case 6:
        return "cbn:" + v;
      default:
        return "cbt:" + v;
    }
  }

  private List<String> group(String d) {
    List<String> g = new ArrayList<String>();
    int n = Judge.needs(d);
    if (n == 0) return g;
    for (int i = 0; i < d.length() && g.size() < n - 1; i++) {
      if (d.charAt(i) == '*') g.add(starTok(i > 0 && d.charAt(i - 1) == '.'));
    }
    g.add(main(d));
    return g;
  }

  private String main(String d) {
    char k = Judge.conv(d);
    if (r.below(100) < badPct) return anyTok();
    if (INT.indexOf(k) >= 0) return intTok();
    if (FLT.indexOf(k) >= 0) {
      String t = fltTok();
      // hexadecimal output of big decimals is not supported
      return badPct == 0 && (k == 'a' || k == 'A') && t.startsWith("b") ? "D:1.5" : t;
    }
    switch (k) {
      case 'c':
        if (r.below(300) < badPct) return r.pick(new String[] {"s:", "sbld:", "sbuf:", "chb:", "null", "lst:a"});
        return r.chance(1, 2) ? "C:" + (97 + r.below(26)) : r.chance(1, 2) ? "c:" + (97 + r.below(26)) : cbs && r.chance(1, 2) ? "cbs:" + word(3) : "s:" + word(2);
      case 't':
      case 'T':
        return dateTok(d);
      case 'p':
        if (r.below(200) < badPct) return r.pick(new String[] {"i:1234567", "d:1.5", "l:12345678901"});
        return r.pick(new String[] {"s:" + word(2), "null", "I:1234567", "cbo:x", "bi:12", "ia:1,2"});
      default:
        if (cbs && r.chance(1, 24)) return "cbq:" + text();
        return anyTok();
    }
  }

  // ----------------------------------------------------------- case pieces

  private int addFormat(int n, boolean big) {
    List<String> f = new ArrayList<String>();
    for (int i = 0; i < n; i++) {
      if (r.chance(1, 2)) f.add(lit());
      f.add(directive(fam.charAt(r.below(fam.length())), big));
    }
    if (r.chance(1, 3)) f.add(lit());
    c.fmts.add(f);
    return c.fmts.size() - 1;
  }

  private void pickFamilies() {
    String all = "iidfffsssct" + (ptr ? "p" : "") + "n";
    if (!dates) all = all.replace("t", "");
    int k = r.range(1, 3);
    StringBuilder sb = new StringBuilder();
    for (int i = 0; i < k; i++) sb.append(all.charAt(r.below(all.length())));
    fam = sb.toString();
    if (r.chance(1, 5)) fam = all;
  }

  private int addArgs(int fmt) {
    Case.ArgSet a = new Case.ArgSet();
    a.fmt = fmt;
    for (String d : c.fmts.get(fmt)) a.groups.add(group(d));
    if (r.chance(1, 8)) a.extra.add(anyTok());
    int n = a.flat().size();
    if (n > 0 && r.below(100) < badPct) a.keep = r.below(n);
    a.how = r.pick(new String[] {"of", "of", "iter", "iterable", "typed", "put", "own"});
    c.args.add(a);
    return c.args.size() - 1;
  }

  private int addVar(int fmt, String... derive) {
    Case.Var v = new Case.Var();
    v.fmt = fmt;
    v.derive.addAll(Arrays.asList(derive));
    c.vars.add(v);
    return c.vars.size() - 1;
  }

  private String[] chain() {
    String cap = "cap:" + r.pick(new int[] {1, 2, 16, 17, 100, 65536, 65537, 100000});
    switch (r.below(6)) {
      case 0:
        return new String[0];
      case 1:
      case 2:
        return new String[] {"cache"};
      case 3:
        return new String[] {cap};
      case 4:
        return new String[] {"cache", cap};
      default:
        return new String[] {cap, "cache"};
    }
  }

  /** formats, formatters and argument lists that go together. */
  private void pool(int fmts, int perFmt, int dirs, boolean derive) {
    pickFamilies();
    for (int i = 0; i < fmts; i++) {
      int f = addFormat(r.chance(1, 25) ? r.range(8, 30) : r.range(1, dirs), false);
      addVar(f);
      if (derive) {
        if (r.chance(2, 3)) addVar(f, chain());
        if (r.chance(1, 3)) addVar(f, chain());
      }
      for (int k = 0; k < perFmt; k++) addArgs(f);
    }
    if (r.chance(1, 10)) collide();
  }

  /** a second list of arguments that differs from the first in one text of the same length and hash code. */
  private void collide() {
    if (c.args.isEmpty()) return;
    Case.ArgSet a = r.pick(c.args);
    for (int g = 0; g < a.groups.size(); g++) {
      List<String> l = a.groups.get(g);
      if (l.isEmpty() || "sS".indexOf(Judge.conv(c.fmts.get(a.fmt).get(g))) < 0) continue;
      String s = word(r.below(3));
      Case.ArgSet b = new Case.ArgSet();
      b.fmt = a.fmt;
      for (List<String> o : a.groups) b.groups.add(new ArrayList<String>(o));
      b.extra.addAll(a.extra);
      b.keep = a.keep;
      b.how = a.how;
      l.set(l.size() - 1, "s:" + s + "Aa");
      b.groups.get(g).set(l.size() - 1, "s:" + s + "BB");
      c.args.add(b);
      return;
    }
  }

  private int argsFor(int var) {
    List<Integer> l = new ArrayList<Integer>();
    for (int i = 0; i < c.args.size(); i++) if (c.args.get(i).fmt == c.vars.get(var).fmt) l.add(i);
    return l.isEmpty() ? 0 : r.pick(l);
  }

  private Case.Op op() {
    Case.Op o = new Case.Op();
    o.var = r.below(c.vars.size());
    o.args = argsFor(o.var);
    return o;
  }

  private String anySink() {
    return r.pick(new String[] {"", "", "", "", "var", "varm", "varm", "sb", "sb", "sbuf", "sw", "sws", "app", "app", "app", "pw", "wr", "caw", "bw", "ps", "osw", "cbuf:100000"});
  }

  private Case.Op opTo(String sink) {
    Case.Op o = op();
    o.sink = sink;
    if (!sink.isEmpty() && !sink.startsWith("var") && !sink.startsWith("shared")) {
      o.init = r.chance(1, 2) ? "" : word(r.range(1, 5)) + ":";
      o.mode = r.below(2);
      if (sink.equals("app") && r.chance(1, 4)) o.mode |= r.chance(1, 2) ? 2 : 4;
    }
    if (r.chance(1, 6)) o.own = true;
    return o;
  }

  private void thread(List<Case.Op> ops) {
    c.threads.add(ops);
  }

  private void policy() {
    if (c.threads.size() < 2) {
      c.pKind = Policy.SERIAL;
      c.pParam = 1;
      c.pMask = 0xff;
      c.pSeed = r.next();
      return;
    }
    Policy p = Policy.random(r);
    c.pKind = p.kind;
    c.pParam = p.param;
    c.pMask = p.kindsMask;
    c.pSeed = p.seed;
  }

  private Case.Fault fault(String kind, int n) {
    return new Case.Fault(kind, n);
  }

  private Case.Fault vm() {
    int u = r.pick(new int[] {10, 30, 60, 100, 200, 400});
    return fault(r.pick(new String[] {"vm.oom", "vm.oom", "vm.soe", "vm.soe", "vm.kill", "vm.internal"}), r.range(1, u));
  }

  private Case.Fault sinkFault() {
    Case.Fault f =
        fault(
            r.pick(new String[] {"sink.io", "sink.io", "sink.eof", "sink.intio", "sink.rt", "sink.unchecked", "sink.ise", "sink.ioobe", "sink.nse", "sink.err", "sink.oom", "sink.assert", "sink.printf", "sink.uoe", "sink.iae", "sink.npe", "sink.sioobe", "sink.checked", "sink.intr", "sink.closed", "sink.enc", "sink.full", "sink.ro", "sink.cast", "sink.soe", "sink.link"}),
            r.pick(new int[] {0, 0, 1, 2, 3, 5, 8, 13, 21, 34, 60}));
    if (r.chance(1, 2)) f.a = 1;
    return f;
  }

  private Case.Fault argFault() {
    return fault(
        r.pick(new String[] {"arg.rt", "arg.rt", "arg.npe", "arg.ise", "arg.ioobe", "arg.nfe", "arg.cast", "arg.dte", "arg.nse", "arg.err", "arg.oom", "arg.soe", "arg.printf", "arg.uoe", "arg.cme", "arg.iae", "arg.arith", "arg.neg", "arg.sioobe", "arg.link", "arg.checked", "arg.intr", "arg.io", "arg.unchecked", "arg.assert"}),
        r.range(1, r.pick(new int[] {1, 2, 3, 6})));
  }

  // ------------------------------------------------------------- properties

  private void build() {
    switch (c.prop) {
      case "C01":
        c01();
        break;
      case "C02":
        c02();
        break;
      case "C03":
        c03();
        break;
      case "C04":
        c04();
        break;
      case "C05":
        c05();
        break;
      case "C06":
        c06();
        break;
      case "C07":
        c07();
        break;
      case "C08":
        c08();
        break;
      case "C09":
        c09();
        break;
      case "C10":
        c10();
        break;
      case "C11":
        c11();
        break;
      case "C12":
        c12();
        break;
      case "C13":
        c13();
        break;
      case "C14":
        c14();
        break;
      case "C15":
        c15();
        break;
      case "C16":
        c16();
        break;
      case "C17":
        c17();
        break;
      case "C18":
        c18();
        break;
      case "C19":
        c19();
        break;
      case "C20":
        c20();
        break;
      default:
        throw new IllegalArgumentException(c.prop);
    }
    policy();
  }

  private void c01() {
    if (r.chance(1, 5)) ropes(3);
    pool(r.range(1, 2), r.range(1, 3), r.range(1, 4), r.chance(1, 3));
    if (!c.ropes.isEmpty() && r.chance(1, 2)) shareRopes(70);
    int n = r.range(2, 4);
    for (int t = 0; t < n; t++) {
      List<Case.Op> ops = new ArrayList<Case.Op>();
      for (int k = r.range(1, 4); k > 0; k--) {
        Case.Op o = opTo(anySink());
        if (r.chance(1, 12)) o.kind = "compile";
        ops.add(o);
      }
      thread(ops);
    }
  }

  private void c02() {
    pickFamilies();
    int f = addFormat(r.range(1, 4), r.chance(1, 6));
    if (r.chance(1, 2)) {
      // something that can grow beyond the retained size
      c.fmts.get(f).add(r.pick(new String[] {"%s", "%*s", "%-65536s", "%65536d", "%.65535f"}));
    }
    addVar(f);
    int nv = r.range(1, 4);
    for (int i = 0; i < nv; i++) addVar(f, chain());
    int f2 = -1;
    if (r.chance(1, 3)) {
      f2 = addFormat(1, false);
      addVar(f2, chain());
      addArgs(f2);
    }
    int na = r.range(2, 3);
    for (int i = 0; i < na; i++) {
      int a = addArgs(f);
      List<List<String>> g = c.args.get(a).groups;
      List<String> last = g.get(g.size() - 1);
      String d = c.fmts.get(f).get(c.fmts.get(f).size() - 1);
      if (last.size() == 1 && d.equals("%s") && r.chance(1, 2)) last.set(0, "S:" + r.pick(new int[] {16, 33, 200, 65535, 65536, 65537, 70000, 140000}) + ":" + word(1));
      if (last.size() == 2 && d.equals("%*s") && r.chance(1, 2)) last.set(0, "i:" + r.pick(new int[] {65535, 65536, -65536, 40}));
    }
    if (r.chance(1, 4)) collide();
    int n = r.pick(new int[] {1, 1, 2, 2, 3});
    for (int t = 0; t < n; t++) {
      List<Case.Op> ops = new ArrayList<Case.Op>();
      boolean life = t == 0 && r.chance(1, 10);
      int often = r.below(c.vars.size());
      for (int k = life ? r.range(30, 90) : r.range(2, 6); k > 0; k--) {
        Case.Op o = opTo(r.chance(4, 5) ? "" : anySink());
        if (life && r.chance(9, 10)) {
          // one formatter is used again and again
          o.var = often;
          o.args = argsFor(often);
          o.own = false;
        } else if (r.chance(1, 6)) {
          o.kind = "derive";
          o.text = r.chance(1, 2) ? "cache" : "cap:" + r.pick(new int[] {1, 16, 65536, 65537});
        }
        if (r.chance(1, 8)) o.faults.add(argFault());
        else if (r.chance(1, 10)) o.faults.add(vm());
        else if (o.sink.equals("app") && r.chance(1, 3)) o.faults.add(sinkFault());
        ops.add(o);
      }
      thread(ops);
    }
  }

  private void c03() {
    // argument lists are numbered so that nesting only refers to later ones
    pickFamilies();
    if (fam.indexOf('s') < 0) fam += "ss";
    int nf = r.range(1, 2);
    for (int i = 0; i < nf; i++) {
      int f = addFormat(r.range(1, 3), false);
      if (r.chance(2, 3)) c.fmts.get(f).add(r.pick(new String[] {"%s", "%5s", "%S", "%.3s", "%-9s", "%s|%s".substring(0, 2)}));
      addVar(f, r.chance(2, 3) ? new String[] {"cache"} : new String[0]);
      if (r.chance(1, 2)) addVar(f, chain());
    }
    int na = r.range(2, 5);
    for (int i = 0; i < na; i++) addArgs(r.below(nf));
    for (int i = 0; i < na - 1; i++) {
      Case.ArgSet a = c.args.get(i);
      List<String> dirs = c.fmts.get(a.fmt);
      for (int k = 0; k < dirs.size(); k++) {
        List<String> g = a.groups.get(k);
        if (g.isEmpty() || !r.chance(1, 2)) continue;
        int to = r.range(i + 1, na - 1);
        List<Integer> vs = new ArrayList<Integer>();
        for (int v = 0; v < c.vars.size(); v++) if (c.vars.get(v).fmt == c.args.get(to).fmt) vs.add(v);
        if (vs.isEmpty()) continue;
        String ref = r.pick(vs) + ":" + to;
        char cv = Judge.conv(dirs.get(k));
        int at = r.below(g.size());
        if (at < g.size() - 1) g.set(at, "nestn:" + ref + ":" + r.range(1, 20));
        else if (cv == 's' || cv == 'S') g.set(at, r.pick(new String[] {"nest:", "nests:", "nest:", "nestl:", "nesta:"}) + ref);
        else if (INT.indexOf(cv) >= 0 || FLT.indexOf(cv) >= 0) g.set(at, "nestn:" + ref + ":" + num());
        else if (cv == 'c') g.set(at, "nests:" + ref);
      }
    }
    int n = r.pick(new int[] {1, 1, 1, 2, 3});
    for (int t = 0; t < n; t++) {
      List<Case.Op> ops = new ArrayList<Case.Op>();
      for (int k = r.range(1, 4); k > 0; k--) {
        Case.Op o = opTo(r.chance(2, 3) ? "" : anySink());
        if (o.sink.equals("app") || o.sink.equals("wr")) {
          if (r.chance(2, 3)) {
            Case.Fault f = fault("sink.nest", r.range(1, 4));
            f.a = r.below(c.vars.size());
            f.b = argsFor(f.a);
            o.faults.add(f);
          }
        }
        if (o.faults.isEmpty() && r.chance(1, 6)) o.faults.add(argFault());
        ops.add(o);
      }
      thread(ops);
    }
  }

  private void c04() {
    badPct = 4;
    boolean shared = r.chance(1, 8);
    if (shared) ropes(3);
    pool(r.range(1, 2), r.range(1, 2), r.range(1, 5), r.chance(1, 3));
    if (shared) shareRopes(70);
    int n = r.pick(new int[] {1, 1, 2, 3});
    if (many("sink")) return;
    for (int t = 0; t < n; t++) {
      List<Case.Op> ops = new ArrayList<Case.Op>();
      for (int k = r.range(1, 4); k > 0; k--) {
        Case.Op o;
        if (r.chance(2, 3)) {
          o = opTo(r.pick(new String[] {"app", "app", "app", "wr", "shared", "sharedwr", "cbuf:" + r.below(30)}));
          if (!o.sink.startsWith("cbuf")) {
            Case.Fault f = sinkFault();
            if (r.chance(1, 8)) f.n = 100 + r.below(1000);
            o.faults.add(f);
            if (r.chance(1, 10)) o.faults.add(sinkFault());
          }
        } else {
          o = opTo(anySink());
        }
        ops.add(o);
      }
      thread(ops);
    }
  }

  private void c05() {
    badPct = 20;
    boolean shared = r.chance(1, 5);
    if (shared) ropes(r.range(2, 4));
    pool(r.range(1, 2), r.range(1, 3), r.range(1, 5), r.chance(1, 2));
    if (shared) shareRopes(70);
    int n = r.pick(new int[] {1, 1, 2, 3});
    if (many("arg")) return;
    for (int t = 0; t < n; t++) {
      List<Case.Op> ops = new ArrayList<Case.Op>();
      for (int k = r.range(2, 5); k > 0; k--) {
        Case.Op o = opTo(anySink());
        if (r.chance(1, 2)) o.faults.add(argFault());
        ops.add(o);
      }
      thread(ops);
    }
  }

  private void c06() {
    badPct = 3;
    if (r.chance(1, 6)) ropes(3);
    pool(r.range(1, 2), r.range(1, 3), r.range(1, 4), r.chance(2, 3));
    if (!c.ropes.isEmpty() && r.chance(1, 2)) shareRopes(70);
    int n = r.pick(new int[] {1, 1, 1, 2, 3});
    if (many("vm")) return;
    for (int t = 0; t < n; t++) {
      List<Case.Op> ops = new ArrayList<Case.Op>();
      for (int k = r.range(2, 6); k > 0; k--) {
        Case.Op o = opTo(anySink());
        if (r.chance(1, 8)) o.kind = "compile";
        if (r.chance(3, 5)) o.faults.add(vm());
        ops.add(o);
      }
      // what the faults may have left behind is seen by calls without faults
      for (int k = r.range(1, 3); k > 0; k--) ops.add(opTo(anySink()));
      thread(ops);
    }
  }

  /** now and then, one thread whose calls fail again and again. */
  private boolean many(String faults) {
    if (!r.chance(1, 25)) return false;
    many(faults, r.pick(new int[] {12, 20, 40, 70}));
    return true;
  }

  private void many(String faults, int n) {
    List<Case.Op> ops = new ArrayList<Case.Op>();
    for (int k = 0; k < n; k++) {
      Case.Op o = opTo(faults.equals("sink") ? r.pick(new String[] {"app", "wr"}) : anySink());
      o.mode = 0;
      if (faults.equals("sink")) {
        o.faults.add(sinkFault());
      } else if (faults.equals("arg")) {
        o.faults.add(argFault());
      } else {
        Case.Fault f = vm();
        f.n = r.range(1, 40);
        o.faults.add(f);
      }
      ops.add(o);
    }
    for (int k = 0; k < 3; k++) ops.add(opTo(anySink()));
    thread(ops);
  }

  private void c07() {
    badPct = 5;
    int fs = r.range(1, 3);
    pool(fs, r.range(1, 2), r.range(1, 3), r.chance(1, 3));
    int n = r.pick(new int[] {1, 1, 2, 3, 4});
    // every formatter meets every list
    for (int t = 0; t < n; t++) {
      List<Case.Op> ops = new ArrayList<Case.Op>();
      for (int k = r.range(2, 6); k > 0; k--) {
        Case.Op o = opTo(anySink());
        o.own = false;
        if (r.chance(1, 4)) o.args = r.below(c.args.size());
        int z = r.below(10);
        if (z == 0) {
          o.kind = "values";
          o.sink = "";
        } else if (z == 1) {
          o.kind = "mutsrc";
          o.sink = "";
        } else if (z == 2 && n == 1) {
          o.kind = "put";
          o.sink = "";
          o.text = anyTok();
        } else if (z == 3) {
          o.faults.add(argFault());
        } else if (z == 4) {
          o.faults.add(vm());
        } else if (z == 5 && (o.sink.equals("app") || o.sink.equals("wr"))) {
          o.faults.add(sinkFault());
        }
        if (o.kind.equals("values") || o.kind.equals("mutsrc") || o.kind.equals("put")) {
          o.mode = 0;
          o.init = "";
        }
        if (o.sink.startsWith("var")) o.sink = "";
        ops.add(o);
      }
      thread(ops);
    }
    if (r.chance(1, 2)) {
      // a list meant to be extended has room for more
      for (Case.ArgSet a : c.args) if (n == 1 && r.chance(1, 2) && !a.flat().isEmpty()) a.keep = r.below(a.flat().size());
    }
  }

  private void c08() {
    badPct = 0;
    c.locale = r.chance(1, 3) ? "" : r.pick(LOCALES);
    c.zone = r.pick(ZONES);
    int fs = r.range(1, 3);
    for (int i = 0; i < fs; i++) {
      pickFamilies();
      fam = fam.replace("t", "").replace("p", "").replace("n", "");
      if (fam.isEmpty()) fam = r.pick(new String[] {"s", "f", "i", "c"});
      int f = addFormat(r.range(0, 2), false);
      if (r.chance(2, 3)) c.fmts.get(f).add(r.below(c.fmts.get(f).size() + 1), directive('t', false));
      addVar(f, r.chance(1, 4) ? new String[] {"cache"} : new String[0]);
      for (int k = r.range(1, 2); k > 0; k--) {
        int a = addArgs(f);
        c.args.get(a).extra.clear();
        c.args.get(a).keep = -1;
        // sequences and dates rendered as text depend on nothing; others may
        for (List<String> g : c.args.get(a).groups) for (int q = 0; q < g.size(); q++) if (g.get(q).startsWith("date:") && g.size() == 0) g.set(q, "null");
      }
    }
    for (Case.ArgSet a : c.args) {
      List<String> dirs = c.fmts.get(a.fmt);
      for (int k = 0; k < dirs.size(); k++) {
        List<String> g = a.groups.get(k);
        if (g.isEmpty()) continue;
        String last = g.get(g.size() - 1);
        char cv = Judge.conv(dirs.get(k));
        // text of a platform date is the caller's, not the library's
        if (cv != 't' && cv != 'T' && (last.startsWith("date:") || last.startsWith("cal:"))) g.set(g.size() - 1, "s:istanbul");
      }
    }
    int n = r.range(1, 3);
    for (int t = 0; t < n; t++) {
      List<Case.Op> ops = new ArrayList<Case.Op>();
      for (int k = r.range(1, 4); k > 0; k--) {
        if (r.chance(1, 5)) ops.add(env());
        Case.Op o = opTo(r.pick(new String[] {"", "", "var", "sb", "app", "sw"}));
        if (r.chance(1, 4)) o.kind = "compile";
        ops.add(o);
      }
      thread(ops);
    }
    List<Case.Op> ops = new ArrayList<Case.Op>();
    for (int k = r.range(1, 5); k > 0; k--) ops.add(env());
    thread(ops);
  }

  private Case.Op env() {
    Case.Op o = new Case.Op();
    o.kind = "env";
    o.text = r.chance(1, 2) ? r.pick(new String[] {"L:", "L:", "L:", "F:", "D:"}) + r.pick(LOCALES) : "Z:" + r.pick(ZONES);
    return o;
  }

  private void c09() {
    badPct = 2;
    pool(r.range(1, 3), r.range(1, 2), r.range(1, 5), r.chance(1, 3));
    int n = r.range(2, 4);
    boolean buf = r.chance(1, 2);
    String name = buf ? r.pick(new String[] {"sharedbuf", "sharedbuf", "sharedsw"}) : "";
    if (buf) for (Case.ArgSet a : c.args) a.keep = -1;
    for (int t = 0; t < n; t++) {
      List<Case.Op> ops = new ArrayList<Case.Op>();
      for (int k = r.range(1, 4); k > 0; k--) {
        Case.Op o = opTo(buf ? name : r.chance(1, 4) ? "sharedwr" : "shared");
        if (!buf && r.chance(1, 10)) o.faults.add(sinkFault());
        ops.add(o);
      }
      thread(ops);
    }
  }

  private void c10() {
    badPct = 6;
    if (r.chance(1, 6)) {
      if (r.chance(1, 2)) lazyRope();
      ropes(r.range(1, 3));
    }
    pool(r.range(1, 2), r.range(1, 2), r.range(1, 4), r.chance(2, 3));
    if (!c.ropes.isEmpty() && r.chance(1, 2)) shareRopes(70);
    int n = r.range(2, 4);
    int frozen = r.range(1, n - 1);
    for (int t = 0; t < n; t++) {
      List<Case.Op> ops = new ArrayList<Case.Op>();
      int m = r.range(1, 4);
      for (int k = 0; k < m; k++) {
        Case.Op o = opTo(r.chance(1, 10) ? "shared" : anySink());
        if (r.chance(1, 6)) o.kind = "compile";
        if (r.chance(1, 3)) o.own = true;
        if (t < frozen && k == m - 1) {
          String kind = r.pick(new String[] {"freeze.point", "freeze.point", "freeze.point", "freeze.cb", "freeze.sink"});
          if (kind.equals("freeze.sink") && !o.sink.equals("wr")) o.sink = r.chance(1, 4) ? "shared" : "app";
          o.faults.add(fault(kind, kind.equals("freeze.point") ? r.range(2, r.pick(new int[] {20, 60, 150, 400})) : r.range(1, 3)));
        } else {
          int z = r.below(8);
          if (z == 0) o.faults.add(vm());
          else if (z == 1) o.faults.add(argFault());
          else if (z == 2 && (o.sink.equals("app") || o.sink.equals("wr"))) o.faults.add(sinkFault());
          else if (z == 3) o.faults.add(fault("intr", r.range(1, 60)));
        }
        ops.add(o);
      }
      thread(ops);
    }
  }

  /** formats that differ from one of the others in one number only, by a power of two, or in the case of one letter. */
  private void alike() {
    int f = r.below(c.fmts.size());
    List<String> d = new ArrayList<String>(c.fmts.get(f));
    int k = r.below(d.size());
    String s = d.get(k);
    if (s.indexOf('%') != 0 || Judge.conv(s) == 't') return;
    java.util.regex.Matcher m = java.util.regex.Pattern.compile("[1-9][0-9]*").matcher(s);
    String t;
    if (m.find() && (!r.chance(1, 3) || m.group().length() < 5)) {
      long v = Long.parseLong(m.group()) + (1L << r.pick(new int[] {0, 3, 4, 5, 6, 7, 8, 8, 9, 10, 11, 11, 12, 13, 14, 15, 16}));
      if (v > 140000) return;
      t = s.substring(0, m.start()) + v + s.substring(m.end());
    } else if (s.length() == 2 && "diuxXosS".indexOf(s.charAt(1)) >= 0) {
      int w = r.range(1, 9);
      d.set(k, "%" + w + s.charAt(1));
      c.fmts.set(f, new ArrayList<String>(d));
      t = "%" + (w + (1 << r.pick(new int[] {4, 8, 10, 11, 12, 15, 16}))) + s.charAt(1);
    } else {
      return;
    }
    d.set(k, t);
    c.fmts.add(d);
    int g = c.fmts.size() - 1;
    addVar(g);
    addArgs(g);
  }

  private void c11() {
    badPct = 4;
    pool(r.range(1, 3), 1, r.range(1, 5), r.chance(1, 4));
    if (r.chance(1, 3)) for (int k = r.range(1, 3); k > 0; k--) alike();
    int n = r.range(1, 4);
    for (int t = 0; t < n; t++) {
      List<Case.Op> ops = new ArrayList<Case.Op>();
      for (int k = r.range(2, 5); k > 0; k--) {
        Case.Op o = opTo(r.chance(3, 4) ? "" : anySink());
        int z = r.below(10);
        if (z < 6) o.kind = "compile";
        else if (z < 8) bad(o);
        if (r.chance(1, 4)) o.faults.add(vm());
        ops.add(o);
      }
      thread(ops);
    }
  }

  /** turns the call into the compilation of a format that is, most of the time, not one. */
  private void bad(Case.Op o) {
    o.kind = "bad";
    o.sink = "";
    o.init = "";
    o.own = false;
    o.mode = 0;
    String b = r.pick(BAD);
    if (r.chance(1, 3)) b = c.format(c.vars.get(o.var).fmt) + b;
    if (r.chance(1, 4)) {
      String full = c.format(c.vars.get(o.var).fmt);
      b = full.substring(0, r.below(full.length() + 1));
    }
    o.text = b;
  }

  private void c19() {
    badPct = r.pick(new int[] {30, 60, 90});
    pool(r.range(1, 3), r.range(1, 2), r.range(1, 4), r.chance(1, 3));
    int n = r.pick(new int[] {1, 1, 2, 3, 4});
    if (many("arg")) return;
    String same = null;
    for (int t = 0; t < n; t++) {
      List<Case.Op> ops = new ArrayList<Case.Op>();
      for (int k = r.range(2, 7); k > 0; k--) {
        Case.Op o = opTo(anySink());
        int z = r.below(10);
        if (z < 4) {
          bad(o);
          // the same mistake again and again
          if (same != null && r.chance(1, 2)) o.text = same;
          same = o.text;
        } else if (z < 5) {
          o.kind = "compile";
        } else if (z < 7) {
          o.faults.add(argFault());
        } else if (o.sink.equals("app") || o.sink.equals("wr")) {
          o.faults.add(sinkFault());
        }
        ops.add(o);
      }
      thread(ops);
    }
  }

  private void c20() {
    badPct = 15;
    if (r.chance(1, 2)) c.locale = r.pick(LOCALES);
    if (r.chance(1, 2)) c.zone = r.pick(ZONES);
    if (r.chance(1, 6)) ropes(2);
    pool(r.range(1, 3), r.range(1, 2), r.range(1, 5), r.chance(1, 2));
    if (!c.ropes.isEmpty() && r.chance(1, 2)) shareRopes(70);
    int n = r.pick(new int[] {1, 1, 2, 3});
    for (int t = 0; t < n; t++) {
      List<Case.Op> ops = new ArrayList<Case.Op>();
      for (int k = r.range(2, 6); k > 0; k--) {
        Case.Op o = opTo(anySink());
        int z = r.below(12);
        if (z < 1) bad(o);
        else if (z < 2) o.kind = "compile";
        else if (z < 4) o.faults.add(argFault());
        else if (z < 6) o.faults.add(vm());
        else if (o.sink.equals("app") || o.sink.equals("wr")) o.faults.add(sinkFault());
        ops.add(o);
      }
      thread(ops);
    }
  }

  private void c12() {
    badPct = 0;
    cbs = r.chance(1, 4);
    pickFamilies();
    int base = r.range(1, 4);
    int f = addFormat(base, false);
    List<String> one = c.fmts.get(f);
    int reps = r.pick(new int[] {150, 200, 300, 500, 800}) / base;
    if (r.chance(1, 12)) reps = r.pick(new int[] {1200, 2000, 4000}) / base;
    List<String> all = new ArrayList<String>();
    for (int i = 0; i < reps; i++) {
      all.addAll(one);
      if (i == reps / 2 && r.chance(1, 4)) all.add("%" + r.pick(new int[] {1000, 65536}) + "s");
    }
    c.fmts.set(f, all);
    addVar(f, r.chance(1, 3) ? chain() : new String[0]);
    addArgs(f);
    c.args.get(0).keep = -1;
    for (List<String> g : c.args.get(0).groups) for (int i = 0; i < g.size(); i++) if (g.get(i).startsWith("cbs:")) g.set(i, "s:ab");
    if (r.chance(1, 4)) {
      chains();
      shareRopes(100);
    }
    c.depthLimit = 64;
    int n = r.pick(new int[] {1, 1, 1, 2});
    for (int t = 0; t < n; t++) {
      List<Case.Op> ops = new ArrayList<Case.Op>();
      for (int k = r.range(1, 2); k > 0; k--) {
        Case.Op o = opTo(r.pick(new String[] {"", "sb", "app", "sw", "var"}));
        o.mode = 0;
        if (r.chance(1, 2)) o.kind = "compile";
        if (r.chance(1, 3)) o.own = true;
        ops.add(o);
        if (!c.ropes.isEmpty() && r.chance(1, 2)) {
          o = new Case.Op();
          o.kind = "rope";
          int j = r.below(c.ropes.size());
          int len = texts[j].length();
          int a = r.below(len);
          o.text = r.pick(new String[] {"str " + j, "parts " + j, "sb " + j, "sink " + j, "up " + j + " 1", "sub " + j + " " + a + " " + (a + r.below(len - a + 1)) + " 1", "idx " + j + " 33", "chr " + j + " " + a, "cat " + j + " " + j + " 1"});
          ops.add(o);
        }
      }
      thread(ops);
    }
  }

  /** sequences put together from very many pieces. */
  private void chains() {
    ptr = false;
    texts = new String[64];
    for (int i = 0; i < 2; i++) {
      List<String> d = Arrays.asList("chain", word(1), "" + r.pick(new int[] {70, 100, 200, 400, 900}), r.pick(new String[] {"end", "front", "turns"}));
      texts[i] = Exec.ropeModel(d, texts);
      c.ropes.add(d);
    }
  }

  private void lazyRope() {
    ptr = false;
    texts = new String[64];
    List<String> d = Arrays.asList("lazy", word(r.range(2, 9)));
    texts[0] = Exec.ropeModel(d, texts);
    c.ropes.add(d);
  }

  /** lets text conversions take the shared sequences. */
  private void shareRopes(int pct) {
    for (Case.ArgSet a : c.args) {
      List<String> dirs = c.fmts.get(a.fmt);
      int seen = 0;
      for (int k = 0; k < dirs.size(); k++) {
        List<String> g = a.groups.get(k);
        if (g.isEmpty() || "sS".indexOf(Judge.conv(dirs.get(k))) < 0 || r.below(100) >= pct) continue;
        if (++seen > 6) return;
        g.set(g.size() - 1, "rope:" + r.below(c.ropes.size()));
      }
    }
  }

  private void c13() {
    badPct = 2;
    if (r.chance(1, 4)) ropes(4);
    pool(1, r.range(1, 2), r.range(1, 5), r.chance(1, 3));
    if (!c.ropes.isEmpty() && r.chance(1, 2)) shareRopes(70);
    if (r.chance(1, 8)) {
      c.fmts.get(0).add(directive('s', true));
      for (Case.ArgSet a : c.args) {
        String d = c.fmts.get(0).get(c.fmts.get(0).size() - 1);
        a.groups.add(group(d));
        a.extra.clear();
        a.keep = -1;
      }
    }
    String[] sinks = {"", "var", "sb", "sbuf", "sw", "sws", "pw", "app", "app", "wr", "cbuf:200000", "shared", "caw", "bw", "ps", "osw"};
    int n = r.pick(new int[] {1, 1, 2, 3});
    int s = r.below(sinks.length);
    for (int t = 0; t < n; t++) {
      List<Case.Op> ops = new ArrayList<Case.Op>();
      for (int k = n == 1 ? r.range(3, sinks.length) : r.range(2, 4); k > 0; k--) {
        Case.Op o = opTo(sinks[s++ % sinks.length]);
        ops.add(o);
      }
      thread(ops);
    }
  }

  private void c14() {
    badPct = 6;
    pool(r.range(1, 2), r.range(1, 2), r.range(1, 6), r.chance(1, 3));
    // make most arguments observable
    for (Case.ArgSet a : c.args) {
      List<String> dirs = c.fmts.get(a.fmt);
      for (int k = 0; k < dirs.size(); k++) {
        List<String> g = a.groups.get(k);
        for (int i = 0; i < g.size(); i++) {
          if (!r.chance(3, 4)) continue;
          boolean main = i == g.size() - 1;
          char cv = Judge.conv(dirs.get(k));
          if (!main) g.set(i, (r.chance(1, 2) ? "cbn:" : "cbt:") + r.range(-20, 20));
          else if (INT.indexOf(cv) >= 0) g.set(i, r.pick(new String[] {"cbn:", "cbn:", "cbt:", "cbs:"}) + num());
          else if (FLT.indexOf(cv) >= 0) g.set(i, r.pick(new String[] {"cbn:", "cbn:", "cbt:", "cbs:"}) + num());
          else if (cv == 's' || cv == 'S') g.set(i, r.chance(1, 4) ? "cbt:" + num() : r.chance(1, 4) ? "cbn:" + num() : r.pick(new String[] {"cbo:", "cbs:"}) + text());
          else if (cv == 'c') g.set(i, "cbs:" + word(3));
          else if (cv == 't' || cv == 'T') {
            if (dirs.get(k).indexOf('{') < 0) g.set(i, r.chance(1, 2) ? "cbt:" + r.range(0, 30000) : "cbn:" + r.range(0, 1999999999));
          }
        }
      }
      if (r.chance(1, 3)) a.extra.add(r.pick(new String[] {"cbo:surplus", "cbn:7", "cbs:surplus", "cbt:7"}));
    }
    int n = r.pick(new int[] {1, 1, 2, 3});
    for (int t = 0; t < n; t++) {
      List<Case.Op> ops = new ArrayList<Case.Op>();
      for (int k = r.range(1, 3); k > 0; k--) {
        Case.Op o = opTo(anySink());
        int z = r.below(8);
        if (z == 0) o.faults.add(argFault());
        else if (z == 1 && (o.sink.equals("app") || o.sink.equals("wr"))) o.faults.add(sinkFault());
        else if (z == 2) o.faults.add(vm());
        ops.add(o);
      }
      thread(ops);
    }
  }

  private void c17() {
    badPct = 8;
    if (r.chance(1, 8)) ropes(3);
    boolean large = r.chance(1, 4);
    pool(r.range(1, 2), 0, r.range(1, 4), r.chance(4, 5));
    if (large) for (List<String> f : c.fmts) f.add(r.pick(new String[] {"%s", "%-9s"}));
    int n = r.pick(new int[] {1, 1, 2, 3});
    for (int t = 0; t < n; t++) {
      List<Case.Op> ops = new ArrayList<Case.Op>();
      for (int k = r.range(2, 6); k > 0; k--) {
        Case.Op o = opTo(r.chance(1, 3) ? "" : anySink());
        // every call has its own arguments, so that nobody else may still need them
        o.args = addArgs(c.vars.get(o.var).fmt);
        if (large && r.chance(1, 3)) {
          List<List<String>> g = c.args.get(o.args).groups;
          g.get(g.size() - 1).set(0, "S:" + r.pick(new int[] {66000, 300000, 400000}) + ":" + word(1));
        }
        if (r.chance(1, 10)) o.kind = "compile";
        switch (r.below(8)) {
          case 0:
          case 1:
            o.faults.add(argFault());
            break;
          case 2:
          case 3:
            o.faults.add(vm());
            break;
          case 4:
            if (o.sink.equals("app") || o.sink.equals("wr")) o.faults.add(sinkFault());
            break;
          default:
        }
        ops.add(o);
      }
      thread(ops);
    }
  }

  /** an array or a list with many elements. */
  private String many() {
    String k = r.pick(new String[] {"ia", "la", "oa", "lst", "ba", "ca", "da", "za"});
    int n = r.pick(new int[] {40, 150, 500, 1500});
    if (k.equals("ba") || k.equals("ca")) return k + ":" + word(n);
    StringBuilder sb = new StringBuilder(k).append(':');
    for (int i = 0; i < n; i++) sb.append(i == 0 ? "" : ",").append(k.equals("za") ? "true" : k.equals("da") ? "1.5" : "" + (i % 97));
    return sb.toString();
  }

  private void c18() {
    badPct = 3;
    if (r.chance(1, 16)) {
      // small calls that fail again and again
      pool(1, 1, r.range(1, 2), r.chance(1, 3));
      if (c.format(0).length() < 40 && !c.format(0).matches("(?s).*([0-9]{3}|[*]).*")) {
        many(r.pick(new String[] {"sink", "sink", "arg", "vm"}), r.pick(new int[] {20, 70, 200, 600, 1500}));
        return;
      }
    }
    if (r.chance(1, 100)) {
      // very many conversions and arguments
      badPct = 0;
      List<String> d = new ArrayList<String>();
      String[] some = {r.pick(new String[] {"%d", "%x", "%u"}), r.pick(new String[] {"%d", "%3d", "%o"})};
      for (int k = r.pick(new int[] {1000, 3000, 9000}); k > 0; k--) d.add(r.pick(some));
      c.fmts.add(d);
      addVar(0);
      addArgs(0);
      List<Case.Op> ops = new ArrayList<Case.Op>();
      Case.Op o = opTo(r.pick(new String[] {"", "sb", "sbuf", "app"}));
      if (r.chance(1, 3)) o.kind = "compile";
      o.mode = 0;
      ops.add(o);
      thread(ops);
      return;
    }
    int z = r.below(6);
    if (z == 0) ropes(3);
    else if (z == 1) chains();
    pickFamilies();
    int fs = r.range(1, 2);
    for (int i = 0; i < fs; i++) {
      int f = addFormat(r.range(1, 3), r.chance(1, 3));
      List<String> d = c.fmts.get(f);
      if (r.chance(1, 3)) d.add(r.below(d.size() + 1), word(r.pick(new int[] {500, 2000, 8000, 30000})));
      if (r.chance(1, 3)) d.add(r.pick(new String[] {"%s", "%S", "%.4000s", "%9000s", "%-9000S", "%c", "%9000d", "%.9000d", "%#.9000x", "%.3000f", "%.3000e", "%.3000g", "%09000d", "%t{yyyy'" + word(3000) + "'}"}));
      if (r.chance(1, 6) && !c.format(f).matches("(?s).*([0-9]{4}|[a-z]{500}).*")) {
        List<String> one = new ArrayList<String>(d);
        for (int k = r.pick(new int[] {20, 60, 150}) / one.size(); k > 0; k--) d.addAll(one);
      }
      addVar(f);
      if (r.chance(1, 2)) addVar(f, chain());
      for (int k = r.range(1, 2); k > 0; k--) addArgs(f);
    }
    if (!c.ropes.isEmpty()) shareRopes(70);
    for (Case.ArgSet a : c.args) {
      List<String> dirs = c.fmts.get(a.fmt);
      for (int k = 0; k < dirs.size(); k++) {
        List<String> g = a.groups.get(k);
        if (g.isEmpty() || !r.chance(1, 4)) continue;
        char cv = Judge.conv(dirs.get(k));
        if ("sS".indexOf(cv) >= 0 && r.chance(1, 2)) g.set(g.size() - 1, many());
        else if ("sS".indexOf(cv) >= 0) g.set(g.size() - 1, "S:" + r.pick(new int[] {300, 3000, 20000}) + ":" + word(1));
        else if (cv == 'd' || cv == 'x') g.set(g.size() - 1, "bi:" + r.range(1, 9) + word(r.pick(new int[] {100, 1000})).replaceAll("[a-z]", "7"));
      }
    }
    int n = r.pick(new int[] {1, 1, 2, 3});
    for (int t = 0; t < n; t++) {
      List<Case.Op> ops = new ArrayList<Case.Op>();
      for (int k = r.range(1, 5); k > 0; k--) {
        Case.Op o = opTo(anySink());
        o.mode = 0;
        if (r.chance(1, 4)) o.kind = "compile";
        switch (r.below(8)) {
          case 0:
            o.faults.add(argFault());
            break;
          case 1:
            o.faults.add(vm());
            break;
          case 2:
            if (o.sink.equals("app") || o.sink.equals("wr")) o.faults.add(sinkFault());
            break;
          default:
        }
        ops.add(o);
      }
      thread(ops);
    }
  }

  // ------------------------------------------------------------------ ropes

  private void ropes(int n) {
    // the identity of a sequence differs between the two copies of the library
    ptr = false;
    String[] t = texts != null ? texts : new String[64];
    for (int i = 0; i < n; i++) {
      List<String> d = new ArrayList<String>();
      String s = r.chance(1, 10) ? "" : r.chance(1, 8) ? "i\u0131\u00df" + word(3) : word(r.chance(1, 4) ? r.range(14, 40) : r.chance(1, 12) ? r.pick(LENGTHS) : r.range(1, 9)) + (r.chance(1, 3) ? "Q" : "");
      int k = r.below(c.ropes.isEmpty() ? 9 : 24);
      int j = c.ropes.isEmpty() ? 0 : r.below(c.ropes.size());
      int j2 = c.ropes.isEmpty() ? 0 : r.below(c.ropes.size());
      switch (k) {
        case 0:
        case 1:
          d.addAll(Arrays.asList("wrap", s));
          break;
        case 2:
          {
            int a = r.below(s.length() + 1);
            d.addAll(Arrays.asList("rng", s, "" + a, "" + (a + r.below(s.length() - a + 1))));
            break;
          }
        case 3:
          d.addAll(Arrays.asList("from", s, "" + r.below(s.length() + 1)));
          break;
        case 4:
          d.addAll(Arrays.asList("ch", word(1)));
          break;
        case 5:
          d.addAll(Arrays.asList("rep", word(1), "" + r.pick(new int[] {1, 2, 3, 7, 15, 16, 17, 31, 32, 64, 65, 100, 128, 256, 300})));
          break;
        case 6:
          {
            int a = r.below(s.length() + 1);
            d.addAll(Arrays.asList("arr", s, "" + a, "" + r.below(s.length() - a + 1)));
            break;
          }
        case 7:
          d.addAll(Arrays.asList("arrall", s));
          break;
        case 8:
          d.addAll(Arrays.asList("lazy", s));
          break;
        case 9:
        case 10:
          d.addAll(Arrays.asList("cat", "" + j, "" + j2));
          break;
        case 11:
          d.addAll(Arrays.asList("app", "" + j, "" + j2));
          break;
        case 12:
          d.addAll(Arrays.asList("pre", "" + j, "" + j2));
          break;
        case 13:
        case 14:
          d.addAll(Arrays.asList("up", "" + j));
          break;
        case 15:
        case 16:
        case 17:
          {
            int a = r.below(t[j].length() + 1);
            d.addAll(Arrays.asList("sub", "" + j, "" + a, "" + (a + r.below(t[j].length() - a + 1))));
            break;
          }
        case 18:
          d.addAll(Arrays.asList("dup", "" + j));
          break;
        case 19:
          d.add("empty");
          break;
        case 22:
          d.addAll(Arrays.asList("own", s));
          break;
        case 23:
          d.addAll(Arrays.asList("chain", word(1), "" + r.pick(new int[] {3, 9, 30, 120}), r.pick(new String[] {"end", "front", "turns"})));
          break;
        default:
          {
            d.add("join");
            for (int q = r.range(0, 4); q > 0; q--) d.add("" + r.below(c.ropes.size()));
          }
      }
      String m = Exec.ropeModel(d, t);
      if (m.length() > 2000) {
        i--;
        continue;
      }
      t[c.ropes.size()] = m;
      c.ropes.add(d);
    }
    texts = t;
  }

  private String[] texts;

  private void c15() {
    ropes(r.range(2, 12));
    int n = r.pick(new int[] {1, 2, 2, 3, 4});
    for (int t = 0; t < n; t++) {
      List<Case.Op> ops = new ArrayList<Case.Op>();
      for (int k = r.range(2, 8); k > 0; k--) {
        Case.Op o = new Case.Op();
        o.kind = "rope";
        // later sequences are made of earlier ones; threads meet on few of them
        int j = r.chance(1, 2) ? c.ropes.size() - 1 : r.below(c.ropes.size());
        String s = texts[j];
        int len = s.length();
        int how = r.below(4);
        switch (r.below(23)) {
          case 19:
          case 20:
            {
              String kind = c.ropes.get(j).get(0);
              o.text = kind.equals("lazy") || kind.equals("own") ? "self " + j : "mk " + j + " " + how;
              break;
            }
          case 21:
            o.text = "app " + j + " " + r.below(c.ropes.size()) + " " + how;
            break;
          case 22:
            o.text = "chars " + j;
            break;
          case 18:
            {
              // outside of the sequence: always an error, never a character
              int z = r.below(4);
              o.text = z == 0 ? "chr " + j + " " + (len + r.below(3)) : z == 1 ? "chr " + j + " -" + r.range(1, 3) : z == 2 ? "sub " + j + " " + r.below(len + 1) + " " + (len + r.range(1, 3)) + " 0" : "sub " + j + " -1 " + r.below(len + 1) + " 0";
              break;
            }
          case 0:
            o.text = "len " + j;
            break;
          case 1:
            o.text = "emp " + j;
            break;
          case 2:
          case 3:
            o.text = len == 0 ? "len " + j : "chr " + j + " " + r.below(len);
            break;
          case 4:
            o.text = "idx " + j + " " + (len > 0 && r.chance(2, 3) ? (int) s.charAt(r.below(len)) : 97 + r.below(26));
            break;
          case 5:
            o.text = "sw " + j + " " + (len > 0 && r.chance(2, 3) ? (int) s.charAt(0) : 97 + r.below(26));
            break;
          case 6:
          case 7:
            o.text = "str " + j;
            break;
          case 8:
            o.text = "parts " + j;
            break;
          case 9:
            o.text = "up " + j + " " + how;
            break;
          case 10:
            o.text = "map " + j + " " + how;
            break;
          case 11:
          case 12:
            {
              int a = r.below(len + 1);
              o.text = "sub " + j + " " + a + " " + (a + r.below(len - a + 1)) + " " + how;
              break;
            }
          case 13:
            o.text = r.pick(new String[] {"cat ", "pre "}) + j + " " + r.below(c.ropes.size()) + " " + how;
            break;
          case 14:
            o.text = "hash " + j;
            break;
          case 15:
            o.text = "sb " + j;
            break;
          default:
            o.text = "sink " + j;
            o.mode = r.below(2);
            if (r.chance(1, 4)) o.mode |= r.chance(1, 2) ? 2 : 4;
            if (r.chance(1, 2)) o.faults.add(sinkFault());
        }
        if (r.chance(1, 3) && (o.text.startsWith("sb") || o.text.startsWith("sink"))) o.init = word(2);
        if (o.faults.isEmpty() && r.chance(1, 6)) o.faults.add(argFault());
        if (o.faults.isEmpty() && r.chance(1, 10)) o.faults.add(vm());
        ops.add(o);
      }
      thread(ops);
    }
  }

  private void c16() {
    badPct = 0;
    cbs = r.chance(1, 2);
    dates = false;
    ptr = false;
    pickFamilies();
    fam = fam.replace("n", "");
    if (fam.isEmpty()) fam = "sif";
    int fs = r.range(1, 2);
    for (int i = 0; i < fs; i++) {
      int f = addFormat(r.range(1, 3), false);
      String conv = r.pick(new String[] {"d", "s", "x", "f", "e", "g", "c", "S", "o", "a", "X", "t", "t{yyyy-MM-dd}"});
      boolean w = r.chance(3, 4);
      String d = "%" + r.pick(new String[] {"", "-", "0"}) + (w ? "*" : "") + (!w || r.chance(1, 3) ? ".*" : "") + conv;
      c.fmts.get(f).add(r.below(c.fmts.get(f).size() + 1), d);
      if (conv.startsWith("t") && d.contains(".")) c.fmts.get(f).set(c.fmts.get(f).indexOf(d), "%*" + conv);
      addVar(f, r.chance(1, 3) ? chain() : new String[0]);
      for (int k = r.range(1, 3); k > 0; k--) {
        int a = addArgs(f);
        c.args.get(a).keep = -1;
        List<String> dirs = c.fmts.get(f);
        for (int q = 0; q < dirs.size(); q++) {
          List<String> g = c.args.get(a).groups.get(q);
          for (int s = 0; s < g.size() - 1; s++) {
            boolean prec = dirs.get(q).indexOf(".*") >= 0 && s == g.size() - 2;
            int v =
                r.pick(
                    new int[] {
                      5, 17, -9, 65535, 65536, 65537, -65536, -65537, 70000, -70000, 1 << 20, 1 << 30, -(1 << 30), Integer.MAX_VALUE, Integer.MIN_VALUE, Integer.MIN_VALUE + 1, 1000000, 0
                    });
            char cv = Judge.conv(dirs.get(q));
            // exact decimal expansion to this many digits is legal but slow
            if (prec && FLT.indexOf(cv) >= 0 && Math.abs((long) v) <= 65536 && v > 100) v = 40;
            g.set(s, r.pick(new String[] {"i:", "I:", "L:", "l:", cbs ? "cbn:" : "i:", cbs ? "cbt:" : "I:", "s:"}) + v);
          }
        }
      }
    }
    int n = r.pick(new int[] {1, 1, 1, 2});
    for (int t = 0; t < n; t++) {
      List<Case.Op> ops = new ArrayList<Case.Op>();
      for (int k = r.range(2, 5); k > 0; k--) {
        Case.Op o = opTo(r.pick(new String[] {"", "", "var", "sb", "sbuf", "sw", "app"}));
        o.mode = 0;
        if (r.chance(1, 5)) {
          o = new Case.Op();
          o.kind = "bad";
          String v = r.pick(new String[] {"65537", "70000", "999999", "2147483647", "2147483648", "99999999999999", "0065537"});
          o.text = word(2) + r.pick(new String[] {"%" + v + "d", "%." + v + "f", "%-" + v + "s", "%." + v + "s", "%5." + v + "x", "%0" + v + "d", "%" + v + "." + v + "e", "%*." + v + "g", "%" + v + "n", "%" + v + "t", "%-" + v + "t{yyyy}", "%" + v + "T{HH:mm}", "%" + v + "p"});
        } else if (r.chance(1, 6)) o.kind = "compile";
        ops.add(o);
      }
      thread(ops);
    }
  }
}
