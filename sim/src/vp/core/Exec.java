package vp.core;

import java.nio.CharBuffer;
import java.util.ArrayList;
import java.util.Collections;
import java.util.HashMap;
import java.util.List;
import java.util.Locale;
import java.util.Map;
import java.util.TimeZone;
import vp.hook.Policy;
import vp.hook.Sim;
import vp.hook.SimAbort;
import vp.hook.SimHook;
import vp.hook.SimThread;

/** Runs one case against the simulated library and keeps its history. */
public final class Exec {
  static final int SITE_OP = (1_000_020 << 3) | SimHook.USER;
  static final long CAP = 20_000_000L;

  final Case c;
  final Api sut;
  final Api twin;
  Sim sim;
  final List<OpRun> runs = new ArrayList<OpRun>();
  Object[] vars;
  Throwable[] varError;
  Object[] argObjs;
  Object[][] rawValues;
  Object[][] sutValues;
  Object[][] sources;
  int[] puts;
  List<List<Object>> putValues;
  Object[] ropes;
  Object[] twinRopes;
  String[] ropeText;
  SimSink shared;
  StringBuffer sharedBuf;
  long seq;
  Violation setUpError;
  volatile String foreignThread;
  java.io.StringWriter sharedSw;

  /** {sequence number, locale tag or null, zone id or null} */
  final List<Object[]> env = new ArrayList<Object[]>();

  Exec(Case c, Api sut, Api twin) {
    this.c = c;
    this.sut = sut;
    this.twin = twin;
  }

  /** general default locale, then the one for formats if it differs. */
  private String envLocale = "";

  static void setEnv(String locale, String zone) {
    Locale.setDefault(locale.isEmpty() ? Locale.US : Locale.forLanguageTag(locale));
    TimeZone.setDefault(TimeZone.getTimeZone(zone));
  }

  // ----------------------------------------------------------------- set up

  Object resolve(Object v, boolean forTwin) {
    if (!(v instanceof Values.Foreign)) return v;
    Values.Foreign f = (Values.Foreign) v;
    if (f.kind.equals("traits")) return (forTwin ? twin : sut).traits((Cb.Num) f.payload);
    if (f.kind.equals("seq")) return (forTwin ? twin : sut).rope(java.util.Collections.singletonList("own"), null, (Cb.Lazy) f.payload);
    int i = (Integer) f.payload;
    return forTwin ? twinRope(i) : ropes[i];
  }

  private Object twinRope(int i) {
    if (twinRopes == null) twinRopes = new Object[c.ropes.size()];
    for (int k = 0; k <= i; k++) {
      if (twinRopes[k] == null) twinRopes[k] = twin.rope(c.ropes.get(k), twinRopes, new Cb.Lazy(-1, ropeText[k]));
    }
    return twinRopes[i];
  }

  static String upper(String s) {
    char[] a = s.toCharArray();
    for (int i = 0; i < a.length; i++) if (a[i] >= 'a' && a[i] <= 'z') a[i] -= 32;
    return new String(a);
  }

  static String ropeModel(List<String> d, String[] t) {
    switch (d.get(0)) {
      case "wrap":
      case "arrall":
      case "lazy":
      case "own":
        return d.get(1);
      case "chain":
        {
          StringBuilder sb = new StringBuilder();
          for (int i = 0; i < n(d, 2); i++) {
            String w = d.get(1) + (char) ('a' + i % 26);
            if (chainFront(d.get(3), i)) sb.insert(0, w);
            else sb.append(w);
          }
          return sb.toString();
        }
      case "rng":
        return d.get(1).substring(n(d, 2), n(d, 3));
      case "from":
        return d.get(1).substring(n(d, 2));
      case "ch":
        return d.get(1).substring(0, 1);
      case "rep":
        {
          StringBuilder sb = new StringBuilder();
          for (int i = n(d, 2); i > 0; i--) sb.append(d.get(1).charAt(0));
          return sb.toString();
        }
      case "arr":
        return d.get(1).substring(n(d, 2), n(d, 2) + n(d, 3));
      case "empty":
        return "";
      case "cat":
      case "app":
        return t[n(d, 1)] + t[n(d, 2)];
      case "pre":
        return t[n(d, 2)] + t[n(d, 1)];
      case "up":
        return upper(t[n(d, 1)]);
      case "sub":
        return t[n(d, 1)].substring(n(d, 2), n(d, 3));
      case "dup":
        return t[n(d, 1)];
      case "join":
        {
          StringBuilder sb = new StringBuilder();
          for (int i = 1; i < d.size(); i++) sb.append(t[n(d, i)]);
          return sb.toString();
        }
      default:
        throw new IllegalArgumentException(d.get(0));
    }
  }

  /** how a long chain of pieces grows: at the end, at the front, or in turns. */
  public static boolean chainFront(String how, int i) {
    return how.equals("front") || how.equals("turns") && i % 2 == 0;
  }

  private static int n(List<String> d, int i) {
    return Integer.parseInt(d.get(i));
  }

  private boolean[] needVars;
  private boolean[] needArgs;

  /** what no call shares is left to the calls, so that its first use is part of the run. */
  private void findShared() {
    needVars = new boolean[c.vars.size()];
    needArgs = new boolean[c.args.size()];
    boolean nests = false;
    for (Case.ArgSet a : c.args) for (String tok : a.flat()) nests |= tok.startsWith("nest");
    for (List<Case.Op> l : c.threads) {
      for (Case.Op o : l) {
        for (Case.Fault f : o.faults) nests |= f.kind.equals("sink.nest");
        if (o.kind.equals("rope") || o.kind.equals("env") || o.kind.equals("touch") || o.kind.equals("bad")) continue;
        if (o.kind.equals("put") || o.kind.equals("mutsrc") || o.kind.equals("values")) {
          needArgs[o.args] = true;
          continue;
        }
        if (!o.kind.equals("compile")) needVars[o.var] = true;
        if (!o.own && !o.sink.startsWith("var")) needArgs[o.args] = true;
      }
    }
    if (nests) {
      java.util.Arrays.fill(needVars, true);
      java.util.Arrays.fill(needArgs, true);
    }
  }

  void setUp() {
    SimHook.newRun(c.hashes);
    setEnv(c.locale, c.zone);
    env.add(new Object[] {-1L, c.locale, c.zone});
    envLocale = c.locale;
    ropes = new Object[c.ropes.size()];
    ropeText = new String[ropes.length];
    for (int i = 0; i < ropes.length; i++) {
      ropeText[i] = ropeModel(c.ropes.get(i), ropeText);
      try {
        ropes[i] = sut.rope(c.ropes.get(i), ropes, new Cb.Lazy(900000 + i, ropeText[i]));
      } catch (RuntimeException | Error e) {
        setUpError = new Violation("setup", "sequence " + c.ropes.get(i) + " of " + ropeText[i].length() + " chars cannot be built: " + describe(e));
        return;
      }
    }
    int na = c.args.size();
    findShared();
    rawValues = new Object[na][];
    sutValues = new Object[na][];
    argObjs = new Object[na];
    sources = new Object[na][1];
    puts = new int[na];
    putValues = new ArrayList<List<Object>>();
    for (int i = 0; i < na; i++) {
      putValues.add(new ArrayList<Object>());
      List<String> toks = c.args.get(i).flat();
      rawValues[i] = new Object[toks.size()];
      sutValues[i] = new Object[toks.size()];
      for (int k = 0; k < toks.size(); k++) {
        rawValues[i][k] = Values.make(toks.get(k), i * 1000 + k, this);
        sutValues[i][k] = resolve(rawValues[i][k], false);
      }
      if (!needArgs[i]) continue;
      try {
        argObjs[i] = sut.args(c.args.get(i).how, sutValues[i], sources[i]);
      } catch (RuntimeException | Error e) {
        setUpError = new Violation("setup", "argument list " + toks + " cannot be built: " + describe(e));
        return;
      }
    }
    vars = new Object[c.vars.size()];
    varError = new Throwable[vars.length];
    for (int i = 0; i < vars.length; i++) {
      if (!needVars[i]) continue;
      try {
        vars[i] = derive(sut.compile(c.format(c.vars.get(i).fmt)), c.vars.get(i).derive);
      } catch (RuntimeException e) {
        varError[i] = e;
      }
    }
    shared = new SimSink(true, "");
    sharedBuf = new StringBuffer();
    sharedSw = new java.io.StringWriter();
    reused = new HashMap<String, Object[]>();
  }

  Object derive(Object f, List<String> steps) {
    for (String s : steps) f = derive1(f, s);
    return f;
  }

  private Object derive1(Object f, String s) {
    if (s.equals("cache")) return sut.cache(f);
    return sut.capacity(f, Integer.parseInt(s.substring(4)));
  }

  // -------------------------------------------------------------------- run

  void run() {
    if (setUpError != null) {
      sim = new Sim(null, new long[0][], CAP);
      return;
    }
    Policy p = c.script != null ? null : new Policy(c.pKind, c.pParam, c.pMask, c.pSeed);
    long calls = 0;
    for (List<Case.Op> t : c.threads) calls += t.size();
    sim = new Sim(p, c.script, CAP + 400_000L * calls);
    if (c.prop.equals("C20")) {
      outside = new Outside(this);
      sim.watch = outside;
      sim.group = outside.group;
    }
    SimThread[] ts = new SimThread[c.threads.size()];
    List<List<OpRun>> per = new ArrayList<List<OpRun>>();
    for (int i = 0; i < ts.length; i++) {
      final List<OpRun> mine = new ArrayList<OpRun>();
      per.add(mine);
      final int idx = i;
      ts[i] =
          new SimThread(
              sim,
              i,
              () -> {
                SimThread t = (SimThread) Thread.currentThread();
                List<Case.Op> ops = c.threads.get(idx);
                for (int k = 0; k < ops.size(); k++) {
                  OpRun r = new OpRun(this, ops.get(k), idx, k, false);
                  mine.add(r);
                  execute(t, r);
                }
              });
    }
    Cb.running = this;
    if (outside != null) outside.begin();
    try {
      sim.run(ts);
    } finally {
      Cb.running = null;
      if (outside != null) outside.end();
    }
    setEnv("", "UTC");
    if (sim.harnessError != null) throw new IllegalStateException("harness", sim.harnessError);
    for (List<OpRun> l : per) runs.addAll(l);
    runs.addAll(nestedRuns);
    int pts = 0;
    for (OpRun r : runs) pts += r.points;
    sim.note(pts);
  }

  final List<OpRun> nestedRuns = Collections.synchronizedList(new ArrayList<OpRun>());

  private Outside outside;

  /** how often the caller has changed the objects it uses as arguments. */
  int age;

  void setAge(int n) {
    if (n == age) return;
    age = n;
    for (int i = 0; i < rawValues.length; i++) {
      List<String> toks = c.args.get(i).flat();
      for (int k = 0; k < rawValues[i].length; k++) Values.age(rawValues[i][k], toks.get(k), n);
    }
  }

  private void execute(SimThread t, OpRun r) {
    Case.Op op = r.op;
    t.op = r;
    r.age = age;
    t.opPoints = 0;
    t.opMoved = 0;
    t.busyDepth = 0;
    t.outside = null;
    t.depth = 0;
    t.maxDepth = 0;
    t.maxAlloc = 0;
    t.depthLimit = c.depthLimit > 0 ? c.depthLimit : Integer.MAX_VALUE;
    t.vmKind = 0;
    t.vmFired = false;
    t.freezeAt = -1;
    t.freezeFired = false;
    t.interruptAt = -1;
    t.interruptFired = false;
    Case.Fault vm = null;
    Case.Fault fr = null;
    Case.Fault in = null;
    for (Case.Fault f : op.faults) {
      if (f.kind.startsWith("vm.")) {
        vm = f;
        t.vmKind = vmKind(f.kind);
        t.vmCountdown = f.n;
      } else if (f.kind.equals("freeze.point")) {
        fr = f;
        t.freezeAt = f.n;
      } else if (f.kind.equals("intr")) {
        in = f;
        t.interruptAt = f.n;
      }
    }
    r.argSnap = op.kind.equals("rope") || op.kind.equals("env") || puts.length == 0 ? 0 : puts[Math.min(op.args, puts.length - 1)];
    r.seqStart = seq++;
    try {
      SimHook.y(SITE_OP);
      perform(t, r);
    } catch (SimAbort e) {
      throw e;
    } catch (Throwable e) {
      if (sim.aborted) throw new SimAbort("aborted");
      r.error = e;
    }
    if (sim.aborted) throw new SimAbort("aborted");
    t.vmKind = 0;
    t.freezeAt = -1;
    t.interruptAt = -1;
    t.depth = 0;
    if (c.prop.equals("C17")) look(r);
    if (outside != null) outside.look(t, true);
    r.outside = t.outside;
    if (r.error != null) r.errorText = describeAll(r.error);
    r.points = t.opPoints;
    r.moved = t.opMoved;
    r.maxDepth = t.maxDepth;
    r.maxAlloc = t.maxAlloc;
    r.interrupted = t.interruptFired;
    r.interruptKept = Thread.interrupted();
    if (vm != null && t.vmFired) {
      r.fired.add(vm);
      r.vmSite = t.vmSite;
    }
    if (fr != null && t.freezeFired) r.fired.add(fr);
    if (in != null && t.interruptFired) r.fired.add(in);
    r.seqEnd = seq++;
    r.done = true;
    sim.note(outcomeHash(r));
    t.op = null;
    SimHook.y(SITE_OP);
  }

  private long outcomeHash(OpRun r) {
    if (r.op.kind.equals("rope") && r.op.text.startsWith("hash")) return 3;
    long h = r.text == null ? 1 : r.text.hashCode();
    if (r.error != null) h = h * 31 + r.error.getClass().getName().hashCode();
    if (r.sinkText != null) h = h * 31 + r.sinkText.hashCode();
    return h;
  }

  static int vmKind(String k) {
    if (k.equals("vm.oom")) return SimHook.VM_OOM;
    if (k.equals("vm.soe")) return SimHook.VM_SOE;
    if (k.equals("vm.kill")) return SimHook.VM_DEATH;
    return SimHook.VM_INTERNAL;
  }

  private Map<String, Object[]> reused;

  /** does the library still hold something of the call that just ended? */
  private void look(OpRun r) {
    java.util.IdentityHashMap<Object, String> targets = new java.util.IdentityHashMap<Object, String>();
    List<String> toks = c.args.get(r.op.args).flat();
    for (int i = 0; i < toks.size(); i++) {
      Object v = sutValues[r.op.args][i];
      // only objects that belong to this call alone
      if (v != null && !(v instanceof Values.Prim) && !(v instanceof Boolean) && !(v instanceof Character) && !toks.get(i).startsWith("rope")) targets.put(v, "argument " + i + " (" + toks.get(i).replaceAll(":.*", "") + ")");
    }
    if (r.argsUsed != null) targets.put(r.argsUsed, "the argument list");
    if (r.realSink != null) targets.put(r.realSink, "the destination");
    Heap h = new Heap();
    List<Class<?>> classes;
    Loaders.Lib lib = (Loaders.Lib) sut.getClass().getClassLoader();
    synchronized (lib.loaded) {
      classes = new ArrayList<Class<?>>(lib.loaded);
    }
    for (Class<?> k : classes) h.statics(k);
    for (Object v : vars) if (v != null) h.root(v);
    h.threadLocals();
    r.kept = h.find(targets);
    r.largest = h.largest;
    r.visited = h.visited;
  }

  private void perform(SimThread t, OpRun r) throws Throwable {
    Case.Op op = r.op;
    switch (op.kind) {
      case "env":
        {
          String v = op.text.substring(2);
          if (op.text.startsWith("L:")) {
            Locale.setDefault(Locale.forLanguageTag(v));
            envLocale = v;
            env.add(new Object[] {seq++, v, null});
          } else if (op.text.startsWith("F:") || op.text.startsWith("D:")) {
            // only one category: date patterns may follow the general default or the one for formats
            Locale.setDefault(op.text.startsWith("F:") ? Locale.Category.FORMAT : Locale.Category.DISPLAY, Locale.forLanguageTag(v));
            if (op.text.startsWith("F:")) {
              envLocale = envLocale.split("\\|", -1)[0] + "|" + v;
              env.add(new Object[] {seq++, envLocale, null});
            }
          } else {
            TimeZone.setDefault(TimeZone.getTimeZone(v));
            env.add(new Object[] {seq++, null, v});
          }
          r.text = "";
          return;
        }
      case "bad":
        {
          Object f = sut.compile(op.text);
          r.text = f == null ? "null" : "compiled";
          return;
        }
      case "put":
        {
          Object v = Values.make(op.text, op.args * 1000 + 500 + puts[op.args], this);
          putValues.get(op.args).add(v);
          sut.put(argObjs[op.args], resolve(v, false), (puts[op.args] + op.args) % 2 == 1);
          puts[op.args]++;
          r.text = "";
          return;
        }
      case "touch":
        setAge(age + 1);
        r.text = "";
        return;
      case "mutsrc":
        mutate(sources[op.args][0]);
        try {
          mutate(sut.values(argObjs[op.args]));
        } catch (UnsupportedOperationException e) {
          // an unmodifiable list is fine too
        }
        r.text = "";
        return;
      case "values":
        r.valuesSeen = new ArrayList<Object>(sut.values(argObjs[op.args]));
        r.text = String.valueOf(argObjs[op.args]);
        return;
      case "rope":
        RopeOps.perform(this, r);
        return;
      default:
    }
    Object f;
    if (op.kind.equals("compile")) {
      f = derive(sut.compile(c.format(c.vars.get(op.var).fmt)), c.vars.get(op.var).derive);
    } else {
      if (varError[op.var] != null) throw varError[op.var];
      f = vars[op.var];
      if (op.kind.equals("derive")) f = derive1(f, op.text);
    }
    Object args = op.own ? sut.args(c.args.get(op.args).how, sutValues[op.args], null) : argObjs[op.args];
    r.argsUsed = args;
    String k = op.sink;
    if (k.isEmpty()) {
      r.text = sut.format(f, args);
    } else if (k.equals("var")) {
      r.text = sut.formatVar(f, sutValues[op.args]);
    } else if (k.equals("varm")) {
      // the caller keeps one array and fills it anew for every call
      Object[] v = sutValues[op.args];
      String key = t.idx + "/" + v.length;
      Object[] a = reused.get(key);
      if (a == null) reused.put(key, a = new Object[v.length]);
      for (int i = 0; i < a.length; i++) a[i] = v[i] instanceof Values.Prim ? ((Values.Prim) v[i]).boxed : v[i];
      r.text = sut.formatVar(f, a);
    } else {
      Appendable a;
      if (k.equals("sb")) a = new StringBuilder(op.init);
      else if (k.equals("sbuf")) a = new StringBuffer(op.init);
      else if (k.equals("sw")) a = new java.io.StringWriter().append(op.init);
      else if (k.equals("sws")) a = new SW().append(op.init);
      else if (k.equals("pw")) {
        java.io.StringWriter w = new java.io.StringWriter();
        a = new PW(w);
        a.append(op.init);
      } else if (k.equals("app")) a = new SimSink(false, op.init);
      else if (k.equals("caw")) {
        a = new java.io.CharArrayWriter();
        a.append(op.init);
      } else if (k.equals("bw")) {
        a = new BW(new java.io.StringWriter());
        a.append(op.init);
      } else if (k.equals("ps")) {
        a = new PS(new java.io.ByteArrayOutputStream());
        a.append(op.init);
      } else if (k.equals("osw")) {
        a = new OSW(new java.io.ByteArrayOutputStream());
        a.append(op.init);
      } else if (k.equals("sharedwr")) a = new SimWriter(shared);
      else if (k.equals("sharedsw")) a = sharedSw;
      else if (k.equals("wr")) a = new SimWriter(new SimSink(false, op.init));
      else if (k.startsWith("cbuf:")) {
        a = CharBuffer.allocate(op.init.length() + Integer.parseInt(k.substring(5)));
        a.append(op.init);
      } else if (k.equals("shared")) a = shared;
      else if (k.equals("sharedbuf")) a = sharedBuf;
      else throw new IllegalArgumentException(k);
      r.realSink = a;
      try {
        Object back = sut.formatTo(f, a, args);
        r.sameRef = back == a;
        r.text = "";
      } finally {
        if (!k.startsWith("shared")) r.sinkText = content(a);
      }
    }
  }

  /** a writer with methods of its own: what goes past them does not count. */
  static final class SW extends java.io.StringWriter {
    final StringBuilder seen = new StringBuilder();

    @Override
    public void write(int ch) {
      seen.append((char) ch);
    }

    @Override
    public void write(String s) {
      seen.append(s);
    }

    @Override
    public void write(String s, int off, int len) {
      seen.append(s, off, off + len);
    }

    @Override
    public void write(char[] b, int off, int len) {
      seen.append(b, off, len);
    }
  }

  static final class PW extends java.io.PrintWriter {
    final java.io.StringWriter w;

    PW(java.io.StringWriter w) {
      super(w);
      this.w = w;
    }
  }

  static final class BW extends java.io.BufferedWriter {
    final java.io.StringWriter w;

    BW(java.io.StringWriter w) {
      super(w, 16);
      this.w = w;
    }
  }

  static final class PS extends java.io.PrintStream {
    final java.io.ByteArrayOutputStream o;

    PS(java.io.ByteArrayOutputStream o) throws java.io.IOException {
      super(o, false, "UTF-16BE");
      this.o = o;
    }
  }

  static final class OSW extends java.io.OutputStreamWriter {
    final java.io.ByteArrayOutputStream o;

    OSW(java.io.ByteArrayOutputStream o) throws java.io.IOException {
      super(o, "UTF-16BE");
      this.o = o;
    }
  }

  static final class SimWriter extends java.io.Writer {
    final SimSink s;

    SimWriter(SimSink s) {
      this.s = s;
    }

    @Override
    public void write(char[] b, int off, int len) throws java.io.IOException {
      s.append(new String(b, off, len));
    }

    @Override
    public void flush() throws java.io.IOException {
      s.flush();
    }

    @Override
    public void close() throws java.io.IOException {
      s.close();
    }
  }

  static String content(Appendable a) {
    if (a instanceof CharBuffer) {
      CharBuffer d = ((CharBuffer) a).duplicate();
      ((java.nio.Buffer) d).flip();
      return d.toString();
    }
    if (a instanceof SW) return ((SW) a).seen.toString();
    if (a instanceof PW) {
      ((PW) a).flush();
      return ((PW) a).w.toString();
    }
    try {
      if (a instanceof BW) {
        ((BW) a).flush();
        return ((BW) a).w.toString();
      }
      if (a instanceof PS) {
        ((PS) a).flush();
        return ((PS) a).o.toString("UTF-16BE");
      }
      if (a instanceof OSW) {
        ((OSW) a).flush();
        return ((OSW) a).o.toString("UTF-16BE");
      }
    } catch (java.io.IOException e) {
      throw new IllegalStateException(e);
    }
    if (a instanceof SimWriter) return ((SimWriter) a).s.content.toString();
    return a instanceof SimSink ? ((SimSink) a).content.toString() : a.toString();
  }

  @SuppressWarnings("unchecked")
  private static void mutate(Object src) {
    if (src instanceof Object[]) {
      Object[] a = (Object[]) src;
      for (int i = 0; i < a.length; i++) a[i] = "MUTATED";
    } else if (src instanceof List) {
      List<Object> l = (List<Object>) src;
      for (int i = 0; i < l.size(); i++) l.set(i, "MUTATED");
      l.add(0, "EXTRA");
    }
  }

  /** formats again from inside caller code; failures are handled by that code. */
  String nested(SimThread t, int var, int args) {
    OpRun parent = (OpRun) t.op;
    Case.Op op = new Case.Op();
    op.var = var;
    op.args = args;
    OpRun r = new OpRun(this, op, t.idx, parent.index, true);
    r.nestVar = var;
    r.nestArgs = args;
    r.argSnap = puts[args];
    nestedRuns.add(r);
    r.seqStart = seq++;
    t.op = r;
    try {
      if (varError[var] != null) throw varError[var];
      // caller code may format into a destination of its own as well
      Appendable own = null;
      switch ((int) Long.remainderUnsigned(c.seed + 5 * var + 3 * args, 7)) {
        case 0:
          own = new SimSink(false, "");
          break;
        case 1:
          own = new java.io.StringWriter();
          break;
        case 2:
          own = new StringBuilder();
          break;
        case 3:
          own = new StringBuffer();
          break;
        default:
      }
      if (own == null) r.text = sut.format(vars[var], argObjs[args]);
      else {
        sut.formatTo(vars[var], own, argObjs[args]);
        r.text = content(own);
      }
    } catch (SimAbort e) {
      throw e;
    } catch (Throwable e) {
      if (sim.aborted) throw new SimAbort("aborted");
      r.error = e;
    } finally {
      t.op = parent;
    }
    r.seqEnd = seq++;
    r.done = true;
    return r.error == null ? "<" + r.text + ">" : "!" + r.error.getClass().getSimpleName();
  }

  // ------------------------------------------------------------------- twin

  static final class Out {
    String text;
    String error;
    String errorAll;
    String errorClass;
    String partial;
  }

  private final Map<String, Out> memo = new HashMap<String, Out>();

  String inertNest(int var, int args) {
    Out o = expect(c.vars.get(var).fmt, -1, args, 0);
    return o.error == null ? "<" + o.text + ">" : "!" + o.errorClass.substring(o.errorClass.lastIndexOf('.') + 1);
  }

  /** the call alone: fresh compile, no cache, no other thread, no fault; upTo limits the directives. */
  Out expect(int fmt, int upTo, int args, int snap) {
    String key = age + "/" + fmt + "/" + upTo + "/" + args + "/" + snap + "/" + Locale.getDefault() + "/" + TimeZone.getDefault().getID();
    Out o = memo.get(key);
    if (o != null) return o;
    o = new Out();
    StringBuilder partial = new StringBuilder();
    try {
      StringBuilder f = new StringBuilder();
      List<String> dirs = c.fmts.get(fmt);
      for (int i = 0; i < (upTo < 0 ? dirs.size() : upTo); i++) f.append(dirs.get(i));
      Object fp = twin.compile(f.toString());
      Object a = twinArgs(args, snap);
      try {
        o.text = twin.format(fp, a);
      } catch (Throwable e) {
        try {
          twin.formatTo(twin.compile(f.toString()), partial, twinArgs(args, snap));
        } catch (Throwable e2) {
          // expected again
        }
        throw e;
      }
    } catch (Throwable e) {
      o.error = describe(e);
      o.errorAll = describeAll(e);
      o.errorClass = e.getClass().getName();
      o.partial = partial.toString();
    }
    memo.put(key, o);
    return o;
  }

  /**
   * the call in an environment: each directive alone under the reference locale and zone, except
   * that a date pattern is compiled under the given locale and instants take the given zone.
   */
  Out expectIn(int fmt, int args, String locale, String zone) {
    String key = "in " + fmt + "/" + args + "/" + locale + "/" + zone;
    Out o = memo.get(key);
    if (o != null) return o;
    o = new Out();
    StringBuilder all = new StringBuilder();
    int pos = 0;
    try {
      for (String d : c.fmts.get(fmt)) {
        boolean pattern = d.indexOf('{') > 0 && d.startsWith("%");
        int n = Judge.needs(d);
        Object[] v = new Object[n];
        for (int i = 0; i < n; i++) {
          Object raw = resolve(rawValues[args][pos + i], true);
          v[i] = i == n - 1 && !pattern && n > 0 && "tT".indexOf(Judge.conv(d)) >= 0 ? zoned(raw, zone) : raw;
        }
        pos += n;
        setEnv(pattern ? locale : "", "UTC");
        Object f = twin.compile(d);
        setEnv("", "UTC");
        all.append(twin.format(f, twin.args("of", v, null)));
      }
      o.text = all.toString();
    } catch (Throwable e) {
      o.error = describe(e);
      o.errorClass = e.getClass().getName();
      o.partial = all.toString();
    } finally {
      setEnv(c.locale, c.zone);
    }
    memo.put(key, o);
    return o;
  }

  private static Object zoned(Object v, String zone) {
    if (v instanceof Values.Prim) v = ((Values.Prim) v).boxed;
    java.time.Instant i = null;
    if (v instanceof java.time.Instant) i = (java.time.Instant) v;
    else if (v instanceof java.util.Date) i = ((java.util.Date) v).toInstant();
    else if (v instanceof java.util.Calendar) i = ((java.util.Calendar) v).toInstant();
    else if (v instanceof Number && !(v instanceof Cb.Num) && ((Number) v).longValue() >= 0) {
      long n = ((Number) v).longValue();
      i = n <= 0xffffffffL ? java.time.Instant.ofEpochSecond(n) : java.time.Instant.ofEpochMilli(n);
    }
    return i == null ? v : i.atZone(TimeZone.getTimeZone(zone).toZoneId());
  }

  Object twinArgs(int args, int snap) {
    Object[] raw = rawValues[args];
    Object[] v = new Object[raw.length];
    for (int i = 0; i < v.length; i++) v[i] = resolve(raw[i], true);
    // -1: handed over as an array of objects
    Object a = twin.args(snap < 0 ? "of" : c.args.get(args).how, v, null);
    for (int i = 0; i < snap; i++) twin.put(a, resolve(putValues.get(args).get(i), true), (i + args) % 2 == 1);
    return a;
  }

  /** the failure with what caused it and what was suppressed on the way. */
  static String describeAll(Throwable e) {
    StringBuilder sb = new StringBuilder();
    int n = 0;
    try {
      for (Throwable t = e; t != null && n < 8; t = t.getCause(), n++) {
        sb.append(n == 0 ? "" : " caused by ").append(describe(t));
        for (Throwable s : t.getSuppressed()) sb.append(" suppressing ").append(describe(s));
      }
    } catch (RuntimeException bad) {
      sb.append(" whose message cannot be had: ").append(bad);
    }
    return sb.toString();
  }

  static String describe(Throwable e) {
    return e.getClass().getName() + ": " + String.valueOf(e.getMessage()).replaceAll("@[0-9a-f]+", "@#");
  }
}
