package vp.core;

import java.io.File;
import java.nio.charset.StandardCharsets;
import java.nio.file.Files;
import java.util.ArrayList;
import java.util.Arrays;
import java.util.HashSet;
import java.util.LinkedHashMap;
import java.util.List;
import java.util.Map;
import java.util.TreeMap;
import vp.hook.Rng;

/** Worker process. */
public final class Main {
  /** runs that share one copy of the library: few, for states only new copies have, or many. */
  static int epochLength(long e) {
    return new int[] {12, 150, 3, 150, 12, 600}[(int) (e / 8 % 6)];
  }

  static Thread first;

  public static void main(final String[] argv) throws Exception {
    first = Thread.currentThread();
    final Throwable[] bad = new Throwable[1];
    final int[] code = new int[1];
    // the solo results of very long formats may need a deep stack
    Thread t =
        new Thread(
            null,
            () -> {
              try {
                code[0] = argv[0].equals("run") ? work(argv) : argv[0].equals("digests") ? digests(argv) : replay(argv);
              } catch (Throwable e) {
                bad[0] = e;
              }
            },
            "judge",
            768L << 20);
    t.start();
    t.join();
    if (bad[0] != null) {
      bad[0].printStackTrace();
      System.out.flush();
      Runtime.getRuntime().halt(2);
    }
    System.out.flush();
    Runtime.getRuntime().halt(code[0]);
  }

  /** replay BUILD FILE */
  @SuppressWarnings("unchecked")
  private static int replay(String[] a) throws Exception {
    Runner run = new Runner(new Loaders(new File(a[1])));
    Map<String, Object> m = (Map<String, Object>) Json.parse(new String(Files.readAllBytes(new File(a[2]).toPath()), StandardCharsets.UTF_8));
    List<Case> cs = new ArrayList<Case>();
    for (Object o : (List<Object>) m.get("cases")) cs.add(Case.fromJson((Map<String, Object>) o));
    Runner.Result r = run.runList(cs);
    System.out.println("digest " + Long.toHexString(r.digest()) + " steps " + r.exec.sim.step + " switches " + r.exec.sim.preemptions);
    if (r.violation == null) {
      System.out.println("no violation");
      return 0;
    }
    System.out.println("rule " + r.violation.rule + ": " + r.violation.detail);
    return 1;
  }

  /** digests BUILD PROP SEED COUNT: one line per run, to be compared between processes */
  private static int digests(String[] a) throws Exception {
    Loaders loaders = new Loaders(new File(a[1]));
    Runner run = new Runner(loaders);
    long base = Rng.derive(Long.parseLong(a[3]), a[2].hashCode());
    int diff = 0;
    for (int i = 0; i < Integer.parseInt(a[4]); i++) {
      Case c = Gen.make(a[2], Rng.derive(base, i), i % 50 == 0);
      if (i % 50 == 0) run.fresh();
      Runner.Result r = run.run(c);
      Runner.Result s = run.run(c.copy());
      Case d = c.copy();
      d.script = r.exec.sim.decisions.toArray(new long[0][]);
      Runner.Result t = run.run(d);
      if (r.digest() != s.digest() || r.digest() != t.digest()) {
        diff++;
        System.out.println("DIFFERS " + Long.toHexString(r.digest()) + " " + Long.toHexString(s.digest()) + " " + Long.toHexString(t.digest()) + " " + Json.write(c.toJson()));
      }
      System.out.println(a[2] + " " + i + " " + Long.toHexString(r.digest()) + " " + r.exec.sim.step);
    }
    return diff == 0 ? 0 : 1;
  }

  /** run BUILD PROP SEED WORKER WORKERS EPOCHS WALL_S OUT STOPFILE [KNOWN...] */
  private static int work(String[] a) throws Exception {
    Loaders loaders = new Loaders(new File(a[1]));
    String prop = a[2];
    long base = Rng.derive(Long.parseLong(a[3]), prop.hashCode());
    int me = Integer.parseInt(a[4]);
    int workers = Integer.parseInt(a[5]);
    long epochs = Long.parseLong(a[6]);
    long began = System.nanoTime();
    long end = began + (long) (Double.parseDouble(a[7]) * 1e9);
    File out = new File(a[8]);
    File stop = new File(a[9]);
    List<String> known = Arrays.asList(a).subList(10, a.length);
    Map<String, Integer> knownHits = new TreeMap<String, Integer>();
    Runner run = new Runner(loaders);
    Stats st = new Stats();
    Map<String, Object> viol = null;
    for (long e = me; e < epochs && viol == null; e += workers) {
      if (System.nanoTime() > end || stop.exists()) break;
      run.fresh();
      List<Case> done = new ArrayList<Case>();
      for (int i = 0; i < epochLength(e); i++) {
        long seed = Rng.derive(base, e * 1000 + i);
        Case c = Gen.make(prop, seed, i == 0);
        done.add(c);
        Runner.Result r;
        try {
          r = run.run(c);
        } catch (RuntimeException x) {
          throw new IllegalStateException("case " + Json.write(c.toJson()), x);
        }
        st.add(c, r.exec);
        if (i == 0 && e / workers % 8 == 0) st.probe(new Runner(loaders), c, r);
        if (r.violation != null) {
          String k = match(known, r.violation);
          if (k != null) {
            Integer n = knownHits.get(k);
            knownHits.put(k, n == null ? 1 : n + 1);
            break;
          }
          viol = report(new Runner(loaders), done, r, seed);
          break;
        }
        if (System.nanoTime() > end) break;
      }
      st.epochs++;
    }
    Map<String, Object> m = st.toJson();
    m.put("known", knownHits);
    m.put("java", System.getProperty("java.version"));
    m.put("wall", (System.nanoTime() - began) / 1e9);
    m.put("millis", Arrays.<Object>asList(Runner.nanos[0] / 1000000, Runner.nanos[1] / 1000000, Runner.nanos[2] / 1000000));
    if (viol != null) m.put("violation", viol);
    Files.write(out.toPath(), Json.write(m).getBytes(StandardCharsets.UTF_8));
    return viol == null ? 0 : 1;
  }

  private static String match(List<String> known, Violation v) {
    for (String k : known) if (v.detail.contains(k)) return k;
    return null;
  }

  private static Map<String, Object> report(Runner run, List<Case> epoch, Runner.Result r, long seed) {
    Case c = epoch.get(epoch.size() - 1);
    String rule = r.violation.rule;
    // alone in fresh copies of the library when that is enough
    List<Case> cs = new ArrayList<Case>(Arrays.asList(c));
    Runner.Result alone = run.runList(cs);
    boolean stable = alone.violation != null;
    if (stable) {
      rule = alone.violation.rule;
    } else {
      cs = new ArrayList<Case>(epoch);
      Runner.Result all = run.runList(cs);
      stable = all.violation != null;
      if (stable) {
        rule = all.violation.rule;
        cs = new ArrayList<Case>(cs.subList(0, all.failedAt + 1));
      }
    }
    Map<String, Object> m = new LinkedHashMap<String, Object>();
    m.put("seed", Long.toHexString(seed));
    m.put("reproduced", stable);
    m.put("first_rule", r.violation.rule);
    m.put("first_detail", r.violation.detail);
    String detail = r.violation.detail;
    int tries = 0;
    if (stable) {
      Minimize min = new Minimize(run, cs, rule, 45000);
      cs = min.minimize();
      tries = min.tries;
      Runner.Result f = run.runList(cs);
      if (f.violation != null) {
        rule = f.violation.rule;
        detail = f.violation.detail;
        m.put("digest", Long.toHexString(f.digest()));
        m.put("steps", f.exec.sim.step);
        m.put("switches", (long) f.exec.sim.preemptions);
      }
    }
    m.put("rule", rule);
    m.put("detail", detail);
    m.put("tries", (long) tries);
    List<Object> l = new ArrayList<Object>();
    for (Case x : cs) l.add(x.toJson());
    m.put("cases", l);
    return m;
  }

  // ------------------------------------------------------------------ stats

  static final class Stats {
    long runs;
    long ops;
    long steps;
    long switches;
    long overlapping;
    long multi;
    long epochs;
    long nested;
    long failing;
    long probes;
    long probeMismatch;
    long maxDepth;
    long maxWork;
    long maxMoved;
    long heapObjects;
    final Map<String, long[]> faults = new TreeMap<String, long[]>();
    final Map<String, long[]> kinds = new TreeMap<String, long[]>();
    final Map<String, long[]> policies = new TreeMap<String, long[]>();
    final HashSet<Long> interleavings = new HashSet<Long>();
    final HashSet<Long> schedules = new HashSet<Long>();
    final HashSet<Long> programs = new HashSet<Long>();
    final java.util.BitSet sites = new java.util.BitSet();
    final java.util.BitSet faultSites = new java.util.BitSet();
    final List<Object> samples = new ArrayList<Object>();

    void add(Case c, Exec x) {
      runs++;
      steps += x.sim.step;
      switches += x.sim.preemptions;
      sites.or(x.sim.sites);
      if (c.threads.size() > 1) multi++;
      count(policies, new String[] {"serial", "random", "pct", "sites", "robin", "callbacks"}[c.pKind], 0);
      boolean over = false;
      boolean special = false;
      for (OpRun r : x.runs) {
        ops++;
        if (r.nested) nested++;
        if (r.error != null) failing++;
        if (r.nested || r.error != null || !r.fired.isEmpty() || r.op.kind.equals("env")) special = true;
        count(kinds, r.op.kind + (r.op.kind.equals("fmt") ? ":" + (r.op.sink.startsWith("cbuf") ? "cbuf" : r.op.sink.isEmpty() ? "string" : r.op.sink) : ""), 0);
        if (r.op.kind.equals("env")) {
          String k = r.op.text.startsWith("Z:") ? "env.zone" : "env.locale";
          count(faults, k, 0);
          count(faults, k, 1);
        }
        for (Case.Fault f : r.op.faults) count(faults, f.kind, 0);
        for (Case.Fault f : r.fired) count(faults, f.kind, 1);
        if (r.vmSite != 0) faultSites.set(r.vmSite >>> 3);
        if (r.maxDepth > maxDepth) maxDepth = r.maxDepth;
        if (r.work > maxWork) maxWork = r.work;
        if (r.movedWork > maxMoved) maxMoved = r.movedWork;
        heapObjects += r.visited;
        if (!over) for (OpRun q : x.runs) if (q.thread != r.thread && q.seqStart < r.seqEnd && r.seqStart < q.seqEnd) over = true;
      }
      if (over) overlapping++;
      long shape = shape(c);
      programs.add(shape);
      if (over) schedules.add(x.sim.scheduleHash);
      if ((over || special) && interleavings.size() < 2_000_000) interleavings.add(Rng.derive(x.sim.scheduleHash, shape));
      if (samples.size() < 3 && runs % 7 == 1) {
        Map<String, Object> s = new LinkedHashMap<String, Object>();
        s.put("seed", Long.toHexString(c.seed));
        s.put("threads", (long) c.threads.size());
        s.put("formats", c.fmts.toString().length() > 300 ? c.fmts.toString().substring(0, 300) : c.fmts.toString());
        s.put("steps", x.sim.step);
        s.put("switches", (long) x.sim.preemptions);
        samples.add(s);
      }
    }

    private static long shape(Case c) {
      // program and fault plan, without the schedule
      return Json.write(c.toJson()).replaceAll("\"policy\".*", "").replaceAll("\"seed\":\"[0-9a-f]*\"", "").hashCode() * 31L + c.threads.size();
    }

    private static void count(Map<String, long[]> m, String k, int i) {
      long[] v = m.get(k);
      if (v == null) m.put(k, v = new long[2]);
      v[i]++;
    }

    /** the same case again in fresh copies of the library must give the same execution. */
    void probe(Runner other, Case c, Runner.Result r) {
      Case again = c.copy();
      Runner.Result s = other.run(again);
      probes++;
      if (s.digest() != r.digest() || s.exec.sim.step != r.exec.sim.step) {
        probeMismatch++;
        System.err.println("nondeterministic " + Json.write(c.toJson()));
      }
    }

    Map<String, Object> toJson() {
      Map<String, Object> m = new LinkedHashMap<String, Object>();
      m.put("runs", runs);
      m.put("ops", ops);
      m.put("steps", steps);
      m.put("switches", switches);
      m.put("multi", multi);
      m.put("overlapping", overlapping);
      m.put("epochs", epochs);
      m.put("nested", nested);
      m.put("failing", failing);
      m.put("probes", probes);
      m.put("probeMismatch", probeMismatch);
      m.put("maxDepth", maxDepth);
      m.put("maxWork", maxWork);
      m.put("maxMoved", maxMoved);
      m.put("heapObjects", heapObjects);
      m.put("faults", lists(faults));
      m.put("kinds", lists(kinds));
      m.put("policies", lists(policies));
      List<Object> l = new ArrayList<Object>();
      for (long h : interleavings) l.add(Long.toHexString(h));
      m.put("interleavings", l);
      l = new ArrayList<Object>();
      for (long h : schedules) l.add(Long.toHexString(h));
      m.put("schedules", l);
      m.put("programs", (long) programs.size());
      m.put("sites", bits(sites));
      java.util.BitSet reached = new java.util.BitSet();
      for (int i = 0; i < vp.hook.Sim.REACHED.length; i++) reached.set(i, vp.hook.Sim.REACHED[i]);
      m.put("reached", bits(reached));
      m.put("faultSites", bits(faultSites));
      m.put("samples", samples);
      return m;
    }

    private static Map<String, Object> lists(Map<String, long[]> m) {
      Map<String, Object> o = new LinkedHashMap<String, Object>();
      for (Map.Entry<String, long[]> e : m.entrySet()) o.put(e.getKey(), Arrays.<Object>asList(e.getValue()[0], e.getValue()[1]));
      return o;
    }

    private static List<Object> bits(java.util.BitSet b) {
      List<Object> l = new ArrayList<Object>();
      for (int i = b.nextSetBit(0); i >= 0; i = b.nextSetBit(i + 1)) l.add((long) i);
      return l;
    }
  }
}
