package vp.core;

import java.util.ArrayList;
import java.util.LinkedHashMap;
import java.util.List;
import java.util.Map;

/** One simulated execution, completely explicit: program, faults, schedule. */
public final class Case {
  public static final class Var {
    public int fmt;
    public List<String> derive = new ArrayList<String>();
  }

  public static final class ArgSet {
    public int fmt;
    public List<List<String>> groups = new ArrayList<List<String>>();
    public List<String> extra = new ArrayList<String>();
    public int keep = -1;
    public String how = "of";

    public List<String> flat() {
      List<String> l = new ArrayList<String>();
      for (List<String> g : groups) l.addAll(g);
      l.addAll(extra);
      if (keep >= 0 && keep < l.size()) l = new ArrayList<String>(l.subList(0, keep));
      return l;
    }
  }

  public static final class Fault {
    public String kind;
    public int n;
    public int a = -1;
    public int b = -1;

    public Fault() {}

    public Fault(String kind, int n) {
      this.kind = kind;
      this.n = n;
    }
  }

  public static final class Op {
    public String kind = "fmt";
    public int var;
    public int args;
    public boolean own;
    public String sink = "";
    public String init = "";
    public int mode;
    public String text = "";
    public List<Fault> faults = new ArrayList<Fault>();
  }

  public String prop;
  public long seed;
  public List<List<String>> fmts = new ArrayList<List<String>>();
  public List<Var> vars = new ArrayList<Var>();
  public List<ArgSet> args = new ArrayList<ArgSet>();
  public List<List<String>> ropes = new ArrayList<List<String>>();
  public List<List<Op>> threads = new ArrayList<List<Op>>();
  public String locale = "";
  public String zone = "UTC";
  public int depthLimit;

  /** number of different identity hash codes; 0: all different. */
  public int hashes;

  public int pKind;
  public int pParam;
  public int pMask;
  public long pSeed;
  public long[][] script;

  public String format(int fmt) {
    StringBuilder sb = new StringBuilder();
    for (String d : fmts.get(fmt)) sb.append(d);
    return sb.toString();
  }

  // ------------------------------------------------------------------ json

  public Map<String, Object> toJson() {
    Map<String, Object> m = new LinkedHashMap<String, Object>();
    m.put("prop", prop);
    m.put("seed", Long.toHexString(seed));
    m.put("formats", fmts);
    List<Object> l = new ArrayList<Object>();
    for (Var v : vars) {
      Map<String, Object> x = new LinkedHashMap<String, Object>();
      x.put("format", v.fmt);
      x.put("derive", v.derive);
      l.add(x);
    }
    m.put("formatters", l);
    l = new ArrayList<Object>();
    for (ArgSet a : args) {
      Map<String, Object> x = new LinkedHashMap<String, Object>();
      x.put("format", a.fmt);
      x.put("groups", a.groups);
      x.put("extra", a.extra);
      x.put("keep", a.keep);
      x.put("how", a.how);
      l.add(x);
    }
    m.put("args", l);
    m.put("ropes", ropes);
    l = new ArrayList<Object>();
    for (List<Op> t : threads) {
      List<Object> ops = new ArrayList<Object>();
      for (Op o : t) {
        Map<String, Object> x = new LinkedHashMap<String, Object>();
        x.put("kind", o.kind);
        x.put("formatter", o.var);
        x.put("args", o.args);
        if (o.own) x.put("own", true);
        x.put("sink", o.sink);
        if (!o.init.isEmpty()) x.put("init", o.init);
        if (o.mode != 0) x.put("mode", o.mode);
        if (!o.text.isEmpty()) x.put("text", o.text);
        List<Object> fs = new ArrayList<Object>();
        for (Fault f : o.faults) {
          Map<String, Object> y = new LinkedHashMap<String, Object>();
          y.put("kind", f.kind);
          y.put("n", f.n);
          if (f.a >= 0) y.put("a", f.a);
          if (f.b >= 0) y.put("b", f.b);
          fs.add(y);
        }
        if (!fs.isEmpty()) x.put("faults", fs);
        ops.add(x);
      }
      Map<String, Object> th = new LinkedHashMap<String, Object>();
      th.put("ops", ops);
      l.add(th);
    }
    m.put("threads", l);
    m.put("locale", locale);
    m.put("zone", zone);
    if (depthLimit > 0) m.put("depthLimit", depthLimit);
    if (hashes > 0) m.put("hashes", hashes);
    m.put("policy", java.util.Arrays.<Object>asList((long) pKind, (long) pParam, (long) pMask, Long.toHexString(pSeed)));
    if (script != null) {
      List<Object> sc = new ArrayList<Object>();
      for (long[] d : script) sc.add(java.util.Arrays.<Object>asList(d[0], d[1]));
      m.put("schedule", sc);
    }
    return m;
  }

  @SuppressWarnings("unchecked")
  public static Case fromJson(Map<String, Object> m) {
    Case c = new Case();
    c.prop = (String) m.get("prop");
    c.seed = Long.parseUnsignedLong((String) m.get("seed"), 16);
    c.fmts = (List<List<String>>) m.get("formats");
    for (Object o : (List<Object>) m.get("formatters")) {
      Map<String, Object> x = (Map<String, Object>) o;
      Var v = new Var();
      v.fmt = i(x, "format", 0);
      v.derive = (List<String>) x.get("derive");
      c.vars.add(v);
    }
    for (Object o : (List<Object>) m.get("args")) {
      Map<String, Object> x = (Map<String, Object>) o;
      ArgSet a = new ArgSet();
      a.fmt = i(x, "format", 0);
      a.groups = (List<List<String>>) x.get("groups");
      a.extra = (List<String>) x.get("extra");
      a.keep = i(x, "keep", -1);
      a.how = (String) x.get("how");
      c.args.add(a);
    }
    c.ropes = (List<List<String>>) m.get("ropes");
    for (Object t : (List<Object>) m.get("threads")) {
      List<Op> ops = new ArrayList<Op>();
      for (Object o : (List<Object>) ((Map<String, Object>) t).get("ops")) {
        Map<String, Object> x = (Map<String, Object>) o;
        Op op = new Op();
        op.kind = (String) x.get("kind");
        op.var = i(x, "formatter", 0);
        op.args = i(x, "args", 0);
        op.own = Boolean.TRUE.equals(x.get("own"));
        op.sink = (String) x.get("sink");
        op.init = x.containsKey("init") ? (String) x.get("init") : "";
        op.mode = i(x, "mode", 0);
        op.text = x.containsKey("text") ? (String) x.get("text") : "";
        if (x.containsKey("faults")) {
          for (Object fo : (List<Object>) x.get("faults")) {
            Map<String, Object> y = (Map<String, Object>) fo;
            Fault f = new Fault((String) y.get("kind"), i(y, "n", 0));
            f.a = i(y, "a", -1);
            f.b = i(y, "b", -1);
            op.faults.add(f);
          }
        }
        ops.add(op);
      }
      c.threads.add(ops);
    }
    c.locale = (String) m.get("locale");
    c.zone = (String) m.get("zone");
    c.depthLimit = i(m, "depthLimit", 0);
    c.hashes = i(m, "hashes", 0);
    List<Object> p = (List<Object>) m.get("policy");
    c.pKind = ((Long) p.get(0)).intValue();
    c.pParam = ((Long) p.get(1)).intValue();
    c.pMask = ((Long) p.get(2)).intValue();
    c.pSeed = Long.parseUnsignedLong((String) p.get(3), 16);
    if (m.containsKey("schedule")) {
      List<Object> sc = (List<Object>) m.get("schedule");
      c.script = new long[sc.size()][];
      for (int k = 0; k < c.script.length; k++) {
        List<Object> d = (List<Object>) sc.get(k);
        c.script[k] = new long[] {(Long) d.get(0), (Long) d.get(1)};
      }
    }
    return c;
  }

  private static int i(Map<String, Object> m, String k, int def) {
    Object v = m.get(k);
    return v == null ? def : ((Number) v).intValue();
  }

  @SuppressWarnings("unchecked")
  public Case copy() {
    return fromJson((Map<String, Object>) Json.parse(Json.write(toJson())));
  }
}
