package vp.core;

import java.util.ArrayList;
import java.util.List;
import vp.hook.Policy;
import vp.hook.Rng;

/** Shrinks a failing case while the same rule keeps failing. */
final class Minimize {
  private final Runner run;
  private final String rule;
  private final long end;
  private List<Case> cur;
  int tries;

  Minimize(Runner run, List<Case> failing, String rule, long budgetMs) {
    this.run = run;
    this.cur = failing;
    this.rule = rule;
    this.end = System.currentTimeMillis() + budgetMs;
  }

  private Case last() {
    return cur.get(cur.size() - 1);
  }

  private boolean time() {
    return System.currentTimeMillis() < end;
  }

  private boolean fails(List<Case> cs) {
    tries++;
    Runner.Result r;
    try {
      r = run.runList(cs);
    } catch (RuntimeException e) {
      return false;
    }
    if (r.violation == null || !r.violation.rule.equals(rule)) return false;
    cur = new ArrayList<Case>(cs.subList(0, r.failedAt + 1));
    Case c = last().copy();
    // from now on the schedule is explicit
    c.script = r.exec.sim.decisions.toArray(new long[0][]);
    cur.set(cur.size() - 1, c);
    return true;
  }

  /** with the known schedule first, then under other seeded ones. */
  private boolean attempt(Case c) {
    List<Case> cs = new ArrayList<Case>(cur);
    cs.set(cs.size() - 1, c);
    if (fails(cs)) return true;
    int n = c.threads.size() < 2 ? 1 : 20;
    Rng rng = new Rng(c.seed + tries);
    for (int i = 0; i < n && time(); i++) {
      Case d = c.copy();
      d.script = null;
      Policy p = Policy.random(rng);
      d.pKind = i == 0 ? Policy.SERIAL : p.kind;
      d.pParam = p.param;
      d.pMask = p.kindsMask;
      d.pSeed = p.seed;
      cs.set(cs.size() - 1, d);
      if (fails(cs)) return true;
    }
    return false;
  }

  List<Case> minimize() {
    // make the schedule explicit
    fails(new ArrayList<Case>(cur));
    for (int i = cur.size() - 2; i >= 0 && time(); i--) {
      List<Case> cs = new ArrayList<Case>(cur);
      cs.remove(i);
      fails(cs);
      if (i > cur.size() - 1) i = cur.size() - 1;
    }
    boolean again = true;
    while (again && time()) {
      again = threads() | ops() | faults() | dirs() | groups() | plain() | derive();
    }
    switches();
    return cur;
  }

  private boolean threads() {
    boolean any = false;
    for (int i = last().threads.size() - 1; i >= 0 && last().threads.size() > 1 && time(); i--) {
      Case c = last().copy();
      c.threads.remove(i);
      c.script = remap(c.script, i);
      any |= attempt(c);
    }
    return any;
  }

  private static long[][] remap(long[][] s, int gone) {
    if (s == null) return null;
    List<long[]> l = new ArrayList<long[]>();
    for (long[] d : s) if (d[1] != gone) l.add(new long[] {d[0], d[1] > gone ? d[1] - 1 : d[1]});
    return l.toArray(new long[0][]);
  }

  private boolean ops() {
    boolean any = false;
    for (int t = 0; t < last().threads.size(); t++) {
      for (int k = last().threads.get(t).size() - 1; k >= 0 && time(); k--) {
        if (k >= last().threads.get(t).size()) continue;
        Case c = last().copy();
        c.threads.get(t).remove(k);
        any |= attempt(c);
      }
    }
    return any;
  }

  private boolean faults() {
    boolean any = false;
    for (int t = 0; t < last().threads.size(); t++) {
      for (int k = 0; k < last().threads.get(t).size(); k++) {
        for (int f = last().threads.get(t).get(k).faults.size() - 1; f >= 0 && time(); f--) {
          Case c = last().copy();
          c.threads.get(t).get(k).faults.remove(f);
          any |= attempt(c);
        }
      }
    }
    return any;
  }

  private boolean dirs() {
    boolean any = false;
    for (int f = 0; f < last().fmts.size(); f++) {
      int n = last().fmts.get(f).size();
      for (int step = Math.max(1, n / 2); step >= 1; step /= 2) {
        for (int k = last().fmts.get(f).size() - step; k >= 0 && time(); k -= step) {
          if (k + step > last().fmts.get(f).size()) continue;
          Case c = last().copy();
          for (int q = 0; q < step; q++) {
            c.fmts.get(f).remove(k);
            for (Case.ArgSet a : c.args) if (a.fmt == f && k < a.groups.size()) a.groups.remove(k);
          }
          any |= attempt(c);
        }
      }
    }
    return any;
  }

  private boolean groups() {
    boolean any = false;
    for (int a = 0; a < last().args.size() && time(); a++) {
      if (!last().args.get(a).extra.isEmpty()) {
        Case c = last().copy();
        c.args.get(a).extra.clear();
        any |= attempt(c);
      }
      if (last().args.get(a).keep >= 0) {
        Case c = last().copy();
        c.args.get(a).keep = -1;
        any |= attempt(c);
      }
    }
    return any;
  }

  private boolean plain() {
    boolean any = false;
    Case l = last();
    for (int t = 0; t < l.threads.size(); t++) {
      for (int k = 0; k < l.threads.get(t).size() && time(); k++) {
        Case.Op o = last().threads.get(t).get(k);
        if (o.own || !o.init.isEmpty() || o.mode != 0) {
          Case c = last().copy();
          Case.Op p = c.threads.get(t).get(k);
          p.own = false;
          p.init = "";
          p.mode = 0;
          any |= attempt(c);
        }
        if (!o.sink.isEmpty() && o.faults.isEmpty()) {
          Case c = last().copy();
          c.threads.get(t).get(k).sink = "";
          any |= attempt(c);
        }
      }
    }
    for (int a = 0; a < l.args.size(); a++) {
      for (int g = 0; g < l.args.get(a).groups.size() && g < 40; g++) {
        for (int i = 0; i < l.args.get(a).groups.get(g).size() && time(); i++) {
          List<List<String>> gs = last().args.get(a).groups;
          if (g >= gs.size() || i >= gs.get(g).size()) continue;
          String tok = gs.get(g).get(i);
          String kind = tok.indexOf(':') < 0 ? "" : tok.substring(0, tok.indexOf(':'));
          String[] to = {};
          if ("i l L b B h H bi ai al cbn cbt".contains(kind) && !kind.isEmpty()) to = new String[] {"I:7"};
          else if ("d D f F bd".contains(kind)) to = new String[] {"D:1.5"};
          else if ("s S cbo cbs sbld sbuf oa lst ca rope".contains(kind)) to = new String[] {"s:ab", "cbo:ab"};
          for (String simple : to) {
            if (tok.equals(simple)) break;
            Case c = last().copy();
            c.args.get(a).groups.get(g).set(i, simple);
            if (attempt(c)) {
              any = true;
              break;
            }
          }
        }
      }
    }
    return any;
  }

  private boolean derive() {
    boolean any = false;
    for (int v = 0; v < last().vars.size(); v++) {
      for (int k = last().vars.get(v).derive.size() - 1; k >= 0 && time(); k--) {
        Case c = last().copy();
        c.vars.get(v).derive.remove(k);
        any |= attempt(c);
      }
    }
    if (last().ropes.size() > 0) {
      for (int i = last().ropes.size() - 1; i >= 0 && time(); i--) {
        // unused ropes are cheap to keep; replace them by the empty one
        if (last().ropes.get(i).get(0).equals("empty")) continue;
        Case c = last().copy();
        List<String> e = new ArrayList<String>();
        e.add("empty");
        c.ropes.set(i, e);
        List<Case> cs = new ArrayList<Case>(cur);
        cs.set(cs.size() - 1, c);
        try {
          any |= fails(cs);
        } catch (RuntimeException x) {
          // no longer a meaningful program
        }
      }
    }
    return any;
  }

  /** drops preemptions, large blocks first. */
  private void switches() {
    if (last().script == null) return;
    boolean again = true;
    while (again && time()) {
      again = false;
      int n = last().script.length;
      for (int block = Math.max(1, n / 2); block >= 1; block /= 2) {
        for (int from = n - block; from >= 0 && time(); from -= block) {
          long[][] s = last().script;
          if (from + block > s.length) continue;
          Case c = last().copy();
          List<long[]> l = new ArrayList<long[]>();
          int dropped = 0;
          for (int i = 0; i < s.length; i++) {
            if (i >= from && i < from + block && s[i][0] >= 0) dropped++;
            else l.add(s[i]);
          }
          if (dropped == 0) continue;
          c.script = l.toArray(new long[0][]);
          List<Case> cs = new ArrayList<Case>(cur);
          cs.set(cs.size() - 1, c);
          int before = s.length;
          List<Case> saved = cur;
          if (fails(cs)) {
            if (last().script.length < before) again = true;
            else cur = saved;
          }
        }
        n = last().script.length;
      }
    }
  }
}
