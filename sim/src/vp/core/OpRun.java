package vp.core;

import java.util.ArrayList;
import java.util.List;
import vp.hook.SimHook;
import vp.hook.SimThread;

/** What happened in one operation. */
public final class OpRun {
  static final int SITE_CB = (1_000_010 << 3) | SimHook.USER;

  final Exec exec;
  final Case.Op op;
  final int thread;
  final int index;
  final boolean nested;
  int argSnap;
  int age;
  long seqStart;
  long seqEnd = Long.MAX_VALUE;
  boolean done;
  String text;
  Throwable error;
  String sinkText;
  boolean sameRef = true;
  Appendable realSink;
  int writes;
  int accepted;
  final StringBuilder delivered = new StringBuilder();
  boolean sinkFailed;
  boolean writeAfterFail;
  Throwable injected;
  final List<Case.Fault> fired = new ArrayList<Case.Fault>();
  final List<String> log = new ArrayList<String>();
  int cbCount;
  int maxDepth;
  int maxAlloc;
  int points;

  /** steps taken in percent of what the size of the call allows. */
  long work;
  long moved;
  long movedWork;

  int vmSite;
  boolean interrupted;
  boolean interruptKept;
  List<Object> valuesSeen;
  Object argsUsed;
  String kept;
  long largest;

  /** what the call did to its surroundings, null for nothing. */
  String outside;

  /** the failure as it looked when the call ended. */
  String errorText;

  /** the texts the destination was handed that somebody else could still change. */
  final java.util.List<Object[]> handed = new java.util.ArrayList<Object[]>();
  int visited;
  int nestVar;
  int nestArgs;

  OpRun(Exec exec, Case.Op op, int thread, int index, boolean nested) {
    this.exec = exec;
    this.op = op;
    this.thread = thread;
    this.index = index;
    this.nested = nested;
  }

  void fire(Case.Fault f) {
    fired.add(f);
    exec.sim.note(f.kind.hashCode() * 31L + f.n);
  }

  boolean firedKind(String prefix) {
    for (Case.Fault f : fired) if (f.kind.startsWith(prefix)) return true;
    return false;
  }

  /** soft: the library may render a failure of this one in place. */
  void callback(SimThread t, int id, String method, boolean soft) {
    if (log.size() < 4000) log.add(id + " " + method);
    int n = ++cbCount;
    SimHook.y(SITE_CB);
    for (Case.Fault f : op.faults) {
      if (f.n != n || fired.contains(f)) continue;
      if (f.kind.equals("freeze.cb")) {
        fire(f);
        t.sim.freeze(t, SITE_CB);
      } else if (f.kind.startsWith("arg.") && !soft) {
        fire(f);
        injected = Faults.make(f.kind, exec);
        Faults.<RuntimeException>sneak(injected);
      }
    }
  }
}
