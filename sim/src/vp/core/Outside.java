package vp.core;

import java.io.ByteArrayOutputStream;
import java.io.PrintStream;
import java.util.ArrayList;
import java.util.HashMap;
import java.util.IdentityHashMap;
import java.util.List;
import java.util.Locale;
import java.util.Map;
import java.util.TimeZone;
import vp.hook.Sim;
import vp.hook.SimThread;

/** Everything around the library that a call must leave as it is. */
final class Outside implements Sim.Watch {
  private static final ByteArrayOutputStream printed = new ByteArrayOutputStream();
  private static final PrintStream guard = new PrintStream(printed, true);

  final ThreadGroup group = new ThreadGroup("simulated");
  private final ThreadGroup around = Thread.currentThread().getThreadGroup();
  private final Thread driver = Thread.currentThread();
  private final Exec x;
  private Locale locale;
  private Locale display;
  private Locale format;
  private String zone;
  private PrintStream out;
  private PrintStream err;
  private ClassLoader loader;
  private Map<Object, Object> properties;
  private Thread.UncaughtExceptionHandler handler;
  private final List<Object> values = new ArrayList<Object>();
  private final List<String> looks = new ArrayList<String>();
  private int size;
  private int passed;

  Outside(Exec x) {
    this.x = x;
  }

  @SuppressWarnings("deprecation")
  void begin() {
    // goes away with its last thread
    group.setDaemon(true);
    locale = Locale.getDefault();
    display = Locale.getDefault(Locale.Category.DISPLAY);
    format = Locale.getDefault(Locale.Category.FORMAT);
    zone = TimeZone.getDefault().getID();
    loader = Thread.currentThread().getContextClassLoader();
    handler = Thread.getDefaultUncaughtExceptionHandler();
    properties = properties();
    IdentityHashMap<Object, Object> seen = new IdentityHashMap<Object, Object>();
    for (Object[] l : x.rawValues) {
      for (Object v : l) {
        String s = show(v);
        if (s == null || seen.put(v, v) != null) continue;
        values.add(v);
        looks.add(s);
        size += s.length() + 10;
      }
    }
    printed.reset();
    out = System.out;
    err = System.err;
    System.setOut(guard);
    System.setErr(guard);
  }

  void end() {
    System.setOut(out);
    System.setErr(err);
  }

  @Override
  public void look(SimThread t, boolean closely) {
    if (t.outside != null) return;
    t.outside = first(t, closely);
  }

  private String first(SimThread t, boolean closely) {
    if (Locale.getDefault() != locale) return "the default locale was changed to " + Locale.getDefault();
    if (Locale.getDefault(Locale.Category.DISPLAY) != display || Locale.getDefault(Locale.Category.FORMAT) != format) return "the default locale was changed";
    if (t.getContextClassLoader() != loader) return "the context class loader was changed";
    if (t.getPriority() != Thread.NORM_PRIORITY) return "the priority of the thread was changed";
    if (!t.getName().equals("sim-" + t.idx)) return "the thread was renamed to " + t.getName();
    if (System.out != guard || System.err != guard) return "the standard output was replaced";
    if (printed.size() > 0) return "printed " + Violation.clip(printed.toString());
    if (t.isInterrupted()) return "the thread was interrupted";
    // arguments are looked at at every point if that does not take long
    if (closely || size < 150 || ++passed % 16 == 0) {
      for (int i = 0; i < looks.size(); i++) {
        String s = show(values.get(i));
        if (!looks.get(i).equals(s)) return "an argument was changed: " + Violation.diff(looks.get(i), s);
      }
    }
    if (!closely) return null;
    if (!TimeZone.getDefault().getID().equals(zone)) return "the default time zone was changed to " + TimeZone.getDefault().getID();
    if (Thread.getDefaultUncaughtExceptionHandler() != handler) return "the handler of uncaught exceptions was changed";
    Map<Object, Object> now = properties();
    if (!now.equals(properties)) {
      for (Object k : properties.keySet()) if (!properties.get(k).equals(now.get(k))) return "the system property " + k + " was changed";
      now.keySet().removeAll(properties.keySet());
      return "system properties were added: " + now.keySet();
    }
    Thread[] all = new Thread[64];
    int n = around.enumerate(all, true);
    for (int i = 0; i < n; i++) if (!(all[i] instanceof SimThread) && all[i] != driver && all[i] != Main.first) return "a thread was started: " + all[i].getName();
    return null;
  }

  /** what the platform itself adds to or changes in the properties as it goes along is left out. */
  private static Map<Object, Object> properties() {
    Map<Object, Object> m = new HashMap<Object, Object>(System.getProperties());
    for (java.util.Iterator<Object> it = m.keySet().iterator(); it.hasNext(); ) {
      String k = String.valueOf(it.next());
      if (k.equals("user.timezone") || k.startsWith("sun.") || k.startsWith("jdk.")) it.remove();
    }
    return m;
  }

  /** how a caller sees a value that could be altered, null for any other value. */
  private static String show(Object v) {
    if (v instanceof StringBuilder || v instanceof StringBuffer) return v.toString();
    if (v instanceof java.util.Calendar) {
      java.util.Calendar k = (java.util.Calendar) v;
      return k.getTimeInMillis() + " " + k.getTimeZone().getID() + " " + k.isLenient() + " " + k.getFirstDayOfWeek() + " " + k.getMinimalDaysInFirstWeek();
    }
    if (v instanceof java.nio.CharBuffer) {
      java.nio.CharBuffer b = (java.nio.CharBuffer) v;
      return b.position() + " " + b.limit() + " " + b;
    }
    if (v instanceof java.util.Date) return String.valueOf(((java.util.Date) v).getTime());
    if (v instanceof java.util.concurrent.atomic.AtomicInteger || v instanceof java.util.concurrent.atomic.AtomicLong) return v.toString();
    if (v instanceof int[]) return java.util.Arrays.toString((int[]) v);
    if (v instanceof double[]) return java.util.Arrays.toString((double[]) v);
    if (v instanceof boolean[]) return java.util.Arrays.toString((boolean[]) v);
    if (v instanceof short[]) return java.util.Arrays.toString((short[]) v);
    if (v instanceof long[]) return java.util.Arrays.toString((long[]) v);
    if (v instanceof float[]) return java.util.Arrays.toString((float[]) v);
    if (v instanceof char[]) return java.util.Arrays.toString((char[]) v);
    if (v instanceof byte[]) return java.util.Arrays.toString((byte[]) v);
    if (v instanceof Object[]) return identities((Object[]) v);
    if (v instanceof List) return identities(((List<?>) v).toArray());
    return null;
  }

  /** the elements by identity: their own text is the caller's code. */
  private static String identities(Object[] a) {
    StringBuilder sb = new StringBuilder();
    for (Object e : a) sb.append(e instanceof String ? e : System.identityHashCode(e)).append(',');
    return sb.toString();
  }
}
