package vp.core;

import java.lang.reflect.Array;
import java.lang.reflect.Field;
import java.lang.reflect.Modifier;
import java.util.ArrayDeque;
import java.util.ArrayList;
import java.util.IdentityHashMap;
import java.util.List;

/** What can be reached from the library's classes, its formatters and the current thread. */
final class Heap {
  private static final ClassValue<Field[]> FIELDS = fields(false);
  private static final ClassValue<Field[]> STATICS = fields(true);

  private final IdentityHashMap<Object, Object> from = new IdentityHashMap<Object, Object>();
  private final ArrayDeque<Object> todo = new ArrayDeque<Object>();

  /** longest character or byte array, in bytes. */
  long largest;

  int visited;

  void root(Object o) {
    add(o, null);
  }

  /** static variables of a class. */
  void statics(Class<?> k) {
    for (Field f : STATICS.get(k)) {
      try {
        Object o = f.get(null);
        if (o != null && !from.containsKey(k)) from.put(k, null);
        add(o, k);
      } catch (Exception e) {
        // not ours to see
      }
    }
  }

  /** values this thread keeps in thread local variables. */
  void threadLocals() {
    for (String n : new String[] {"threadLocals", "inheritableThreadLocals"}) {
      try {
        Field f = Thread.class.getDeclaredField(n);
        f.setAccessible(true);
        Object map = f.get(Thread.currentThread());
        if (map == null) continue;
        Field t = map.getClass().getDeclaredField("table");
        t.setAccessible(true);
        for (Object e : (Object[]) t.get(map)) {
          if (e == null) continue;
          Field v = e.getClass().getDeclaredField("value");
          v.setAccessible(true);
          if (!from.containsKey(Thread.class)) from.put(Thread.class, null);
          add(v.get(e), Thread.class);
        }
      } catch (Exception e) {
        throw new IllegalStateException("thread locals are out of sight", e);
      }
    }
  }

  private void add(Object o, Object parent) {
    if (o == null || from.containsKey(o)) return;
    Class<?> k = o.getClass();
    if (k == char[].class) largest = Math.max(largest, ((char[]) o).length * 2L);
    if (k == byte[].class) largest = Math.max(largest, ((byte[]) o).length);
    from.put(o, parent);
    visited++;
    todo.add(o);
  }

  /** follows references; returns how a target is reached, or null. */
  String find(IdentityHashMap<Object, String> targets) {
    while (!todo.isEmpty()) {
      Object o = todo.poll();
      if (targets.containsKey(o)) return targets.get(o) + " is kept: " + path(o);
      if (leaf(o)) continue;
      if (o instanceof Object[]) {
        for (int i = 0; i < Array.getLength(o); i++) add(Array.get(o, i), o);
        continue;
      }
      for (Field f : FIELDS.get(o.getClass())) {
        try {
          add(f.get(o), o);
        } catch (Exception e) {
          // stays unseen
        }
      }
    }
    return null;
  }

  private static boolean leaf(Object o) {
    if (o instanceof Class || o instanceof ClassLoader || o instanceof Thread || o instanceof ThreadGroup || o instanceof java.util.Locale || o instanceof Number || o instanceof Enum) return true;
    String n = o.getClass().getName();
    return n.startsWith("vp.") && !n.startsWith("vp.sut.") || n.startsWith("java.time.") || n.startsWith("sun.") || n.startsWith("jdk.");
  }

  private static ClassValue<Field[]> fields(final boolean statics) {
    return new ClassValue<Field[]>() {
      @Override
      protected Field[] computeValue(Class<?> k) {
        return find(k, statics);
      }
    };
  }

  private static Field[] find(Class<?> k, boolean statics) {
    List<Field> fs = new ArrayList<Field>();
    for (Class<?> c = k; c != null && c != Object.class && (c == k || !statics); c = c.getSuperclass()) {
      // what a reference object only refers to weakly does not count
      if (c == java.lang.ref.Reference.class) continue;
      for (Field f : c.getDeclaredFields()) {
        if (Modifier.isStatic(f.getModifiers()) != statics || f.getType().isPrimitive()) continue;
        try {
          f.setAccessible(true);
          fs.add(f);
        } catch (RuntimeException e) {
          // stays unseen
        }
      }
    }
    return fs.toArray(new Field[0]);
  }

  private String path(Object o) {
    StringBuilder sb = new StringBuilder();
    for (int n = 0; o != null && n < 12; n++) {
      Object p = from.get(o);
      sb.append(n == 0 ? "" : " in ");
      if (o instanceof Class && p == null) sb.append(o == Thread.class ? "a thread local variable" : "a static variable of " + ((Class<?>) o).getName());
      else sb.append(o.getClass().getName().replaceAll("Lambda.*", "Lambda"));
      o = p;
    }
    return sb.toString();
  }
}
