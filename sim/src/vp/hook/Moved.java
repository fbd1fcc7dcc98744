package vp.hook;

import java.util.ArrayDeque;
import java.util.ArrayList;
import java.util.Collection;
import java.util.LinkedList;
import java.util.List;

/**
 * Counts the characters and elements that calls into the platform copy or search through, so that
 * work hidden in a single call is seen as well. Never calls code of the caller.
 */
public final class Moved {
  private Moved() {}

  private static void add(long n) {
    Thread th = Thread.currentThread();
    if (n > 0 && th instanceof SimThread) ((SimThread) th).opMoved += n;
  }

  public static void all(Object o) {
    if (o == null) return;
    if (o instanceof String) add(((String) o).length());
    else if (o instanceof StringBuilder) add(((StringBuilder) o).length());
    else if (o instanceof StringBuffer) add(((StringBuffer) o).length());
    else if (o instanceof char[]) add(((char[]) o).length);
    else if (o instanceof Object[]) add(((Object[]) o).length);
    else if (o instanceof byte[]) add(((byte[]) o).length);
    else if (platform(o)) add(((Collection<?>) o).size());
  }

  private static boolean platform(Object o) {
    Class<?> k = o.getClass();
    return k == ArrayList.class || k == LinkedList.class || k == ArrayDeque.class;
  }

  public static void range(int from, int to) {
    add((long) to - from);
  }

  public static void count(int n) {
    add(n);
  }

  public static StringBuilder insert(StringBuilder b, int i, String x) {
    add(b.length() - i);
    all(x);
    return b.insert(i, x);
  }

  public static StringBuilder insert(StringBuilder b, int i, char x) {
    add(b.length() - i);
    return b.insert(i, x);
  }

  public static StringBuilder insert(StringBuilder b, int i, int x) {
    add(b.length() - i);
    return b.insert(i, x);
  }

  public static StringBuilder insert(StringBuilder b, int i, long x) {
    add(b.length() - i);
    return b.insert(i, x);
  }

  public static StringBuilder insert(StringBuilder b, int i, Object x) {
    add(b.length() - i);
    return b.insert(i, x);
  }

  public static StringBuilder insert(StringBuilder b, int i, CharSequence x) {
    add(b.length() - i);
    return b.insert(i, x);
  }

  public static StringBuilder insert(StringBuilder b, int i, char[] x) {
    add(b.length() - i);
    all(x);
    return b.insert(i, x);
  }

  public static StringBuilder delete(StringBuilder b, int i, int j) {
    add(b.length() - i);
    return b.delete(i, j);
  }

  public static StringBuilder deleteCharAt(StringBuilder b, int i) {
    add(b.length() - i);
    return b.deleteCharAt(i);
  }

  public static StringBuilder replace(StringBuilder b, int i, int j, String x) {
    add(b.length() - i);
    all(x);
    return b.replace(i, j, x);
  }

  public static String substring(StringBuilder b, int i) {
    add(b.length() - i);
    return b.substring(i);
  }

  public static String substring(String s, int i) {
    add(s.length() - i);
    return s.substring(i);
  }

  public static String concat(String s, String x) {
    add(s.length());
    all(x);
    return s.concat(x);
  }

  public static String replace(String s, CharSequence x, CharSequence y) {
    add(s.length());
    return s.replace(x, y);
  }

  public static String replace(String s, char x, char y) {
    add(s.length());
    return s.replace(x, y);
  }

  public static Object remove(List<?> l, int i) {
    if (platform(l)) add(l.size() - i);
    return l.remove(i);
  }

  public static Object remove(ArrayList<?> l, int i) {
    add(l.size() - i);
    return l.remove(i);
  }

  public static void add(List<Object> l, int i, Object o) {
    if (platform(l)) add(l.size() - i);
    l.add(i, o);
  }

  public static void add(ArrayList<Object> l, int i, Object o) {
    add(l.size() - i);
    l.add(i, o);
  }

  public static Object get(LinkedList<?> l, int i) {
    add(Math.min(i, l.size() - i));
    return l.get(i);
  }

  public static Object get(List<?> l, int i) {
    if (l instanceof LinkedList) add(Math.min(i, l.size() - i));
    return l.get(i);
  }

  public static boolean contains(List<?> l, Object o) {
    if (platform(l)) add(l.size());
    return l.contains(o);
  }

  public static boolean contains(ArrayList<?> l, Object o) {
    add(l.size());
    return l.contains(o);
  }

  public static boolean contains(Collection<?> l, Object o) {
    if (platform(l)) add(l.size());
    return l.contains(o);
  }

  public static int indexOf(List<?> l, Object o) {
    if (platform(l)) add(l.size());
    return l.indexOf(o);
  }
}
