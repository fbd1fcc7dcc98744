package vp.core;

import java.util.List;

/** What the harness needs of the library; implemented once per class loader. */
public interface Api {
  Object compile(String format);

  Object cache(Object formatter);

  Object capacity(Object formatter, int n);

  /** values are boxed objects or {@link Values.Prim}; source receives the collection they came from. */
  Object args(String how, Object[] values, Object[] source);

  void put(Object args, Object value, boolean any);

  List<Object> values(Object args);

  String format(Object formatter, Object args);

  String formatVar(Object formatter, Object[] values);

  <T extends Appendable> T formatTo(Object formatter, T sink, Object args);

  Throwable printfError(String message);

  Object traits(Cb.Num cb);

  Object rope(List<String> def, Object[] table, Cb.Lazy lazy);

  int ropeLength(Object rope);

  char ropeChar(Object rope, int i);

  int ropeIndexOf(Object rope, char c);

  boolean ropeStartsWith(Object rope, char c);

  boolean ropeIsEmpty(Object rope);

  void ropeTo(Object rope, StringBuilder sb);

  void ropeTo(Object rope, Appendable sink) throws java.io.IOException;

  Object ropeMap(Object rope);

  String ropeJoined(Object rope);
}
