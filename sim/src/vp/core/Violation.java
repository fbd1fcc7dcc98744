package vp.core;

/** One broken requirement. */
final class Violation {
  final String rule;
  final String detail;

  Violation(String rule, String detail) {
    this.rule = rule;
    this.detail = detail;
  }

  static String clip(String s) {
    if (s == null) return "null";
    StringBuilder sb = new StringBuilder("\"");
    int n = Math.min(s.length(), 160);
    for (int i = 0; i < n; i++) {
      char c = s.charAt(i);
      if (c < 32 || c > 126) sb.append(String.format("\\u%04x", (int) c));
      else sb.append(c);
    }
    sb.append('"');
    if (s.length() > n) sb.append("...(").append(s.length()).append(" chars)");
    return sb.toString();
  }

  /** shows two texts from just before they part. */
  static String diff(String want, String got) {
    if (want == null || got == null) return "expected " + clip(want) + " got " + clip(got);
    if (want.length() <= 160 && got.length() <= 160) return "expected " + clip(want) + " got " + clip(got);
    int i = 0;
    while (i < want.length() && i < got.length() && want.charAt(i) == got.charAt(i)) i++;
    int a = Math.max(0, i - 20);
    return "texts of " + want.length() + " and " + got.length() + " chars part at " + i + ": expected ..." + clip(want.substring(a)) + " got ..." + clip(got.substring(a));
  }
}
