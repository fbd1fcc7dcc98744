From 66a6cebed940a65238ced0e9a995d115693b43f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:30:20 +0000
Subject: [PATCH 1/4] fix: keep the length of a composite sub-sequence in step
 with its text

The length of a sub-sequence that spans several parts was computed after
start and end had been moved, so it disagreed with the characters and
%g with a width was padded wrongly.
---
 src/main/java/io/fastprintf/seq/AtomicSeqIterable.java | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/main/java/io/fastprintf/seq/AtomicSeqIterable.java b/src/main/java/io/fastprintf/seq/AtomicSeqIterable.java
index ce19602..a6f795f 100644
--- a/src/main/java/io/fastprintf/seq/AtomicSeqIterable.java
+++ b/src/main/java/io/fastprintf/seq/AtomicSeqIterable.java
@@ -34,6 +34,7 @@ public interface AtomicSeqIterable extends Seq, Iterable<AtomicSeq> {
     Preconditions.checkPositionIndexes(start, end, length);
     if (start == end) return Seq.empty();
     if (start == 0 && end == length) return this;
+    int newLength = end - start;
     List<AtomicSeq> buffer = new ArrayList<>();
     for (AtomicSeq seq : this) {
       int seqLength = seq.length();
@@ -53,7 +54,7 @@ public interface AtomicSeqIterable extends Seq, Iterable<AtomicSeq> {
     if (buffer.size() == 1) {
       return buffer.get(0);
     }
-    return new SeqArray(buffer.toArray(new AtomicSeq[0]), end - start);
+    return new SeqArray(buffer.toArray(new AtomicSeq[0]), newLength);
   }
 
   /**
-- 
2.43.0


From 352a89cee6761bf3701152756d5f2638ccc99ee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:30:20 +0000
Subject: [PATCH 2/4] fix: reject Integer.MIN_VALUE as a star width

Its negation overflows back to the marker for an unresolved star width,
which passed the range check and was then ignored.
---
 src/main/java/io/fastprintf/appender/DefaultAppender.java | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/java/io/fastprintf/appender/DefaultAppender.java b/src/main/java/io/fastprintf/appender/DefaultAppender.java
index e947ff1..3d25721 100644
--- a/src/main/java/io/fastprintf/appender/DefaultAppender.java
+++ b/src/main/java/io/fastprintf/appender/DefaultAppender.java
@@ -103,7 +103,7 @@ public final class DefaultAppender implements Appender {
       if (w >= 0) {
         context = context.setWidth(w);
       } else {
-        context = context.addFlag(Flag.LEFT_JUSTIFY).setWidth(-w);
+        context = context.addFlag(Flag.LEFT_JUSTIFY).setWidth(-Math.max(w, -Integer.MAX_VALUE));
       }
     }
     if (context.isPrecedingPrecision()) {
-- 
2.43.0


From d01054959efb9095b9bab861c2d686d002834be8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:30:20 +0000
Subject: [PATCH 3/4] fix: compile long formats without recursion

Each directive was parsed from within the one before it, so a format
with some thousand directives ended in a StackOverflowError.
---
 src/main/java/io/fastprintf/Compiler.java | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/main/java/io/fastprintf/Compiler.java b/src/main/java/io/fastprintf/Compiler.java
index a3514a6..2bfbfed 100644
--- a/src/main/java/io/fastprintf/Compiler.java
+++ b/src/main/java/io/fastprintf/Compiler.java
@@ -21,7 +21,9 @@ final class Compiler {
   }
 
   void compile() {
-    parseNext();
+    while (!endOfSource()) {
+      parseNext();
+    }
   }
 
   private boolean endOfSource() {
@@ -29,7 +31,6 @@ final class Compiler {
   }
 
   private void parseNext() {
-    if (endOfSource()) return;
     char c = source.charAt(lookahead);
     if (c == '%') {
       lookahead++;
@@ -45,7 +46,6 @@ final class Compiler {
     if (c == '%') {
       lookahead++;
       appenders.add(new FixedStringAppender("%"));
-      parseNext();
       return;
     }
     // %[flags][width][.precision]specifier[{date-time-formatter}]
@@ -59,7 +59,6 @@ final class Compiler {
     }
     FormatContext context = FormatContext.create(flags, width, precision, dateTimeFormatter);
     appenders.add(new DefaultAppender(specifier, context));
-    parseNext();
   }
 
   private EnumSet<Flag> flags() {
-- 
2.43.0


From f2775fb4677636b447aaf37d597049e70665c936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:30:37 +0000
Subject: [PATCH 4/4] fix: do not share the cached builder between nested calls

An argument that formats with the same cached formatter while it is
being rendered reset the builder of the call it is part of. The builder
is now taken out of the cache while a call uses it.
---
 .../java/io/fastprintf/FastPrintfImpl.java    | 24 +++++++++++++------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/src/main/java/io/fastprintf/FastPrintfImpl.java b/src/main/java/io/fastprintf/FastPrintfImpl.java
index 0533ce1..c3f8464 100644
--- a/src/main/java/io/fastprintf/FastPrintfImpl.java
+++ b/src/main/java/io/fastprintf/FastPrintfImpl.java
@@ -33,6 +33,11 @@ final class FastPrintfImpl implements FastPrintf {
       this.stringBuilderFactory =
           requiredCapacity -> {
             StringBuilder builder = threadLocalBuilder.get();
+            if (builder == null) {
+              // An enclosing call on this thread is still filling the cached builder.
+              return new StringBuilder(requiredCapacity);
+            }
+            threadLocalBuilder.set(null);
             int currentCapacity = builder.capacity();
 
             // This is the core logic:
@@ -48,7 +53,6 @@ final class FastPrintfImpl implements FastPrintf {
               // The buffer is too big and we don't need it this time.
               // Create a new, reasonably-sized builder and replace the old one.
               builder = new StringBuilder(requiredCapacity);
-              threadLocalBuilder.set(builder);
 
             } else {
               // In all other cases, we reuse the existing builder:
@@ -81,13 +85,19 @@ final class FastPrintfImpl implements FastPrintf {
     Preconditions.checkNotNull(args, "args");
     Iterator<FormatTraits> iterator = args.iterator();
     StringBuilder builder = stringBuilderFactory.apply(stringBuilderInitialCapacity);
-    // OPTIMIZATION: Create the consumer ONCE.
-    // This reduces allocation from O(N) to O(1) where N is the number of appenders.
-    Consumer<Seq> consumer = seq -> seq.appendTo(builder);
-    for (Appender appender : appenders) {
-      appender.append(consumer, iterator);
+    try {
+      // OPTIMIZATION: Create the consumer ONCE.
+      // This reduces allocation from O(N) to O(1) where N is the number of appenders.
+      Consumer<Seq> consumer = seq -> seq.appendTo(builder);
+      for (Appender appender : appenders) {
+        appender.append(consumer, iterator);
+      }
+      return builder.toString();
+    } finally {
+      if (threadLocalBuilder != null) {
+        threadLocalBuilder.set(builder);
+      }
     }
-    return builder.toString();
   }
 
   @Override
-- 
2.43.0

