package vp.instr;

import java.io.File;
import java.io.IOException;
import java.io.PrintWriter;
import java.nio.file.Files;
import java.nio.file.Path;
import java.util.ArrayList;
import java.util.Arrays;
import java.util.HashSet;
import java.util.List;
import java.util.Set;
import org.objectweb.asm.ClassReader;
import org.objectweb.asm.ClassVisitor;
import org.objectweb.asm.ClassWriter;
import org.objectweb.asm.FieldVisitor;
import org.objectweb.asm.Handle;
import org.objectweb.asm.Label;
import org.objectweb.asm.MethodVisitor;
import org.objectweb.asm.Opcodes;

/**
 * Rewrites the compiled library so that every access to shared state, allocation, platform call and
 * method entry passes through the simulator, and a twin of it in which only identity hash codes do.
 * Usage: Instrument IN_DIR OUT_DIR SITES_FILE TWIN_DIR
 */
public final class Instrument {
  private static final String HOOK = "vp/hook/SimHook";
  private static final String UNSAFE = "vp/hook/Unsafe";
  private static final String MOVED = "vp/hook/Moved";
  private static final Set<String> WRAPPED = new HashSet<String>();
  private static final Set<String> LINEAR =
      new HashSet<String>(
          Arrays.asList("toString", "toCharArray", "toUpperCase", "toLowerCase", "trim", "reverse", "toArray", "clone", "intern", "getBytes"));

  static {
    for (java.lang.reflect.Method m : vp.hook.Moved.class.getMethods()) {
      String d = org.objectweb.asm.Type.getMethodDescriptor(m);
      if (d.startsWith("(L") && m.getParameterCount() > 1) WRAPPED.add(m.getName() + d);
    }
  }

  private static final String PREFIX = "io/fastprintf/";
  private static final Set<String> VALUES =
      new HashSet<String>(
          Arrays.asList(
              "java/lang/String", "java/lang/Math", "java/lang/Integer", "java/lang/Long",
              "java/lang/Short", "java/lang/Byte", "java/lang/Character", "java/lang/Boolean",
              "java/lang/Double", "java/lang/Float", "java/math/BigInteger", "java/math/BigDecimal",
              "java/math/MathContext", "java/lang/Class", "java/time/Instant", "java/lang/Enum"));

  private static final String BRIDGE = PREFIX + "SimBridge";
  private static final Set<String> BRIDGED =
      new HashSet<String>(
          Arrays.asList(
              "java/util/ArrayList", "java/util/LinkedList", "java/util/ArrayDeque", "java/util/PriorityQueue", "java/util/List",
              "java/util/Deque", "java/util/Queue", "java/util/Collection", "java/util/Set", "java/util/Map", "java/util/HashMap",
              "java/util/LinkedHashMap", "java/util/IdentityHashMap", "java/util/WeakHashMap", "java/util/TreeMap", "java/util/EnumMap",
              "java/util/HashSet", "java/util/LinkedHashSet", "java/util/TreeSet", "java/util/EnumSet", "java/util/BitSet",
              "java/util/StringJoiner", "java/util/Formatter", "java/util/regex/Matcher", "java/util/Calendar", "java/util/GregorianCalendar",
              "java/text/Format", "java/text/DateFormat", "java/text/SimpleDateFormat", "java/lang/StringBuilder"));
  private static final List<String> ALTERS =
      Arrays.asList(
          "add", "put", "remove", "poll", "pop", "push", "offer", "clear", "set", "compute", "merge", "replace", "retain", "sort",
          "insert", "append", "delete", "reverse", "trim", "ensure", "format", "parse", "find", "match", "lookingAt", "reset", "flip",
          "and", "or", "xor", "roll");

  private final java.util.Map<String, String> bridges = new java.util.LinkedHashMap<String, String>();
  private final ClassWriter bridgeClass = new ClassWriter(ClassWriter.COMPUTE_MAXS);

  private static int mode(String n) {
    for (String a : ALTERS) if (n.startsWith(a)) return 1;
    return 0;
  }

  /** a static method that makes the call as a stretch of time; the last parameter is the site. */
  private String bridge(int op, String owner, String n, String d, boolean itf, String target) {
    String key = op + owner + "." + n + d + target;
    String name = bridges.get(key);
    if (name != null) return name;
    name = "c" + bridges.size();
    bridges.put(key, name);
    org.objectweb.asm.Type[] args = org.objectweb.asm.Type.getArgumentTypes(d);
    int size = 1;
    for (org.objectweb.asm.Type a : args) size += a.getSize();
    MethodVisitor m = bridgeClass.visitMethod(Opcodes.ACC_PUBLIC | Opcodes.ACC_STATIC, name, "(L" + owner + ";" + d.substring(1).replace(")", "I)"), null, null);
    m.visitCode();
    m.visitVarInsn(Opcodes.ALOAD, 0);
    m.visitLdcInsn(mode(n));
    m.visitVarInsn(Opcodes.ILOAD, size);
    m.visitMethodInsn(Opcodes.INVOKESTATIC, UNSAFE, "begin", "(Ljava/lang/Object;II)V", false);
    Label from = new Label();
    Label to = new Label();
    Label handler = new Label();
    m.visitTryCatchBlock(from, to, handler, null);
    m.visitLabel(from);
    m.visitVarInsn(Opcodes.ALOAD, 0);
    int at = 1;
    for (org.objectweb.asm.Type a : args) {
      m.visitVarInsn(a.getOpcode(Opcodes.ILOAD), at);
      at += a.getSize();
    }
    if (target != null) m.visitMethodInsn(Opcodes.INVOKESTATIC, MOVED, n, target, false);
    else m.visitMethodInsn(op, owner, n, d, itf);
    m.visitLabel(to);
    m.visitMethodInsn(Opcodes.INVOKESTATIC, UNSAFE, "end", "()V", false);
    m.visitInsn(org.objectweb.asm.Type.getReturnType(d).getOpcode(Opcodes.IRETURN));
    m.visitLabel(handler);
    m.visitMethodInsn(Opcodes.INVOKESTATIC, UNSAFE, "end", "()V", false);
    m.visitInsn(Opcodes.ATHROW);
    m.visitMaxs(0, 0);
    m.visitEnd();
    return name;
  }

  private final Set<String> finals = new HashSet<String>();
  private final List<String> sites = new ArrayList<String>();

  public static void main(String[] a) throws Exception {
    new Instrument().run(new File(a[0]).toPath(), new File(a[1]).toPath(), new File(a[2]), new File(a[3]).toPath());
  }

  private void run(Path in, Path out, File sitesFile, Path twin) throws IOException {
    List<Path> files = new ArrayList<Path>();
    try (java.util.stream.Stream<Path> s = Files.walk(in)) {
      s.filter(p -> p.toString().endsWith(".class")).sorted().forEach(files::add);
    }
    List<byte[]> bytes = new ArrayList<byte[]>();
    for (Path p : files) {
      byte[] b = Files.readAllBytes(p);
      bytes.add(b);
      new ClassReader(b)
          .accept(
              new ClassVisitor(Opcodes.ASM9) {
                String cls;

                @Override
                public void visit(int v, int acc, String n, String sig, String sup, String[] i) {
                  cls = n;
                }

                @Override
                public FieldVisitor visitField(int acc, String n, String d, String sig, Object val) {
                  if ((acc & Opcodes.ACC_FINAL) != 0) finals.add(cls + "." + n);
                  return null;
                }
              },
              ClassReader.SKIP_CODE);
    }
    // an old class file version, which needs no stack maps
    bridgeClass.visit(Opcodes.V1_5, Opcodes.ACC_PUBLIC | Opcodes.ACC_SUPER, BRIDGE, null, "java/lang/Object", null);
    for (int i = 0; i < files.size(); i++) {
      Path rel = in.relativize(files.get(i));
      Path to = out.resolve(rel.toString());
      Files.createDirectories(to.getParent());
      Files.write(to, transform(bytes.get(i)));
      to = twin.resolve(rel.toString());
      Files.createDirectories(to.getParent());
      Files.write(to, identityOnly(bytes.get(i)));
    }
    bridgeClass.visitEnd();
    Files.write(out.resolve(BRIDGE + ".class"), bridgeClass.toByteArray());
    try (PrintWriter w = new PrintWriter(sitesFile, "UTF-8")) {
      for (String s : sites) w.println(s);
    }
  }

  private byte[] transform(byte[] b) {
    ClassReader cr = new ClassReader(b);
    ClassWriter cw = new ClassWriter(ClassWriter.COMPUTE_MAXS);
    cr.accept(
        new ClassVisitor(Opcodes.ASM9, cw) {
          String cls;

          @Override
          public void visit(int v, int acc, String n, String sig, String sup, String[] itf) {
            cls = n;
            super.visit(v, acc, n, sig, sup, itf);
          }

          @Override
          public MethodVisitor visitMethod(int acc, String n, String d, String sig, String[] ex) {
            MethodVisitor mv = super.visitMethod(acc, n, d, sig, ex);
            if (mv == null || (acc & (Opcodes.ACC_ABSTRACT | Opcodes.ACC_NATIVE)) != 0) return mv;
            return new M(mv, cls, n, (acc & Opcodes.ACC_SYNCHRONIZED) != 0);
          }
        },
        0);
    return cw.toByteArray();
  }

  private static boolean identity(String owner, String n) {
    return owner.equals("java/lang/System") && n.equals("identityHashCode");
  }

  private static byte[] identityOnly(byte[] b) {
    ClassWriter cw = new ClassWriter(0);
    new ClassReader(b)
        .accept(
            new ClassVisitor(Opcodes.ASM9, cw) {
              @Override
              public MethodVisitor visitMethod(int acc, String n, String d, String sig, String[] ex) {
                return new MethodVisitor(Opcodes.ASM9, super.visitMethod(acc, n, d, sig, ex)) {
                  @Override
                  public void visitMethodInsn(int op, String owner, String m, String md, boolean itf) {
                    super.visitMethodInsn(op, identity(owner, m) ? HOOK : owner, m, md, itf);
                  }
                };
              }
            },
            0);
    return cw.toByteArray();
  }

  private final class M extends MethodVisitor {
    final String cls;
    final String name;
    final boolean clinit;
    final boolean ctor;
    final boolean sync;
    int line;
    final Label start = new Label();

    M(MethodVisitor mv, String cls, String name, boolean sync) {
      super(Opcodes.ASM9, mv);
      this.cls = cls;
      this.name = name;
      this.clinit = name.equals("<clinit>");
      this.ctor = name.equals("<init>");
      this.sync = sync;
    }

    private int site(int kind, String what) {
      int id = sites.size();
      sites.add(((id << 3) | kind) + " " + cls.substring(PREFIX.length()) + "." + name + ":" + line + " " + what);
      return (id << 3) | kind;
    }

    private void y(int kind, String what) {
      if (clinit) return;
      super.visitLdcInsn(site(kind, what));
      super.visitMethodInsn(Opcodes.INVOKESTATIC, HOOK, "y", "(I)V", false);
    }

    @Override
    public void visitCode() {
      super.visitCode();
      if (clinit) {
        super.visitMethodInsn(Opcodes.INVOKESTATIC, HOOK, "enterInit", "()V", false);
      } else if (!ctor) {
        super.visitLdcInsn(site(sync ? 6 : 5, "entry"));
        super.visitMethodInsn(Opcodes.INVOKESTATIC, HOOK, "enter", "(I)V", false);
        super.visitLabel(start);
      }
    }

    @Override
    public void visitLineNumber(int l, Label at) {
      line = l;
      super.visitLineNumber(l, at);
    }

    @Override
    public void visitFieldInsn(int op, String owner, String n, String d) {
      if (owner.startsWith(PREFIX) && !finals.contains(owner + "." + n)) y(0, "field " + n);
      super.visitFieldInsn(op, owner, n, d);
    }

    @Override
    public void visitInsn(int op) {
      if ((op >= Opcodes.IALOAD && op <= Opcodes.SALOAD) || (op >= Opcodes.IASTORE && op <= Opcodes.SASTORE)) {
        y(1, "array");
      }
      if (op == Opcodes.MONITORENTER) y(6, "lock");
      if (op >= Opcodes.IRETURN && op <= Opcodes.RETURN) {
        if (clinit) super.visitMethodInsn(Opcodes.INVOKESTATIC, HOOK, "exitInit", "()V", false);
        else if (!ctor) super.visitMethodInsn(Opcodes.INVOKESTATIC, HOOK, "exit", "()V", false);
      }
      super.visitInsn(op);
      if (op == Opcodes.MONITORENTER) y(6, "locked");
      if (op == Opcodes.MONITOREXIT) y(6, "unlocked");
    }

    @Override
    public void visitIntInsn(int op, int operand) {
      if (op == Opcodes.NEWARRAY) {
        alloc();
        y(4, "newarray");
      }
      super.visitIntInsn(op, operand);
    }

    private void alloc() {
      super.visitInsn(Opcodes.DUP);
      super.visitMethodInsn(Opcodes.INVOKESTATIC, HOOK, "alloc", "(I)V", false);
    }

    @Override
    public void visitTypeInsn(int op, String type) {
      if (op == Opcodes.ANEWARRAY) alloc();
      if (op == Opcodes.ANEWARRAY) y(4, "new " + type + "[]");
      super.visitTypeInsn(op, type);
      // after NEW, whose label stack map frames refer to
      if (op == Opcodes.NEW) y(4, "new " + type);
    }

    @Override
    public void visitMultiANewArrayInsn(String d, int n) {
      y(4, "multinewarray");
      super.visitMultiANewArrayInsn(d, n);
    }

    @Override
    public void visitInvokeDynamicInsn(String n, String d, Handle h, Object... args) {
      y(4, "lambda");
      super.visitInvokeDynamicInsn(n, d, h, args);
    }

    @Override
    public void visitMethodInsn(int op, String owner, String n, String d, boolean itf) {
      boolean own = owner.startsWith(PREFIX);
      boolean juc = owner.startsWith("java/util/concurrent/");
      boolean object = owner.equals("java/lang/Object");
      if (!own && !(object && n.equals("<init>"))) {
        if (d.startsWith("(I)") && (owner.equals("java/lang/StringBuilder") || owner.equals("java/lang/StringBuffer"))
            && (n.equals("<init>") || n.equals("ensureCapacity") || n.equals("setLength"))) {
          alloc();
        }
        if (owner.equals("java/util/Arrays") && n.equals("copyOf") && d.contains("I)")) alloc();
        if (owner.equals("java/util/ArrayList") && n.equals("<init>") && d.equals("(I)V")) alloc();
        if (hands(owner, n)) {
          super.visitLdcInsn(owner.substring(owner.lastIndexOf('/') + 1) + "." + n);
          super.visitMethodInsn(Opcodes.INVOKESTATIC, HOOK, "started", "(Ljava/lang/String;)V", false);
        }
        boolean bridged = (op == Opcodes.INVOKEVIRTUAL || op == Opcodes.INVOKEINTERFACE) && BRIDGED.contains(owner);
        if (!bridged) y(VALUES.contains(owner) ? 3 : juc ? 6 : 2, "call " + owner + "." + n);
        String target = moved(op, owner, n, d);
        if (bridged && !clinit) {
          super.visitLdcInsn(site(2, "call " + owner + "." + n));
          super.visitMethodInsn(Opcodes.INVOKESTATIC, BRIDGE, bridge(op, owner, n, d, itf, target), "(L" + owner + ";" + d.substring(1).replace(")", "I)"), false);
          return;
        }
        if (target != null) {
          super.visitMethodInsn(Opcodes.INVOKESTATIC, MOVED, n, target, false);
          return;
        }
      }
      super.visitMethodInsn(op, identity(owner, n) ? HOOK : owner, n, d, itf);
      // after anything that can release or acquire a lock, come back under control at once
      if (juc || (object && (n.equals("wait") || n.startsWith("notify")))) y(6, "after " + owner + "." + n);
    }

    /** does the call hand work to another thread, or to the system? */
    private boolean hands(String owner, String n) {
      if (owner.equals("java/lang/Runtime")) return n.equals("addShutdownHook") || n.equals("exec") || n.equals("gc") || n.equals("exit") || n.equals("halt") || n.startsWith("load");
      if (owner.equals("java/lang/System")) return n.equals("gc") || n.equals("exit") || n.equals("runFinalization") || n.startsWith("load");
      if (owner.equals("java/lang/ProcessBuilder")) return n.equals("start");
      if (owner.equals("java/nio/file/Files") || owner.startsWith("java/util/logging/") || owner.startsWith("java/util/prefs/")) return true;
      if (owner.startsWith("java/net/") || owner.equals("java/io/RandomAccessFile")) return n.equals("<init>");
      if (owner.equals("java/io/File")) return n.startsWith("create") || n.startsWith("delete") || n.startsWith("mk");
      if (owner.startsWith("java/io/File")) return n.equals("<init>") && !owner.endsWith("Exception");
      if (owner.equals("java/lang/Thread")) return n.startsWith("start") && !n.equals("startsWith");
      if (owner.equals("java/util/Timer")) return n.startsWith("schedule");
      if (n.startsWith("parallel") && owner.startsWith("java/util/")) return true;
      if (!owner.startsWith("java/util/concurrent/")) return false;
      return n.equals("execute") || n.equals("submit") || n.equals("invokeAll") || n.equals("fork") || n.startsWith("schedule") || n.endsWith("Async");
    }

    /** counts what the call copies or searches; not null if a counting method has to be called instead. */
    private String moved(int op, String owner, String n, String d) {
      boolean text = owner.equals("java/lang/StringBuilder") || owner.equals("java/lang/String") || owner.equals("java/lang/StringBuffer");
      if (op == Opcodes.INVOKEVIRTUAL || op == Opcodes.INVOKEINTERFACE) {
        String sd = "(L" + owner + ";" + d.substring(1);
        if (WRAPPED.contains(n + sd)) {
          return sd;
        }
      }
      String args = d.substring(0, d.indexOf(')') + 1);
      boolean copies = text || owner.equals("java/util/Arrays") || owner.equals("java/util/ArrayList") || owner.equals("java/util/List")
          || owner.equals("java/util/Collection") || owner.equals("java/util/ArrayDeque") || owner.equals("java/util/LinkedList");
      if (owner.equals("java/lang/System") && n.equals("arraycopy")) {
        count("count", "(I)V", Opcodes.DUP);
      } else if (!copies) {
        return null;
      } else if (args.endsWith("CharSequence;II)") || args.equals("(II)") && (n.equals("substring") || n.equals("subSequence")) || n.equals("copyOfRange")) {
        count("range", "(II)V", Opcodes.DUP2);
      } else if (args.endsWith("[CII)") || n.equals("copyOf")) {
        count("count", "(I)V", Opcodes.DUP);
      } else if (args.equals("()") && op != Opcodes.INVOKESTATIC && !n.equals("<init>") && LINEAR.contains(n)) {
        count("all", "(Ljava/lang/Object;)V", Opcodes.DUP);
      } else if (args.endsWith(";)") && (text || n.equals("<init>") || n.equals("addAll") || n.equals("asList"))) {
        count("all", "(Ljava/lang/Object;)V", Opcodes.DUP);
      } else if (args.endsWith("[C)")) {
        count("all", "(Ljava/lang/Object;)V", Opcodes.DUP);
      }
      return null;
    }

    private void count(String m, String d, int dup) {
      super.visitInsn(dup);
      super.visitMethodInsn(Opcodes.INVOKESTATIC, MOVED, m, d, false);
    }

    @Override
    public void visitMaxs(int s, int l) {
      if (!clinit && !ctor) {
        Label end = new Label();
        super.visitLabel(end);
        super.visitTryCatchBlock(start, end, end, null);
        super.visitFrame(Opcodes.F_FULL, 0, new Object[0], 1, new Object[] {"java/lang/Throwable"});
        super.visitMethodInsn(Opcodes.INVOKESTATIC, HOOK, "exit", "()V", false);
        super.visitInsn(Opcodes.ATHROW);
      }
      super.visitMaxs(s, l);
    }
  }
}
