package vp.core;

import java.io.File;
import java.io.IOException;
import java.nio.file.Files;
import java.util.ArrayList;
import java.util.HashMap;
import java.util.List;
import java.util.Map;

/** Class files of the library under test, loaded afresh as often as needed. */
final class Loaders {
  private final Map<String, byte[]> plain = new HashMap<String, byte[]>();
  private final Map<String, byte[]> inst = new HashMap<String, byte[]>();
  private final Map<String, byte[]> driver = new HashMap<String, byte[]>();

  Loaders(File dir) throws IOException {
    read(new File(dir, "twin"), "", plain);
    read(new File(dir, "inst"), "", inst);
    read(new File(dir, "driver"), "", driver);
  }

  private static void read(File d, String pkg, Map<String, byte[]> into) throws IOException {
    File[] l = d.listFiles();
    if (l == null) throw new IOException("no " + d);
    for (File f : l) {
      if (f.isDirectory()) read(f, pkg + f.getName() + ".", into);
      else if (f.getName().endsWith(".class")) into.put(pkg + f.getName().substring(0, f.getName().length() - 6), Files.readAllBytes(f.toPath()));
    }
  }

  Api load(boolean simulated) {
    Lib cl = new Lib(simulated ? inst : plain);
    try {
      return (Api) cl.loadClass("vp.sut.Driver").newInstance();
    } catch (Exception e) {
      throw new IllegalStateException(e);
    }
  }

  /** one copy of the library. */
  final class Lib extends ClassLoader {
    private final Map<String, byte[]> m;

    /** library classes in the order they were needed. */
    final List<Class<?>> loaded = new ArrayList<Class<?>>();

    Lib(Map<String, byte[]> m) {
      super(Loaders.class.getClassLoader());
      this.m = m;
    }

    @Override
    protected Class<?> loadClass(String name, boolean resolve) throws ClassNotFoundException {
      if (!name.startsWith("io.fastprintf.") && !name.startsWith("vp.sut.")) return super.loadClass(name, resolve);
      synchronized (getClassLoadingLock(name)) {
        Class<?> k = findLoadedClass(name);
        if (k == null) {
          byte[] b = name.startsWith("vp.sut.") ? driver.get(name) : m.get(name);
          if (b == null) throw new ClassNotFoundException(name);
          k = defineClass(name, b, 0, b.length);
          if (!name.startsWith("vp.sut.")) synchronized (loaded) {
            loaded.add(k);
          }
        }
        return k;
      }
    }
  }
}
