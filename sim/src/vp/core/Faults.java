package vp.core;

import java.io.IOException;

/** Exceptions the simulator throws on behalf of caller code. */
final class Faults {
  private Faults() {}

  static final class SimError extends Error {
    SimError() {
      super("injected error");
    }
  }

  static final class SimRuntime extends RuntimeException {
    SimRuntime() {
      super("injected");
    }
  }

  static final class SimIo extends IOException {
    SimIo() {
      super("injected");
    }
  }

  static Throwable make(String kind, Exec x) {
    switch (kind.substring(kind.indexOf('.') + 1)) {
      case "printf":
        return x.sut.printfError("injected");
      case "uoe":
        return new UnsupportedOperationException("injected");
      case "cme":
        return new java.util.ConcurrentModificationException();
      case "iae":
        return new IllegalArgumentException("injected");
      case "arith":
        return new ArithmeticException("injected");
      case "neg":
        return new NegativeArraySizeException("injected");
      case "sioobe":
        return new StringIndexOutOfBoundsException("injected");
      case "link":
        return new NoClassDefFoundError("injected");
      case "checked":
        return new java.util.concurrent.TimeoutException("injected");
      case "intr":
        return new InterruptedException("injected");
      case "closed":
        return new java.nio.channels.ClosedChannelException();
      case "enc":
        return new java.nio.charset.MalformedInputException(1);
      case "full":
        return new java.nio.BufferOverflowException();
      case "ro":
        return new java.nio.ReadOnlyBufferException();
      case "io":
        return new SimIo();
      case "eof":
        return new java.io.EOFException("injected");
      case "intio":
        return new java.io.InterruptedIOException("injected");
      case "unchecked":
        return new java.io.UncheckedIOException(new IOException("inner"));
      case "rt":
        return new SimRuntime();
      case "npe":
        return new NullPointerException("injected");
      case "ise":
        return new IllegalStateException("injected");
      case "ioobe":
        return new IndexOutOfBoundsException("injected");
      case "nfe":
        return new NumberFormatException("injected");
      case "cast":
        return new ClassCastException("injected");
      case "dte":
        return new java.time.DateTimeException("injected");
      case "nse":
        return new java.util.NoSuchElementException("injected");
      case "oom":
        return new OutOfMemoryError("injected by caller code");
      case "soe":
        return new StackOverflowError("injected by caller code");
      case "assert":
        return new AssertionError("injected");
      default:
        return new SimError();
    }
  }

  @SuppressWarnings("unchecked")
  static <T extends Throwable> void sneak(Throwable e) throws T {
    throw (T) e;
  }
}
