package vp.hook;

/** an object that stands for another one: its identity is that of the other. */
public interface Identified {
  Object identity();
}
