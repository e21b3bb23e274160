package vt;
import tlc2.overrides.*;
public class FltOverrides implements ITLCOverrides {
  @SuppressWarnings("rawtypes")
  public Class[] get() { return new Class[] {Flt.class, Text.class}; }
}
