package vt;

import tlc2.overrides.ITLCOverrides;

/** Registered through -Dtlc2.overrides.TLCOverrides. */
public class Overrides implements ITLCOverrides {
  @Override
  public Class[] get() {
    return Boolean.getBoolean("vt.pure") ? new Class[] { IEEE.class, Solver.class } : new Class[] { IEEE.class, Solver.class, LinAlg.class };
  }
}
