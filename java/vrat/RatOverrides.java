package vrat;

import tlc2.overrides.ITLCOverrides;

/** Registers the exact-rational operators of spec/Rat.tla with TLC. */
public class RatOverrides implements ITLCOverrides {
    @SuppressWarnings("rawtypes")
    @Override
    public Class[] get() {
        return new Class[] { RatOps.class };
    }
}
