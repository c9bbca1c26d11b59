package mimosaverif;

import tlc2.overrides.ITLCOverrides;

/** Registered with -Dtlc2.overrides.TLCOverrides=... (see bin/tlc.py). */
public final class Overrides implements ITLCOverrides {
    @SuppressWarnings("rawtypes")
    @Override
    public Class[] get() {
        return new Class[] { RealOps.class, JsonOps.class };
    }
}
