#!/usr/bin/env python3
"""run.py <property> [--replay FILE] | --setup
Tier and seed come from VERIF_TIER and VERIF_SEED."""
import os
import sys
import traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lib'))
sys.dont_write_bytecode = True
import vp


def main():
    if sys.argv[1] == '--setup':
        for crate, binary in (('kernel', 'vp_kernel'), ('lang', 'vp_lang')):
            vp.build(crate, binary)
        return 0
    prop = sys.argv[1]
    import kernel
    import lang
    import more
    mod = lang if prop in lang.D else more if prop in more.D else kernel
    if len(sys.argv) > 3 and sys.argv[2] == '--replay':
        return mod.replay(prop, sys.argv[3])
    return mod.run(prop)


try:
    rc = main()
except vp.ToolError as e:
    print('TOOL ERROR: %s' % e, flush=True)
    rc = 2
except Exception:
    traceback.print_exc()
    rc = 2
sys.exit(rc)
