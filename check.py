#!/usr/bin/env python3
"""check.py Cnn: decides one property. Exit 0 held, 1 with a VIOLATION line broken, 2 no answer."""
import os, sys, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
sys.dont_write_bytecode = True
import core, props

if __name__ == "__main__":
    ck = core.Check(sys.argv[1])
    try:
        props.CHECKS[ck.prop](ck)
        rc = ck.finish()
    except core.ToolError as e:
        print("ERROR property=%s %s" % (ck.prop, e))
        rc = 2
        if ck.violations:      # something definite was seen before the machinery failed
            rc = ck.finish()
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    ck.cleanup()
    os._exit(rc)
