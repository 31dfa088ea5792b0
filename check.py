#!/usr/bin/env python3
"""check.py <property id>: decides one property on /repo's current working tree."""
import os
import sys
import traceback
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from lib import vp            # noqa: E402
from lib import checks        # noqa: E402


def main():
    pid = sys.argv[1]
    c = vp.Check(pid)
    try:
        c.build()
        getattr(checks, pid)(c)
        rc = c.finish()
    except vp.MachineryError as e:
        print('check machinery error: %s' % e)
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 2
    finally:
        c.cleanup()
    sys.stdout.flush()
    sys.exit(rc)


if __name__ == '__main__':
    main()
