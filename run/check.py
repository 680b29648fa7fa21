#!/usr/bin/env python3
"""check.py <property>: decides one property on /repo's working tree."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import traceback
from common import *
import docprops
try:
    import cliprops
except ImportError:
    cliprops = None

ALL = dict(docprops.PROPS)
if cliprops:
    ALL.update(cliprops.PROPS)


def main():
    prop = sys.argv[1]
    c = Check(prop)
    try:
        ALL[prop](c)
    except ToolError as e:
        print("ERROR:", e, file=sys.stderr)
        sys.exit(2)
    except Exception:
        traceback.print_exc()
        sys.exit(2)
    c.finish()


if __name__ == "__main__":
    main()
