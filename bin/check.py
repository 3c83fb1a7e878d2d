#!/usr/bin/env python3
import os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib, props


def main():
    pid = sys.argv[1]
    fn = getattr(props, pid)
    c = vlib.Check(pid)
    try:
        fn(c)
        rc = c.finish()
    except vlib.CheckError as e:
        if c.violations:
            # a violation found before the error still counts
            sys.exit(c.finish())
        print("ERROR in check %s: %s" % (pid, e))
        sys.exit(2)
    sys.exit(rc)


main()
