#!/usr/bin/env python3
"""check.py <property>: decides one property on /repo's working tree."""
import os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import vf


def main(p):
    n = int(p[1:])
    if n <= 9 or n in (24, 30, 31):
        import c_rk as m
    elif n in (10, 11, 12, 13, 14, 20, 22, 23):
        import c_obj as m
    elif n in (15, 16, 19, 28):
        import c_newton as m
    elif n in (17, 18):
        import c_ms as m
    elif n == 29:
        import c_prog as m
    elif n in (32, 33):
        import c_log as m
    elif n in (25, 26, 27):
        import c_api as m
    else:
        import c_det as m
    return m.check(p)


if __name__ == '__main__':
    try:
        sys.exit(main(sys.argv[1]))
    except vf.CheckError as e:
        print('check error: %s' % e)
        sys.exit(2)
    except Exception:
        traceback.print_exc()
        sys.exit(2)
