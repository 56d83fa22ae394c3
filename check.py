#!/usr/bin/env python3
"""check.py <property> [quick|thorough]   exit 0 held, 1 violation, 2 no verdict"""
import os, sys, importlib, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
if len(sys.argv) > 2:
    os.environ["VERIF_TIER"] = sys.argv[2]
from vlib.common import Report, CheckError, Timeout


def main():
    pid = sys.argv[1].upper()
    mod = importlib.import_module("checks." + pid.lower())
    try:
        return mod.main(Report(pid))
    except (CheckError, Timeout) as e:
        print("NO VERDICT for %s: %s" % (pid, e))
        return 2
    except Exception:
        traceback.print_exc()
        return 2


sys.exit(main())
