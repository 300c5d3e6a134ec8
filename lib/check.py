#!/usr/bin/env python3
"""Usage: check.py PROPERTY quick|thorough"""
import os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from common import Error
import props


def main():
    prop, tier = sys.argv[1], sys.argv[2]
    try:
        sys.exit(props.CHECKS[prop](tier))
    except Error as e:
        print(f"ERROR {prop}: {e}", file=sys.stderr, flush=True)
        sys.exit(2)
    except Exception:
        traceback.print_exc()
        sys.exit(2)


if __name__ == "__main__":
    main()
