#!/usr/bin/env python3
"""check.py PROPERTY [tier]: decides one property on /repo's working tree."""
import os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import importlib
from vlib import Ctx, CheckError
AREA = dict(C01='life', C18='cc', C19='opts', C10='io', C11='io', C26='io', C14='flux', C16='flux', C17='flux', C27='flux', C12='dist', C13='dist', C15='dist', C20='rgr', C22='f90', C06='ti', C07='ti', C08='ti', C09='ti',
            C02='slots', C03='slots',
            C04='lib', C05='lib', C21='lib')
def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    ctx = Ctx(pid, tier, int(os.environ.get('VERIF_SEED', '1')))
    try:
        return importlib.import_module('areas.' + AREA[pid]).run(ctx)
    except CheckError as e:
        print('CHECK-ERROR', e); return 2
    except Exception:
        traceback.print_exc(); return 2
    finally:
        ctx.cleanup()
sys.exit(main())
