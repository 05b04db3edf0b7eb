'''helpers for the demonstrations of planted bugs'''
import sys, os, traceback
from peers import *

BASE = os.path.join(os.environ['VERIF_SCRATCH'], 'n')

def broken(why):
    print('BROKEN: %s' % why)
    sys.stdout.flush()
    sim._real_exit(1)

def require(cond, why):
    if not cond:
        broken(why)

def main(f):
    try:
        f()
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        sys.stdout.flush()
        sys.stderr.flush()
        sim._real_exit(1)
    sys.stdout.flush()
    sim._real_exit(0)
