#!/usr/bin/env python3
'''check.py PROPERTY [quick|thorough]: decide one property on /repo's working tree'''
import importlib, json, os, sys, traceback
sys.dont_write_bytecode = True
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, 'lib'))
import vlib

DOMAINS = json.load(open(os.path.join(ROOT, 'lib', 'domains.json')))

def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    ctx = vlib.Ctx(pid, tier, seed)
    try:
        level = 'model_checking'
        for d in DOMAINS[pid]:
            m = importlib.import_module(d)
            level = getattr(m, 'LEVEL', level)
            m.run(ctx)
        rc = vlib.finish(ctx, level)
    except vlib.MachineryError as e:
        print('MACHINERY ERROR: %s' % e, flush=True)
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 3
    finally:
        if os.environ.get('VERIF_KEEP'):
            print('scratch kept in', ctx.scratch)
        else:
            ctx.close()
    sys.stdout.flush()
    sys.exit(rc)

main()
