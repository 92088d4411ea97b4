#!/usr/bin/env python3
"""Decides one property:  check.py <property> [quick|thorough]      (VERIF_SEED, VERIF_TIER)"""
import json
import os
import shutil
import sys
import tempfile
import time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import *      # noqa
import plans


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    work = tempfile.mkdtemp(prefix='verif-')
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': plans.LEVEL.get(prop, 'model_checking'), 'coverage': {}}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    evp = os.path.join(VERIF, 'evidence', prop + '.json')
    if os.path.exists(evp):
        os.unlink(evp)
    t0 = time.time()
    code = 0
    try:
        ctx = plans.Ctx(prop, tier, seed, work)
        plans.PLAN[prop](ctx)
        ev['coverage'] = ctx.coverage()
        if ctx.bad:
            code = 1
            path = ctx.save_replay()
            for m in ctx.bad[:10]:
                log('MISMATCH', m)
            print('VIOLATION property=%s replay=%s' % (prop, path), flush=True)
        else:
            for k in plans.known(prop):
                print('KNOWN-FINDING: property=%s %s' % (prop, k), flush=True)
    except HarnessError as x:
        log('ERROR', x)
        code = 2
        ev['coverage'] = {'error': str(x)[:2000]}
    finally:
        if not os.environ.get('VP_KEEP'):
            shutil.rmtree(work, ignore_errors=True)
        else:
            log('kept', work)
    ev['wall_s'] = round(time.time() - t0, 2)
    with open(evp, 'w') as f:
        json.dump(ev, f, indent=1)
    log('%s %s: %s (%.0f s)' % (prop, tier, {0: 'holds on everything explored', 1: 'VIOLATED', 2: 'no answer'}[code], ev['wall_s']))
    return code


if __name__ == '__main__':
    sys.exit(main())
