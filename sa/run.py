#!/usr/bin/env python3
"""python3 sa/run.py C01 [...]: decides one property on /repo's working tree"""
import os
import sys
import importlib
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import threading


def main():
    import check
    import world
    props = {}
    for f in sorted(os.listdir(HERE)):
        if f.startswith('p_') and f.endswith('.py'):
            m = importlib.import_module(f[:-3])
            props.update(m.PROPS)
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    rc = 0
    for pid in sys.argv[1:]:
        fn, level, rule = props[pid][:3]
        ctx = check.Ctx(pid, tier, seed)
        try:
            fn(ctx)
        except world.BuildError as e:
            print(str(e)[-2000:])
            rc = max(rc, 2)
            continue
        rc = max(rc, ctx.finish(level, rule))
    return rc


if __name__ == '__main__':
    out = []
    threading.stack_size(512 * 1024 * 1024)
    t = threading.Thread(target=lambda: out.append(main()))
    t.start()
    t.join()
    sys.stdout.flush()
    os._exit(out[0] if out else 3)
