"""Entry point: /opt/venv/bin/python run.py C01 --tier quick|thorough [--replay FILE] [--only SUBSTR] [-v]"""
import argparse
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('check')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'), choices=['quick', 'thorough'])
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--replay')
    ap.add_argument('--only')
    ap.add_argument('--budget', type=float)
    ap.add_argument('--jobs', type=int)
    ap.add_argument('-v', '--verbose', action='store_true')
    a = ap.parse_args()
    if os.environ.get('PYTHONHASHSEED') != '0':
        os.environ['PYTHONHASHSEED'] = '0'
        os.execv(sys.executable, [sys.executable] + sys.argv)
    os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
    for v in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS', 'MKL_NUM_THREADS'):
        os.environ.setdefault(v, '1')
    sys.dont_write_bytecode = True
    sys.path.insert(0, HERE)
    os.chdir(HERE)
    from symx import engine
    if a.replay:
        sys.exit(replay(a))
    rc = engine.run_check(a.check.upper(), a.tier, a.seed, only=a.only, budget=a.budget, jobs=a.jobs, verbose=a.verbose)
    sys.stdout.flush()
    os._exit(rc)


def replay(a):
    """run the recorded counterexample on the real stack once and print what happens"""
    import shutil
    import tempfile
    with open(a.replay) as f:
        v = json.load(f)
    scratch = tempfile.mkdtemp(prefix='symx_replay_')
    os.environ['SYMX_SCRATCH'] = scratch
    os.environ['SYMX_TIER'] = a.tier
    from symx import boot, core, engine
    import importlib
    try:
        check_mod = 'checks.' + a.check.lower()
        boot.start('real', real_tf=True)
        check = importlib.import_module(check_mod)
        sc = {s.name: s for s in check.scenarios(v.get('tier', a.tier))}[v['scenario']]
        sc.opts = {**getattr(check, 'OPTS', {}), **sc.opts}
        ctx = core.ConcreteCtx(v['inputs'], sc.opts)
        tmp = os.path.join(scratch, 'tmp')
        os.makedirs(tmp)
        os.environ['SYMX_DEBUG'] = '1'
        status, detail = engine.run_one(sc, ctx, 60, tmp)
        print(status, detail, ctx.failed)
        return 1 if status == 'violation' else 0
    finally:
        os.chdir('/')
        shutil.rmtree(scratch, ignore_errors=True)


if __name__ == '__main__':
    main()
