"""Replay process: runs a scenario with concrete inputs on the unpatched stack."""
import importlib
import json
import os
import sys


def main():
    check_id, tier = sys.argv[1], sys.argv[2]
    out = os.fdopen(os.dup(1), 'w')
    os.dup2(2, 1)   # stray prints must not reach the protocol
    from . import boot, core, engine
    boot.start('real', real_tf=os.environ.get('SYMX_REAL_TF') == '1')
    check = importlib.import_module('checks.' + check_id.lower())
    scs = {s.name: s for s in check.scenarios(tier)}
    base = getattr(check, 'OPTS', {})
    tmp = os.path.join(boot.scratch_root(), 'tmp')
    os.makedirs(tmp, exist_ok=True)
    import gc
    gc.collect()
    gc.freeze()
    out.write(json.dumps({'ready': True}) + '\n')
    out.flush()
    for line in sys.stdin:
        req = json.loads(line)
        sc = scs[req['sc']]
        sc.opts = {**base, **sc.opts}
        if '__goal__' in req['inputs']:
            status, detail, ctx = engine.run_goal(sc, req['inputs']['__goal__'], req.get('limit', 60), tmp)
        else:
            ctx = core.ConcreteCtx(req['inputs'], sc.opts)
            status, detail = engine.run_one(sc, ctx, req.get('limit', 30), tmp)
        info = ctx.failed['info'] if ctx.failed else None
        core.CTX = None
        out.write(json.dumps({'status': status, 'detail': detail, 'checks': ctx.stats.checks, 'missing': ctx.missing[:5],
                              'info': info}) + '\n')
        out.flush()


if __name__ == '__main__':
    main()
