"""C09: temporary database files live exactly as long as they are needed."""
import gc
import os

from symx import core
from symx.kit import *

BUDGET = {'quick': 240, 'thorough': 600}
COLS = ['user', 'item', 'interaction']
ROWS = [(1, 1, 2.5), (2, 1, 1.5), (1, 2, 3.0)]
BOUNDS = {
    'quick': 'every history of 4 operations (create another, copy, filter, filter in place, read, start reading, close, close again, forget, collect) over datasets '
             'of up to 3 database files; every pre-existing registry content (none, foreign entries, similar names); compaction threshold 1; at the end everything is closed',
    'thorough': 'histories of 5 operations',
}
OUTSIDE = 'several processes sharing one data folder; using a dataset after closing it'


class Fam:
    """datasets of one database file"""

    def __init__(self, path):
        self.path, self.live = path, []


def registry():
    p = os.path.join(os.environ['DATA_FOLDER'], 'tmp_files.txt')
    if not os.path.exists(p):
        return None
    with open(p) as f:
        return f.read().splitlines()


def invariant(ctx, fams, foreign, user_files, msg):
    reg = registry()
    lines = reg or []
    for f in fams:
        if f.live:
            ctx.check(os.path.isfile(f.path), f'{msg}: the temporary file of an open dataset is gone')
            ctx.check(lines.count(f.path) == 1, f'{msg}: the temporary file of an open dataset is not registered')
        else:
            ctx.check(not os.path.exists(f.path), f'{msg}: the temporary file of closed datasets is left behind')
            ctx.check(f.path not in lines, f'{msg}: the temporary file of closed datasets is still registered')
    for x in foreign:
        ctx.check(x in lines, f'{msg}: another registered file was unregistered')
        ctx.check(os.path.isfile(x), f'{msg}: another registered file was removed')
    for x in user_files:
        ctx.check(os.path.isfile(x), f'{msg}: a file of the user was removed')
    known = set(foreign) | {f.path for f in fams if f.live}
    ctx.check(set(lines) <= known, f'{msg}: unknown entry in the registry')
    left = {os.path.join(os.environ['DATA_FOLDER'], n) for n in os.listdir(os.environ['DATA_FOLDER']) if n.endswith('.sqlite')}
    ctx.check(left <= known | set(user_files), f'{msg}: unknown database file left behind')


def db_file(ds):
    return ds._db_path if hasattr(ds, '_db_path') else core.raise_unsupported('the path of the database file is kept elsewhere')


def new_files(before):
    d = os.environ['DATA_FOLDER']
    return [os.path.join(d, n) for n in sorted(os.listdir(d)) if n.endswith('.sqlite') and os.path.join(d, n) not in before]


def create(ctx, fams):
    before = set(new_files(()))
    ds = make_ds(ctx, 'db', COLS, ROWS)
    ctx._keep.pop()
    fresh = new_files(before)
    ctx.check(len(fresh) == 1, 'importing creates exactly one temporary database file')
    f = Fam(fresh[0])
    f.live.append(ds)
    fams.append(f)


def run(ctx, length, ops, regs):
    reset_db()
    ctx._db_reset = True
    ctx._keep = []
    db_tune(_opt2_n_direct_interactions_threshold=1)
    data = os.environ['DATA_FOLDER']
    kind = ctx.choice('registry', regs)
    foreign = []
    if kind in ('one', 'two'):
        foreign = [os.path.join(data, 'interactions_1.2.tmp.sqlite')] if kind == 'one' else \
            [os.path.join(data, 'x.tmp'), os.path.join(data, 'interactions_9.sqlite')]
        for x in foreign:
            with open(x, 'w') as f:
                f.write('')
        with open(os.path.join(data, 'tmp_files.txt'), 'w') as f:
            f.write(''.join(x + '\n' for x in foreign))
    user_files = []
    fams, closed = [], []
    create(ctx, fams)
    if kind == 'like':
        # other registered files whose names extend, or end with, the one just created
        p = fams[0].path
        d, b = os.path.split(p)
        foreign = [p + '.bak', os.path.join(d, 'x' + b), p.replace('.tmp', '1.tmp')]
        for x in foreign:
            with open(x, 'w') as f:
                f.write('')
        with open(os.path.join(data, 'tmp_files.txt'), 'a') as f:
            f.write(''.join(x + '\n' for x in foreign))
    if kind != 'none':
        # names a user may pick, some of which look like those of temporary files
        name = ctx.choice('saved as', ['mine.sqlite', 'mine.tmp.sqlite', os.path.join('my.tmp.files', 'mine.sqlite')])
        mine = os.path.join(data, name)
        os.makedirs(os.path.dirname(mine), exist_ok=True)
        fams[0].live[0].save(mine)
        user_files = [mine]
    its = []
    for k in range(length):
        op = ctx.choice(f's{k}', ops)
        if op == 'create':
            if len(fams) == 3:
                ctx.prune('enough')
            create(ctx, fams)
        elif op == 'again':
            if not closed:
                ctx.prune('nothing closed')
            closed[-1].close()
        elif op == 'loaduser':
            if not user_files:
                ctx.prune('nothing saved')
            from DRecPy.Dataset import InteractionDataset
            u = InteractionDataset(user_files[0], verbose=False)
            u.drop([0], copy=False)
            u.values_list()
            u.close()
            del u
            u = InteractionDataset(user_files[0], verbose=False)
            ctx.check(len(u) == len(ROWS), 'the file of the user changed')
            u.close()
            del u
        elif op == 'collect':
            gc.collect()
        else:
            cand = [(f, d) for f in fams for d in f.live]
            if not cand:
                ctx.prune('nothing open')
            j = ctx.cint(f's{k}.t', 0, len(cand) - 1) if len(cand) > 1 else 0
            f, d = cand[j]
            if op == 'copy':
                f.live.append(d.copy())
            elif op == 'sel':
                f.live.append(d.select('user == 1'))
            elif op == 'selI':
                d.drop([1], copy=False)
                d.values_list()
            elif op == 'read':
                # temporaries come and go
                d.select('item == 1').values_list()
            elif op == 'iter':
                it = d.values()
                next(it)
                its.append(it)
            elif op == 'close':
                f.live.remove(d)
                d.close()
                closed.append(d)
            elif op == 'forget':
                f.live.remove(d)
            del d
            cand = None
            if op == 'forget':
                its.clear()  # an iterator keeps its dataset alive
                it = None
            if op in ('forget', 'read'):
                gc.collect()
        invariant(ctx, fams, foreign, user_files, 'during the history')
    its.clear()
    it = None
    gc.collect()
    order = ctx.bool('order')
    for f in (fams if order else fams[::-1]):
        while f.live:
            d = f.live.pop(0 if order else -1)
            if ctx.symbolic or True:
                d.close()
            closed.append(d)
            del d
            invariant(ctx, fams, foreign, user_files, 'closing')
    closed.clear()
    gc.collect()
    invariant(ctx, fams, foreign, user_files, 'at the end')
    ctx.check(registry() is None or bool(foreign), 'an empty registry is removed')


def run_start(ctx):
    """files left behind by a crashed process are removed at the next start, nothing else is"""
    from DRecPy.Dataset import delete_temp_files
    data = os.environ['DATA_FOLDER']
    names = ['a.tmp.sqlite', 'b b.tmp.sqlite', 'c.sqlite']
    reg, exist = [], []
    for n in names:
        p = os.path.join(data, n)
        if ctx.bool(n + ' exists'):
            with open(p, 'w') as f:
                f.write('x')
            exist.append(p)
        if ctx.bool(n + ' registered'):
            reg.append(p)
    if ctx.bool('registry') or reg:
        with open(os.path.join(data, 'tmp_files.txt'), 'w') as f:
            f.write(''.join(p + '\n' for p in reg))
    other = os.path.join(data, 'other.txt')
    with open(other, 'w') as f:
        f.write('x')
    delete_temp_files()
    ctx.check(registry() is None, 'the registry is removed')
    ctx.check(os.path.isfile(other), 'an unregistered file was removed')
    for p in exist:
        ctx.check(os.path.isfile(p) == (p not in reg), 'exactly the registered files are removed')


def scenarios(tier):
    T = tier == 'thorough'
    L = 5 if T else 4
    ops = ['create', 'copy', 'sel', 'close', 'again', 'forget', 'read']
    out = [Scenario('life', run, dict(length=L, ops=ops, regs=['none']), weight=3),
           Scenario('registry', run, dict(length=3 if not T else 4, ops=ops + ['loaduser'], regs=['one', 'two', 'like']), weight=2),
           Scenario('state', run, dict(length=3 if not T else 4, ops=['sel', 'selI', 'iter', 'collect', 'copy', 'close', 'forget'], regs=['none', 'two']), weight=2),
           Scenario('start', run_start, {})]
    return out
