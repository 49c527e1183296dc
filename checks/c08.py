"""C08: importing a text file reads every field of every line."""
from symx.kit import *

BUDGET = {'quick': 240, 'thorough': 300}
NUM = {'user': ('int', 0, 99), 'item': ('int', -9, 99), 'interaction': ('real', -9, 9), 'timestamp': ('int', -99, 99), 'x': ('int', 0, 9), 'y': ('real', 0, 9)}
TXT = dict(NUM, user=('seq', ['u1', 'u#2', 'b b', 'u1', 'z']), item=('seq', ['A, B', 'B (1995)', "C's", 'D;', 'E|']), x=('const', 'skip,me'), interaction=('int', 0, 9))
# words that are often read as missing values, and missing values
WORDS = dict(TXT, user=('seq', ['NA', 'null', 'x', 'nan', 'None']), item=('seq', ['a', 'N/A', '', 'NULL', '-']))
# blanks at both ends of a field
PAD = dict(TXT, user=('seq', ['u1 ', ' u2', ' ', '  u1', 'z']), item=('seq', ['A, B ', ' B (1995)', 'c', ' ', 'E']))
ENC = dict(NUM, user=('seq', ['caf\xe9', 'z\xfcrich', 'a', 'b', 'c']), item=('seq', ['\xe0', 'x', 'y', 'z', 'w']))
MIXN = dict(NUM, timestamp=('seq', [1, 2.5, -3, 0, 7.25]), interaction=('seq', [3, 2, 1.5, -4, 0]))
LAYOUTS = [['user', 'item', 'interaction', 'timestamp'],
           ['user', 'item', 'interaction'],
           ['interaction', None, 'item', 'user'],
           [None, 'user', 'item', None, 'interaction', 'timestamp'],
           ['user', 'item', 'interaction', None],
           ['x', 'user', 'y', 'item', 'interaction']]
BOUNDS = {
    'quick': 'files of 1-4 lines with arbitrary numbers (or strings containing commas, quotes, spaces (also at their ends), accented letters); 5 delimiters of one or several '
             'characters; header or not; 6 column layouts with skipped columns; chunk sizes 1-3 and larger; last line terminated or not; both backends; data frames of 1-3 rows with every labelling',
    'thorough': 'files of up to 5 lines',
}
OUTSIDE = 'blanks at the ends of lines of files delimited by several characters read into memory (pandas strips them); line breaks inside quoted fields; blank lines; lines with missing or extra fields; columns mixing numbers and text; text columns of which every entry is True or False (pandas reads booleans)'


def field(v, delim):
    s = fmt(v)
    if isinstance(v, str) and len(delim) == 1 and (delim in s or '"' in s):
        return '"' + s.replace('"', '""') + '"'
    return s


def run(ctx, backend, n, spec, layouts=LAYOUTS, delims=(',', ';', '\t', '::', '||'), enc=None, chunks=(1, 2, 3, 100)):
    from DRecPy.Dataset import InteractionDataset
    lay = ctx.choice('layout', layouts)
    delim = ctx.choice('delimiter', list(delims))
    header = ctx.bool('header')
    end = ctx.bool('end')
    k = ctx.cint('lines', 1, n)
    kw = {}
    if backend == 'db':
        reset_db()
        kw['chunksize'] = ctx.choice('chunk', list(chunks))
    if enc:
        kw['encoding'] = enc
    cols = [c for c in lay if c is not None]
    rows = symrows(ctx, k, cols, spec)
    path = fresh_path(ctx, '.csv')
    lines = []
    if header:
        lines.append(delim.join(f'col{j}' for j in range(len(lay))))
    for i, r in enumerate(rows):
        d = dict(zip(cols, r))
        lines.append(delim.join(field(d[c] if c is not None else spec['x'][1] if spec['x'][0] == 'const' and delim != ',' else i, delim) for c in lay))
    with open(path, 'w', encoding=enc) as f:
        f.write('\n'.join(lines) + ('\n' if end else ''))
    arg = list(lay)
    ds = InteractionDataset(path, columns=arg, delimiter=delim, has_header=header, in_memory=backend == 'mem', verbose=False, **kw)
    ctx._keep = [ds]
    ctx.check(arg == lay, 'the column list was changed')
    m = Model(cols, rows)
    check_model(ctx, ds, m, backend, 'imported')
    recs = ds.values_list()
    ctx.check([int(r['rid']) for r in recs] == list(range(k)), 'rows in file order, numbered from 0')
    u = rows[k - 1][cols.index('user')]
    if not isinstance(u, str) or not set(u) & set(' ,'):
        check_model(ctx, ds.select(f'user == {lit(u)}'), m.select([('user', '==', u)]), backend, 'selecting by the type of the column', proj=False)


def run_df(ctx, n, spec):
    from DRecPy.Dataset import InteractionDataset
    from symx import pdx
    k = ctx.cint('rows', 1, n)
    lab = ctx.choice('labels', [('user', 'item', 'interaction'), ('u', 'i', 'v'), ('u', 'item', 'v'), ('user', 'i', 'interaction')])
    extra = ctx.bool('extra')
    order = ctx.bool('reversed')
    std = ['user', 'item', 'interaction']
    cols = [x for x in lab] + (['timestamp'] if extra else [])
    names = std + (['timestamp'] if extra else [])
    rows = symrows(ctx, k, names, spec)
    if order:
        cols, names, rows = cols[::-1], names[::-1], [r[::-1] for r in rows]
    df = pdx.frame(cols, rows)
    kw = {a: b for a, b, c in zip(('user_label', 'item_label', 'interaction_label'), lab, std) if b != c}
    ds = InteractionDataset.read_df(df, verbose=False, **kw)
    m = Model(names, rows)
    check_model(ctx, ds, m, 'mem', 'data frame')
    ds.apply('interaction', lambda x: x + 1)
    ds.assign_internal_ids()
    ctx.check(list(df.columns) == cols and df.shape[0] == k, 'the imported data frame was changed')
    vals = df[lab[2]].values
    want = [r[names.index('interaction')] for r in rows]
    ctx.check(And(*[veq(a, b) for a, b in zip(vals, want)]), 'values of the imported data frame were changed')


def scenarios(tier):
    T = tier == 'thorough'
    n = 5 if T else 4
    out = []
    for b in ('mem', 'db'):
        w = 1 if b == 'mem' else 2
        dl = (',', ';', '\t', '::', '##' if b == 'mem' else '||')
        out.append(Scenario(f'{b}.num', run, dict(backend=b, n=n, spec=NUM, delims=dl), weight=w))
        out.append(Scenario(f'{b}.text', run, dict(backend=b, n=n, spec=TXT, chunks=(2, 100), delims=dl), weight=w))
        # pandas strips the lines of files delimited by several characters
        out.append(Scenario(f'{b}.pad', run, dict(backend=b, n=n, spec=PAD, chunks=(2, 100), delims=dl if b == 'db' else dl[:3], layouts=LAYOUTS[:1] + LAYOUTS[2:4]), weight=w))
        out.append(Scenario(f'{b}.words', run, dict(backend=b, n=n, spec=WORDS, chunks=(2,), delims=dl[:1] + dl[3:4], layouts=LAYOUTS[:1] + LAYOUTS[2:3])))
        out.append(Scenario(f'{b}.enc', run, dict(backend=b, n=2, spec=ENC, enc='latin-1', layouts=LAYOUTS[:1], delims=(',', '::'), chunks=(1,))))
        out.append(Scenario(f'{b}.mixed', run, dict(backend=b, n=n, spec=MIXN, layouts=LAYOUTS[:1], delims=(',', '::'), chunks=(2,))))
    out.append(Scenario('mem.df', run_df, dict(n=3, spec=dict(NUM, user=('int', 1, 2), item=('int', 1, 2)))))
    # known finding: the in-memory import reads longer delimiters as regular expressions
    out.append(Scenario('mem.regex', run, dict(backend='mem', n=1, spec=NUM, layouts=LAYOUTS[:1], delims=('||',))))
    return out
