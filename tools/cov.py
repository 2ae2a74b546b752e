"""python3 tools/cov.py DIR [file substring]: per function, the lines no generated case reached.
Collect with: VERIF_COV=DIR bash run.sh Cxx"""
import ast
import glob
import pickle
import sys

hit = set()
for f in glob.glob(sys.argv[1] + '/*.pkl'):
    hit |= pickle.load(open(f, 'rb'))
files = sorted({f for f, _ in hit})
want = sys.argv[2] if len(sys.argv) > 2 else ''
tot = cov = 0
for f in files:
    if want and want not in f or '/tests/' in f:
        continue
    src = open(f).read()
    code = compile(src, f, 'exec')
    rows = []

    def walk(c, name):
        lines = {l for _, _, l in c.co_lines() if l and l != c.co_firstlineno}
        rows.append((name, lines))
        for k in c.co_consts:
            if hasattr(k, 'co_code'):
                walk(k, (name + '.' + k.co_name).lstrip('.'))
    for k in code.co_consts:
        if hasattr(k, 'co_code'):
            walk(k, k.co_name)
    h = {n for g, n in hit if g == f}
    classes = {n.name for n in ast.walk(ast.parse(src)) if isinstance(n, ast.ClassDef)}
    n = c = 0
    out = []
    for name, lines in rows:
        if name.split('.')[-1] in classes or 'demo' in name.lower() or 'plot' in name.lower() or 'test' in name.lower():
            continue
        n += len(lines)
        c += len(lines & h)
        miss = sorted(lines - h)
        if miss:
            out.append('  %-45s %3d/%3d  %s' % (name, len(lines & h), len(lines), 'NEVER' if len(miss) == len(lines) else ' '.join(map(str, miss[:14]))))
    tot += n
    cov += c
    print('%s %d/%d' % (f.split('/wafo/')[-1], c, n))
    if want:
        print('\n'.join(out))
print('total %d/%d' % (cov, tot))
