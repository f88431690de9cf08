#!/usr/bin/env python3
"""Development aid (no registered check uses it): runs the behaviour-preserving variants of every dev/v_*.py table against the checks they are
not listed under.  cross.py [C16,C17,...]: those checks; without arguments every check whose evidence names a function of a changed file."""
import glob, json, os, sys
sys.argv, only = [sys.argv[0]], sys.argv[1].split(',') if len(sys.argv) > 1 else None
HERE = os.path.dirname(os.path.abspath(__file__))
src = open(HERE + '/variants.py').read().rsplit('\nmain()', 1)[0]
g = {'__file__': HERE + '/variants.py', '__name__': 'v'}
exec(src, g)
sys.path.insert(0, os.path.dirname(HERE) + '/engine')
import ir
prog = ir.load_repo()
prog = prog[0] if isinstance(prog, tuple) else prog
where = {}
for f in prog.fns.values():
    where.setdefault(f.q, set()).add(os.path.basename(str(f.file)))
files = {}
for e in glob.glob(os.path.dirname(HERE) + '/evidence/C*.json'):
    e = json.load(open(e))
    if e['property'] in ('C16', 'C17', 'C21', 'C25'):
        continue
    for q in e['coverage']['functions']:
        for b in where.get(q.split('(')[0], ()):
            files.setdefault(b, set()).add(e['property'])
jobs = []
for t in sorted(glob.glob(HERE + '/v_*.py')):
    d = {}
    exec(open(t).read(), d)
    for name, kind, props, file, edits in d.get('V', ()):
        if kind != 'same':
            continue
        props = props.split() if isinstance(props, str) else props
        if only:
            ps = only
        else:
            fs = {e[2] if len(e) > 2 else file for e in edits}
            ps = sorted(set().union(*[files.get(f, set()) for f in fs]) - set(props))
        ps = [p for p in ps if p not in props]
        if ps:
            jobs.append((os.path.basename(t)[2:-3] + ':' + name, kind, ' '.join(ps), file, edits))
print(len(jobs), 'variants', sum(len(j[2].split()) for j in jobs), 'runs', flush=True)
bad = 0
os.environ['COMPILE'] = '0'
with g['ThreadPoolExecutor'](int(os.environ.get('JOBS', '4'))) as ex:
    for name, kind, r in ex.map(g['run'], jobs):
        if 'WRONG' in r or 'FAILED' in r:
            bad += 1
            print('%-34s %s' % (name, ' | '.join(x for x in r.split(' | ') if 'WRONG' in x or 'FAILED' in x)[:400]), flush=True)
print(bad, 'wrong')
