#!/usr/bin/env python3
"""Runs the same seeds twice in one process, as an explicit replay, and in two processes; compares."""
import importlib.machinery, importlib.util, subprocess, sys, os, shutil
l = importlib.machinery.SourceFileLoader('chk', os.path.dirname(os.path.abspath(__file__)) + '/../check')
chk = importlib.util.module_from_spec(importlib.util.spec_from_loader('chk', l))
l.exec_module(chk)
out = '/tmp/vp-determinism-%d' % os.getpid()
chk.build(out)
props = sys.argv[1].split(',') if len(sys.argv) > 1 else ['C%02d' % i for i in range(1, 17)]
VM = int(os.environ.get('VP_SECOND', '21'))
n = sys.argv[2] if len(sys.argv) > 2 else '400'
try:
    for p in props:
        ps = [subprocess.Popen(chk.jvm(v, out) + ['digests', out, p, '1', n], stdout=subprocess.PIPE, text=True) for v in (21, VM)]
        o = [q.communicate()[0].split('\n') for q in ps]
        d = [x for x in o[0] + o[1] if x.startswith('DIFFERS')]
        bad = [(x, y) for x, y in zip([x for x in o[0] if not x.startswith('D')], [y for y in o[1] if not y.startswith('D')]) if x != y]
        rows = [sum(x.startswith(p + ' ') for x in y) for y in o]
        if rows != [int(n)] * 2 or any(q.returncode not in (0, 1) for q in ps):
            sys.exit('%s: incomplete output %s' % (p, rows))
        print(p, rows[0], 'seeds; in-process differences', len(d), 'between processes', len(bad))
        for x in d[:2]:
            print('  ', x[:1500])
        for x in bad[:2]:
            print('  ', x)
finally:
    shutil.rmtree(out, ignore_errors=True)
