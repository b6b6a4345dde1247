#!/usr/bin/env python3
"""run.py <property> [tier]: runs the check of a property; run.py replay <file>: runs a recorded failure again"""
import importlib
import json
import os
import shutil
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
PY = '/opt/venv/bin/python'
if os.path.exists(PY) and os.path.realpath(sys.prefix) != '/opt/venv' and os.environ.get('VERIF_REEXEC') != '1':
    os.environ['VERIF_REEXEC'] = '1'
    os.execv(PY, [PY, '-B', os.path.abspath(__file__)] + sys.argv[1:])
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(HERE, 'harness'))
import common
common.setup_repo()

MODULES = ['checks_atom', 'checks_tables', 'checks_notation', 'checks_nist']


def find(prop):
    for m in MODULES:
        f = getattr(importlib.import_module(m), 'run_' + prop, None)
        if f:
            return f
    raise SystemExit(f'no check for {prop}')


def known(prop):
    """Findings listed in KNOWN_FINDINGS.txt: 'finding: property=<id> key=<text>' suppresses messages containing <text>"""
    out = []
    path = os.path.join(HERE, 'KNOWN_FINDINGS.txt')
    if os.path.exists(path):
        for line in open(path, encoding='utf-8'):
            if line.startswith(f'finding: property={prop} key='):
                out.append(line.split('key=', 1)[1].strip())
    return out


def main():
    if len(sys.argv) == 3 and sys.argv[1] == 'replay':
        return again(sys.argv[2])
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    scratch = tempfile.mkdtemp(prefix=f'verif-{prop}-')
    os.environ['MPLCONFIGDIR'] = os.path.join(scratch, 'mpl')
    os.makedirs(os.environ['MPLCONFIGDIR'])
    cwd = os.path.join(scratch, 'cwd')
    os.makedirs(cwd)
    os.chdir(cwd)
    ctx = common.Ctx(prop, tier, seed, scratch)
    try:
        find(prop)(ctx)
    except common.Machinery as e:
        print(f'MACHINERY FAILURE in the check of {prop}: {e}', file=sys.stderr)
        if not ctx.violations:
            return 3
    finally:
        os.chdir(HERE)
        shutil.rmtree(scratch, ignore_errors=True)
    keys = known(prop)
    new, old = [], []
    for msg, rep in ctx.violations:
        hit = [k for k in keys if k in msg]
        (old if hit else new).append((msg, rep))
    for k in keys:
        print(f'KNOWN-FINDING: property={prop} {k}')
    ctx.violations = new
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', f'{prop}.json'), 'w', encoding='utf-8') as f:
        json.dump(ctx.evidence(), f, indent=1, default=str)
    print(f'{prop} {tier}: {ctx.states} states, {ctx.transitions} transitions, {ctx.traces} traces replayed, '
          f'{len(new)} violations, {ctx.evidence()["wall_s"]} s')
    if not new:
        return 0
    os.makedirs(os.path.join(HERE, 'out'), exist_ok=True)
    for n, (msg, rep) in enumerate(new[:5]):
        path = os.path.join(HERE, 'out', f'{prop}-{n}.json')
        with open(path, 'w', encoding='utf-8') as f:
            json.dump({'property': prop, 'message': msg, 'tier': tier, 'verif_seed': seed, **rep}, f, indent=1, default=str)
        print(f'  {msg[:600]}')
        if n == 0:
            print(f'VIOLATION property={prop} replay={path}')
    return 1


def again(path):
    d = json.load(open(path, encoding='utf-8'))
    if d.get('kind') != 'behaviour':
        os.environ['VERIF_SEED'] = str(d.get('verif_seed', 1))
        sys.argv = [sys.argv[0], d['property'], d.get('tier', 'quick')]
        return main()
    import checks_atom
    import engine
    with tempfile.TemporaryDirectory() as scratch:
        os.environ['MPLCONFIGDIR'] = scratch
        r = engine.replay(d['behaviour'], getattr(checks_atom, d['checker']), d['seed'], scratch)
    print(r[2] + '\n' + r[0] if r else 'no violation')
    return 1 if r else 0


if __name__ == '__main__':
    sys.exit(main())
