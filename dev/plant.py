"""Plants one bug: python3 dev/plant.py SPEC.py (development only).

SPEC.py defines ID, PROPERTY, NEEDS, BREAKS, EDITS [(file, old, new)] and DEMO
(a Python program run with the tree as its working directory, exit 0 = fine).
Writes seeded/ID if the edits compile, the suite passes with them and the demo
passes without them and fails with them; then says which checks see it.
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
DEMO_SH = '''#!/bin/bash
# exit 0: the property holds in the tree that is the working directory
exec /opt/venv/bin/python -B "$(dirname "$0")/demo.py"
'''
HEAD = '''import os
import sys

sys.path[:0] = [os.getcwd(), os.path.dirname(os.path.abspath(__file__))]
sys.dont_write_bytecode = True

'''


def run(cmd, cwd, **kw):
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONPATH=cwd)
    return subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def main(spec):
    s = {}
    exec(compile(open(spec).read(), spec, 'exec'), s)
    out = os.path.join(HERE, 'seeded', s['ID'])
    tmp = tempfile.mkdtemp(prefix='plant')
    try:
        wt = os.path.join(tmp, 'wt')
        shutil.copytree('/repo', wt, ignore=shutil.ignore_patterns('__pycache__'))
        for name, old, new in s['EDITS']:
            p = os.path.join(wt, name)
            text = open(p).read()
            if text.count(old) != 1:
                print('%s: %d times in %s: %r' % (s['ID'], text.count(old), name, old[:60]))
                return 1
            open(p, 'w').write(text.replace(old, new))
        diff = run(['git', 'diff'], wt).stdout
        d = os.path.join(tmp, 'demo')
        os.makedirs(d)
        open(os.path.join(d, 'demo.sh'), 'w').write(DEMO_SH)
        open(os.path.join(d, 'demo.py'), 'w').write(HEAD + s['DEMO'].lstrip())
        for n in s.get('FILES', ()):
            shutil.copy(os.path.join(HERE, 'dev', 'plants', 'lib', n), d)
        os.chmod(os.path.join(d, 'demo.sh'), 0o755)
        a = run(['bash', d + '/demo.sh'], '/repo')
        b = run(['bash', d + '/demo.sh'], wt)
        if a.returncode or not b.returncode:
            print('%s: demo %d without, %d with\n%s\n%s' % (s['ID'], a.returncode, b.returncode, a.stdout[-600:],
                                                           b.stdout[-600:]))
            return 1
        t = run([PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', 'tests'], wt)
        if t.returncode:
            print('%s: suite fails\n%s' % (s['ID'], t.stdout[-600:]))
            return 1
        alone = run([PY, '-c', 'import importlib,pkgutil,pyasn1_modules as p\n'
                     'for m in pkgutil.iter_modules(p.__path__): importlib.import_module("pyasn1_modules."+m.name)'], wt)
        if alone.returncode:
            print('%s: does not build\n%s' % (s['ID'], alone.stdout[-600:]))
            return 1
        if os.path.isdir(out):
            shutil.rmtree(out)
        shutil.copytree(d, out)
        open(os.path.join(out, 'patch.diff'), 'w').write(diff)
        with open(os.path.join(out, 'meta.json'), 'w') as f:
            json.dump({'property': s['PROPERTY'], 'needs': s['NEEDS'], 'what_it_breaks': s['BREAKS']}, f, indent=1)
            f.write('\n')
        from concurrent.futures import ThreadPoolExecutor
        pids = [c['property'] for c in json.load(open(os.path.join(HERE, 'MANIFEST.json')))['checks']]
        with ThreadPoolExecutor(8) as ex:
            got = list(ex.map(lambda p: run(['python3', HERE + '/check.py', p, '--root', wt, '--out', tmp + '/ev'],
                                            HERE), pids))
        seen = [p for p, g in zip(pids, got) if g.returncode == 1]
        odd = [(p, g.returncode, g.stdout[-300:]) for p, g in zip(pids, got) if g.returncode not in (0, 1)]
        own = s['PROPERTY'] in seen
        print('%-8s %s property %s, reported by %s%s' % (s['ID'], 'CAUGHT' if own else 'MISSED', s['PROPERTY'],
                                                        ' '.join(seen) or 'none', ' ODD %r' % odd if odd else ''))
        for p, g in zip(pids, got):
            if g.returncode == 1 and (p == s['PROPERTY'] or '-v' in sys.argv):
                print('\n'.join('    ' + x[:200] for x in g.stdout.split('\n') if x.startswith('  '))[:700])
        return 0
    finally:
        shutil.rmtree(tmp)


if __name__ == '__main__':
    sys.exit(max(main(x) for x in sys.argv[1:] if not x.startswith('-')))
