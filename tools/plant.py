"""Builds and confirms one planted bug in a scratch copy; keeps it in seeded/.

plant.py SPEC.py: SPEC defines ID, PROPERTY, FILE, EDITS=[(old, new)], DEMO
(python source, asserts), NEEDS, BREAKS. --check also runs the check on it."""
import concurrent.futures
import json
import os
import shutil
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SHELL = '''#!/bin/bash
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" exec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"
'''


def run(cmd, **kwargs):
    return subprocess.run(cmd, capture_output=True, text=True, **kwargs)


def confirm(spec, checks):
    work = '/tmp/plant/' + spec['ID']
    shutil.rmtree(work, ignore_errors=True)
    shutil.copytree('/repo', work, symlinks=True)
    out = os.path.join(VERIF, 'seeded', spec['ID'])
    try:
        edits = spec['EDITS']
        if isinstance(edits, dict):
            edits = [(f, o, n) for f, pairs in edits.items() for o, n in pairs]
        else:
            edits = [(spec['FILE'], o, n) for o, n in edits]
        for name, old, new in edits:
            path = os.path.join(work, name)
            text = open(path).read()
            if text.count(old) != 1:
                return '%d matches of %r' % (text.count(old), old)
            open(path, 'w').write(text.replace(old, new))
        patch = run(['git', '-C', work, 'diff', '-U3']).stdout
        # only lines of the original repository may change
        line = 0
        name = None
        for row in run(['git', '-C', work, 'diff', '-U0']).stdout.splitlines():
            if row.startswith('--- a/'):
                name = row[6:]
            elif row.startswith('@@'):
                start, _, count = row.split()[1][1:].partition(',')
                for num in range(int(start), int(start) + int(count or 1)):
                    blame = run(['git', '-C', '/repo', 'blame', '-s', '-L', '%d,%d' % (num, num),
                                 '--', name]).stdout
                    if blame and not blame.startswith(spec.get('BASE', '^')):
                        return 'line of a fix: ' + blame
        demo = spec['DEMO']
        os.makedirs(out, exist_ok=True)
        open(os.path.join(out, 'patch.diff'), 'w').write(patch)
        open(os.path.join(out, 'demo.py'), 'w').write(demo)
        open(os.path.join(out, 'demo.sh'), 'w').write(SHELL)
        os.chmod(os.path.join(out, 'demo.sh'), 0o755)
        json.dump({'property': spec['PROPERTY'], 'needs': spec['NEEDS'],
                   'what_it_breaks': spec['BREAKS']},
                  open(os.path.join(out, 'meta.json'), 'w'), indent=1)
        sh = ['bash', os.path.join(out, 'demo.sh')]
        good = run(sh, cwd='/repo')
        bad = run(sh, cwd=work)
        problem = None
        if good.returncode != 0:
            problem = 'demo fails on /repo: ' + good.stderr[-600:]
        elif bad.returncode == 0:
            problem = 'demo passes with the bug'
        else:
            env = dict(os.environ, PYTHONPATH=work, PYTHONDONTWRITEBYTECODE='1')
            test = run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-x',
                        '-p', 'no:cacheprovider', 'tests'], cwd=work, env=env)
            if test.returncode != 0:
                problem = 'tests fail: ' + test.stdout[-600:]
        if problem:
            shutil.rmtree(out)
            return problem
        lines = ['%s confirmed; %s' % (spec['ID'], bad.stderr.strip().splitlines()[-1][:150])]
        for check in checks or [spec['PROPERTY']]:
            res = run([sys.executable, os.path.join(VERIF, 'run.py'), check], cwd=VERIF,
                      env=dict(os.environ, VERIF_REPO=work, VERIF_SEED='1'))
            rows = [r for r in res.stdout.splitlines() if r.startswith(check)]
            lines.append('   %s -> %d %s' % (check, res.returncode, ' | '.join(r[:170] for r in rows[1:3])))
        print('\n'.join(lines), flush=True)
        return None
    finally:
        shutil.rmtree(work, ignore_errors=True)


def main():
    specs = []
    for path in sys.argv[1:]:
        for part in open(path).read().split('\n#---\n'):
            spec = {}
            exec(part, spec)                                    # pylint: disable=exec-used
            specs.append(spec)

    def one(spec):
        try:
            err = confirm(spec, spec.get('CHECKS'))
        except Exception as exc:                                # pylint: disable=broad-except
            err = repr(exc)
        if err:
            print(spec['ID'], 'NOT KEPT:', err, flush=True)
    with concurrent.futures.ThreadPoolExecutor(5) as pool:
        list(pool.map(one, specs))


if __name__ == '__main__':
    main()
