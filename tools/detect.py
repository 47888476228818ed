"""Runs the checks of each planted bug's property against it, in scratch copies.

detect.py [BUG ...]: updates tools/design/detected.json"""
import glob
import json
import os
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.path.join(V, 'tools', 'design', 'detected.json')
ALSO = {'stale-equal-reference': ['C06'], 'observable-detach-first': ['C06'],
        'immutable-load-unvalidated': ['C30', 'C21']}


def one(name):
    with open(os.path.join(V, 'seeded', name, 'meta.json')) as fid:
        checks = [json.load(fid)['property']] + ALSO.get(name, [])
    work = '/tmp/plant/det-' + name
    shutil.rmtree(work, ignore_errors=True)
    subprocess.run(['cp', '-a', '/repo', work], check=True)
    got = []
    try:
        subprocess.run(['git', '-C', work, 'apply',
                        os.path.join(V, 'seeded', name, 'patch.diff')], check=True)
        for check in dict.fromkeys(checks):
            proc = subprocess.run(
                ['/opt/venv/bin/python', os.path.join(V, 'run.py'), check, '--workers', '3'],
                cwd=V, env=dict(os.environ, VERIF_REPO=work, VERIF_SEED='1', VERIF_FAST='1'),
                capture_output=True, text=True)
            if proc.returncode == 1:
                where = [l.split(':')[0] for l in proc.stdout.splitlines()
                         if l.startswith(check + '/')]
                got += where[:1]
    finally:
        shutil.rmtree(work)
    return name, got


def main():
    names = sys.argv[1:] or [os.path.basename(os.path.dirname(p)) for p in
                             sorted(glob.glob(os.path.join(V, 'seeded', '*', 'meta.json')))]
    os.makedirs('/tmp/plant', exist_ok=True)
    known = {}
    if os.path.exists(OUT):
        with open(OUT) as fid:
            known = json.load(fid)
    with ThreadPoolExecutor(3) as pool:
        for name, got in pool.map(one, names):
            known[name] = got
            if not got:
                print('MISSED', name, flush=True)
    with open(OUT, 'w') as fid:
        json.dump(known, fid, indent=0, sort_keys=True)
        fid.write('\n')


if __name__ == '__main__':
    main()
