#!/usr/bin/env python3
"""Runs the checks against small edits of a copy of /repo, both ways.

usage: run.py [-k SUBSTR] [-p PROP] [mutants|refactors]
Breaking edits must be reported by the named checks; behaviour-preserving
edits must leave every check quiet.
"""
import concurrent.futures
import glob
import os
import re
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)


def load():
    """cases/*.txt: '### id kind props', then blocks '@@ file', '<<<', old, '===', new, '>>>'"""
    cases = []
    for p in sorted(glob.glob(os.path.join(HERE, 'cases', '*.txt'))):
        cur = None
        lines = open(p).read().split('\n')
        k = 0
        while k < len(lines):
            l = lines[k]
            if l.startswith('### '):
                f = l.split()
                cur = {'id': f[1], 'kind': f[2], 'props': f[3:], 'edits': []}
                cases.append(cur)
            elif l.startswith('@@ '):
                file = l[3:].strip()
            elif l == '<<<':
                j = k + 1
                old = []
                while lines[j] != '===':
                    old.append(lines[j])
                    j += 1
                j += 1
                new = []
                while lines[j] != '>>>':
                    new.append(lines[j])
                    j += 1
                cur['edits'].append((file, '\n'.join(old), '\n'.join(new)))
                k = j
            k += 1
    return cases


def props():
    return sorted(os.path.basename(p)[:-3].upper() for p in glob.glob(os.path.join(VERIF, 'rules', 'props', 'p*.py')))


def run(case, only):
    d = tempfile.mkdtemp(prefix='fkself-')
    try:
        for s in ('include', 'config'):
            shutil.copytree(os.path.join('/repo', s), os.path.join(d, 'repo', s))
        vd = os.path.join(d, 'verif')
        os.makedirs(vd)
        for s in ('rules', 'engine', 'witness', '.build', 'known-findings.txt'):
            if os.path.exists(os.path.join(VERIF, s)):
                os.symlink(os.path.join(VERIF, s), os.path.join(vd, s))
        for file, old, new in case['edits']:
            p = os.path.join(d, 'repo', file)
            t = open(p).read()
            if t.count(old) < 1:
                return case, [('EDIT', 9, 'text not found in ' + file)]
            t = t.replace(old, new, 1)
            open(p, 'w').write(t)
        env = dict(os.environ, FK_REPO=os.path.join(d, 'repo'), FK_EVIDENCE=os.path.join(d, 'ev'))
        out = []
        for pr in (case['props'] if case['kind'] == 'mutant' else props()):
            if only and pr != only:
                continue
            if pr not in props():
                continue
            r = subprocess.run([sys.executable, os.path.join(VERIF, 'rules', 'run.py'), pr], env=env, capture_output=True, text=True)
            out.append((pr, r.returncode, r.stdout))
        return case, out
    finally:
        shutil.rmtree(d)


def main():
    a = sys.argv[1:]
    only = None
    sub = None
    kinds = ('mutant', 'refactor')
    verbose = False
    while a:
        x = a.pop(0)
        if x == '-p':
            only = a.pop(0)
        elif x == '-k':
            sub = a.pop(0)
        elif x == '-v':
            verbose = True
        elif x in ('mutants', 'refactors'):
            kinds = (x[:-1],)
    cases = [c for c in load() if c['kind'] in kinds and (not sub or re.search(sub, c['id'])) and (not only or c['kind'] == 'refactor' or only in c['props'])]
    bad = 0
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        for case, out in ex.map(lambda c: run(c, only), cases):
            for pr, rc, txt in out:
                want = 1 if case['kind'] == 'mutant' else 0
                if rc != want:
                    bad += 1
                    print('%-9s %-34s %s exit %d (want %d)' % (case['kind'], case['id'], pr, rc, want))
                    print('     ' + '\n     '.join(txt.strip().split('\n')[-(30 if verbose else 4):]))
                elif verbose:
                    print('%-9s %-34s %s ok' % (case['kind'], case['id'], pr))
                    if rc == 1:
                        print('     ' + '\n     '.join(txt.strip().split('\n')[:3]))
    print('%d cases, %d unexpected results' % (len(cases), bad))
    sys.exit(1 if bad else 0)


if __name__ == '__main__':
    main()
