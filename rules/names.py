"""Reads the sources under the names the rules know.

The rules find functions, classes and fields by name. A consistent renaming
changes no behaviour, so when names the rules know are gone from the sources and
new ones stand in the same places, the analysis works on a copy in which the new
names are replaced by the old ones. The replaced name must be new and the name
put in its place unused, so the copy differs from the sources in names only,
whichever pairs are chosen.

usage: names.py REPO        records the names of REPO in names.json
"""
import collections
import json
import os
import re
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
TABLE = os.path.join(HERE, 'names.json')
DIRS = ('include', 'config')
TOKEN = re.compile(r'//[^\n]*|/\*.*?\*/|#[ \t]*include[^\n]*|"(?:\\.|[^"\\\n])*"|\'(?:\\.|[^\'\\\n])*\'|[A-Za-z_]\w*|\d[\w.]*|\S', re.S)
IDENT = re.compile(r'[A-Za-z_]\w*\Z')
SPAN = 3
SYSTEM = ('/usr/include/c++', '/usr/lib/llvm-18/lib/clang')


def sources(repo):
    for d in DIRS:
        for root, _, files in sorted(os.walk(os.path.join(repo, d))):
            for f in sorted(files):
                if f.endswith(('.hpp', '.h')):
                    p = os.path.join(root, f)
                    yield os.path.relpath(p, repo), open(p, encoding='utf-8', errors='surrogateescape', newline='').read()


def code(text):
    return [t for t in TOKEN.findall(text) if not t.startswith(('//', '/*')) and not re.match(r'#[ \t]*include', t)]


def windows(files, wanted):
    """name -> multiset of the places it stands in, other wanted names left open"""
    out = collections.defaultdict(collections.Counter)
    first = {}
    n = 0
    for name in sorted(files):
        toks = files[name]
        for i, t in enumerate(toks):
            n += 1
            if t in wanted:
                w = toks[max(0, i - SPAN):i] + ['@'] + toks[i + 1:i + 1 + SPAN]
                out[t][tuple('?' if x in wanted else x for x in w)] += 1
                first.setdefault(t, n)
    return out, first


def in_system(names):
    """those of the names the compiler's own headers use"""
    names = sorted(names)
    if not names:
        return set()
    r = subprocess.run(['grep', '-rhowF'] + [x for n in names for x in ('-e', n)] + [d for d in SYSTEM if os.path.isdir(d)], capture_output=True, text=True, errors='replace')
    return set(r.stdout.split())


def renamings(base, cur):
    """new name -> known name"""
    old = {t for ts in base.values() for t in ts if IDENT.match(t)}
    new = {t for ts in cur.values() for t in ts if IDENT.match(t)}
    gone, fresh = old - new, new - old
    if not gone or not fresh:
        return {}
    fresh -= in_system(fresh)
    wg, fg = windows(base, gone)
    wf, ff = windows(cur, fresh)
    scores = []
    for g in gone:
        for f in fresh:
            common = sum((wg[g] & wf[f]).values())
            s = common / max(sum(wg[g].values()), sum(wf[f].values()))
            if s >= 0.5:
                scores.append((-s, abs(fg[g] - ff[f]), g, f))
    out = {}
    for _, _, g, f in sorted(scores):
        if f not in out and g not in out.values():
            out[f] = g
    return out


def canonical(repo, scratch):
    """(tree to analyse, {new name: known name})"""
    base = json.load(open(TABLE))
    texts = dict(sources(repo))
    ren = renamings(base, {n: code(t) for n, t in texts.items()})
    if not ren:
        return repo, ren
    to = os.path.join(scratch, os.path.basename(os.path.abspath(repo)))
    for d in DIRS:
        shutil.copytree(os.path.join(repo, d), os.path.join(to, d))
    for n, t in texts.items():
        s = TOKEN.sub(lambda m: ren.get(m.group(0), m.group(0)), t)
        if s != t:
            with open(os.path.join(to, n), 'w', encoding='utf-8', errors='surrogateescape', newline='') as f:
                f.write(s)
    return to, ren


if __name__ == '__main__':
    with open(TABLE, 'w') as f:
        json.dump({n: code(t) for n, t in sources(sys.argv[1])}, f, separators=(',', ':'))
        f.write('\n')
