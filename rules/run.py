#!/usr/bin/env python3
"""Decides one property by static analysis of /repo's sources.

usage: run.py PROPERTY        exit 0 held, 1 violated, 2 no answer
"""
import hashlib
import importlib
import json
import os
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('FK_REPO', '/repo')
sys.path.insert(0, os.path.join(VERIF, 'rules'))
import fk  # noqa: E402
import names  # noqa: E402

TOOLSRC = os.path.join(VERIF, 'engine', 'fkir.cpp')
CXX = 'clang++-18'


def tool():
    """path of the lowering tool, building it when its source changed"""
    h = hashlib.sha256(open(TOOLSRC, 'rb').read()).hexdigest()[:16]
    d = os.path.join(VERIF, '.build')
    os.makedirs(d, exist_ok=True)
    exe = os.path.join(d, 'fkir-' + h)
    if not os.path.exists(exe):
        tmp = exe + '.%d' % os.getpid()
        subprocess.run([CXX, '-std=c++17', '-fno-rtti', '-O1', '-I/usr/lib/llvm-18/include', TOOLSRC, '-o', tmp,
                        '-L/usr/lib/llvm-18/lib', '-l:libclang-cpp.so.18.1', '-lLLVM-18'], check=True)
        os.rename(tmp, exe)
    return exe


class Ctx:
    def __init__(self, prop):
        self.prop = prop
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        self.ok_list = []
        self.bad = []
        self.units = {}
        self.stds = {}
        self.rules = {}
        self.stats = {'translation_units': 0, 'functions_lowered': 0, 'instructions': 0, 'automaton_states': 0, 'automaton_transitions': 0, 'compile_probes': 0}
        self.assumptions = []
        self.tmp = tempfile.mkdtemp(prefix='fk-')

    # ---- inputs
    def unit(self, witness, spec, std='c++17', config='standalone', extra=(), key=None):
        std = self.standard(std)
        k = (witness, tuple(spec), std, config, tuple(extra))
        if k in self.units:
            return self.units[k]
        sp = os.path.join(self.tmp, 'spec%d' % len(self.units))
        out = sp + '.json'
        with open(sp, 'w') as f:
            f.write('\n'.join(spec) + '\n')
        src = witness if os.path.isabs(witness) else os.path.join(VERIF, 'witness', witness)
        inc = ['-I' + os.path.join(REPO, 'include')]
        inc += ['-I' + os.path.join(REPO, 'config', config)]
        cmd = [tool(), sp, out, '--', '/usr/bin/clang++', '-std=' + std, '-O0', '-g', '-w', '-Xclang', '-disable-O0-optnone', '-Xclang', '-fwhole-program-vtables', '-fno-discard-value-names'] + inc + list(extra) + ['-c', src]
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode != 0 or not os.path.exists(out):
            raise fk.AnchorError('lowering of %s failed:\n%s' % (witness, (r.stdout + r.stderr)[-3000:]))
        if 'too large' in r.stderr:
            raise fk.AnchorError(r.stderr[-2000:])
        u = fk.Unit(json.load(open(out)))
        os.unlink(out)
        self.units[k] = u
        self.stats['translation_units'] += 1
        self.stats['functions_lowered'] += len(u.fns)
        self.stats['instructions'] += sum(len(f.ins) for f in u.fns)
        return u

    def standard(self, std, compiler='clang'):
        """std, or C++17 (what the repository's own build uses) when the headers alone do not compile with std"""
        if std == 'c++17':
            return std
        if (std, compiler) not in self.stds:
            exe = {'clang': CXX, 'gcc': 'g++'}[compiler]
            r = subprocess.run([exe, '-std=' + std, '-fsyntax-only', '-w', '-x', 'c++', '-I' + os.path.join(REPO, 'include'), '-I' + os.path.join(REPO, 'config', 'standalone'), '-include', os.path.join(VERIF, 'witness', 'prelude.hpp'), os.path.join(REPO, 'config', 'standalone', 'fakeit.hpp')], capture_output=True, text=True)
            self.stds[(std, compiler)] = std if r.returncode == 0 else 'c++17'
            if r.returncode != 0:
                self.assumptions.append('the headers do not compile as %s with %s; analysed as c++17' % (std, compiler))
        return self.stds[(std, compiler)]

    def compiles(self, code, compiler='clang', std='c++17', config='standalone', extra=()):
        p = os.path.join(self.tmp, 'probe.cpp')
        with open(p, 'w') as f:
            f.write(code)
        exe = {'clang': CXX, 'gcc': 'g++'}[compiler]
        r = subprocess.run([exe, '-std=' + std, '-fsyntax-only', '-w', '-I' + os.path.join(REPO, 'include'), '-I' + os.path.join(REPO, 'config', config)] + list(extra) + [p], capture_output=True, text=True)
        self.stats['compile_probes'] += 1
        return r.returncode == 0, r.stderr

    def compile_all(self, probes, pre=''):
        """[(ok, stderr)] of many probes (code, compiler, std), compiled side by side after the common text `pre`"""
        from concurrent.futures import ThreadPoolExecutor
        probes = [(code, compiler, self.standard(std, compiler)) for code, compiler, std in probes]
        flags = ['-fsyntax-only', '-w', '-I' + os.path.join(REPO, 'include'), '-I' + os.path.join(REPO, 'config', 'standalone')]
        exe = {'clang': CXX, 'gcc': 'g++'}
        head = {}
        for compiler, std in sorted({(c, s) for _, c, s in probes}):
            d = os.path.join(self.tmp, 'pre-%s-%s' % (compiler, std))
            os.makedirs(d, exist_ok=True)
            h = os.path.join(d, 'pre.hpp')
            with open(h, 'w') as f:
                f.write('#include "%s"\n' % os.path.join(VERIF, 'witness', 'prelude.hpp') + pre)
            out = h + ('.gch' if compiler == 'gcc' else '.pch')
            r = subprocess.run([exe[compiler], '-std=' + std, '-x', 'c++-header'] + flags[1:] + [h, '-o', out], capture_output=True, text=True)
            if r.returncode != 0:
                raise fk.AnchorError('the common part of the probes does not compile with %s -std=%s:\n%s' % (compiler, std, r.stderr[:2000]))
            head[(compiler, std)] = ['-include', h] if compiler == 'gcc' else ['-include-pch', out]

        def one(k):
            code, compiler, std = probes[k]
            p = os.path.join(self.tmp, 'probe%d.cpp' % k)
            with open(p, 'w') as f:
                f.write(code)
            r = subprocess.run([exe[compiler], '-std=' + std] + head[(compiler, std)] + flags + [p], capture_output=True, text=True)
            return r.returncode == 0, r.stderr
        self.stats['compile_probes'] += len(probes)
        with ThreadPoolExecutor(max_workers=8) as ex:
            return list(ex.map(one, range(len(probes))))

    # ---- results
    def rule(self, rid, text):
        self.rules[rid] = text

    def ok(self, rid, instance):
        self.ok_list.append((rid, instance))

    def fail(self, rid, instance, msg, path=()):
        self.bad.append((rid, instance, msg, list(path)))

    def require(self, rid, instance, cond, msg, path=()):
        if cond:
            self.ok(rid, instance)
        else:
            self.fail(rid, instance, msg, path)
        return cond

    def sim(self, rid, fn, step, init, instance=None, **kw):
        assert init is not None
        inst = instance or fn.short()
        s = fk.Sim(fn, step, init, **kw)
        try:
            s.run()
            self.ok(rid, inst)
            return s
        except fk.Violation as e:
            self.fail(rid, inst, str(e), ['in ' + fn.short()] + getattr(e, 'path', []))
            return None
        finally:
            self.stats['automaton_states'] += s.visited
            self.stats['automaton_transitions'] += s.transitions

    def anchor(self, cond, msg):
        if not cond:
            raise fk.AnchorError(msg)

    def need(self, rid, n):
        """the rule must have been evaluated on at least n instances"""
        c = sum(1 for o in self.ok_list if o[0] == rid) + sum(1 for b in self.bad if b[0] == rid)
        if c < n:
            raise fk.AnchorError('rule %s matched %d instance(s), expected at least %d' % (rid, c, n))


def known():
    out = {}
    p = os.path.join(VERIF, 'known-findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('known: '):
                # known: property=<id> rule=<rid> instance=<text> :: <what fails>
                head, _, what = l[7:].partition(' :: ')
                m = fk.re.match(r'property=(\S+) rule=(\S+) instance=(.*)$', head)
                if m:
                    out[m.groups()] = what
    return out


def main():
    global REPO
    prop = sys.argv[1]
    if prop == '--setup':
        print(tool())
        return
    t0 = time.time()
    ctx = Ctx(prop)
    status = None
    err = None
    try:
        REPO, renamed = names.canonical(REPO, ctx.tmp)
        if renamed:
            ctx.assumptions.append('renamed in the sources, analysed under the known name: ' + ', '.join('%s for %s' % p for p in sorted(renamed.items())))
        mod = importlib.import_module('props.' + prop.lower())
        mod.check(ctx)
        if not ctx.ok_list and not ctx.bad:
            raise fk.AnchorError('nothing was checked')
    except fk.AnchorError as e:
        err = 'anchor: %s' % e
    except Exception:
        err = traceback.format_exc()[-1500:]
    finally:
        subprocess.run(['rm', '-rf', ctx.tmp])
    kn = known()
    real = []
    for b in ctx.bad:
        k = (prop, b[0], b[1])
        if k in kn:
            print('KNOWN-FINDING: property=%s %s' % (prop, kn[k]))
        else:
            real.append(b)
    ev_dir = os.environ.get('FK_EVIDENCE') or os.path.join(VERIF, 'evidence')
    os.makedirs(ev_dir, exist_ok=True)
    rid_counts = {}
    for r, inst in ctx.ok_list:
        rid_counts.setdefault(r, {'held': 0, 'violated': 0, 'rule': ctx.rules.get(r, '')})['held'] += 1
    for r, inst, m, p in ctx.bad:
        rid_counts.setdefault(r, {'held': 0, 'violated': 0, 'rule': ctx.rules.get(r, '')})['violated'] += 1
    cov = {'explanation': 'Static analysis of the lowered and expanded sources under /repo: ' + (sys.modules.get('props.' + prop.lower()).__doc__ or '').strip() if 'props.' + prop.lower() in sys.modules else 'no module',
           'rules': rid_counts, 'instances': sorted(set('%s: %s' % (r, i) for r, i in ctx.ok_list))[:200], 'obligations': len(ctx.ok_list) + len(ctx.bad), 'discharged': len(ctx.ok_list)}
    cov.update(ctx.stats)
    ev = {'property': prop, 'tier': ctx.tier if ctx.tier in ('quick', 'thorough') else 'quick', 'seed': int(os.environ.get('VERIF_SEED', '0') or 0), 'level': 'other', 'coverage': cov,
          'assumptions': ctx.assumptions + ['memory exhaustion is not considered', 'the witness instantiations stand for all instantiations of the same template'], 'wall_s': round(time.time() - t0, 3), 'violations': len(real)}
    if real:
        d = os.path.join(ev_dir, 'replay')
        os.makedirs(d, exist_ok=True)
        rp = os.path.join(d, prop + '.txt')
        with open(rp, 'w') as f:
            for r, inst, m, p in real:
                f.write('rule %s: %s\n  instance: %s\n  violation: %s\n' % (r, ctx.rules.get(r, ''), inst, m))
                for x in p:
                    f.write('    %s\n' % x)
                f.write('\n')
    if err:
        ev['coverage']['error'] = err[-2000:]
    with open(os.path.join(ev_dir, prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    for r, inst, m, p in real:
        print('%s [%s] %s\n    %s%s' % (prop, r, inst, m, ''.join('\n      ' + x for x in p[-12:])))
    if real:
        print('VIOLATION property=%s replay=%s' % (prop, rp))
        if err:
            print('(also: %s)' % err)
        sys.exit(1)
    if err:
        print(err)
        print('ERROR property=%s: no answer' % prop)
        sys.exit(2)
    print('%s held: %d obligations over %d rules, %d functions, %.1fs' % (prop, len(ctx.ok_list), len(rid_counts), ctx.stats['functions_lowered'], time.time() - t0))
    sys.exit(0)


if __name__ == '__main__':
    main()
