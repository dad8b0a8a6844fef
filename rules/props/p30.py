"""For every kind of result the witness lets the language itself value-initialise a
static object and fakes a method with that result. What the faked method (and
Return() without a value) hands back is followed by a content analysis: the initial
bytes of the static objects, the constructors run on them and the copies made of
them. It has to be what the language gives."""
from common import *
from stubs import *

TECHNIQUE = 'content dataflow over the action bodies (initial bytes of statics, constructors run on them, copies, moves), compared with the compiler\'s own value-initialisation; type-information and exit analysis for results that cannot be built'
NOTE = 'every result type of the witness (all builtin types, pointers, enumerations, aggregates, classes, references), all calls, first or later'

OPQ = ['opaque ::appendAction\\(', 'opaque ::commit\\(']
SPEC = ['root fake ^w_fake_', 'over act ^fakeit::Action<.*>::invoke', 'root want ^w_want_', 'root ret ^w_ret_', 'root always ^w_always_', 'root many ^w_many', 'root void ^w_voidmany', 'inline ^kinds::(Derived|Mixed|Plain|Small|Wide|Preset)::[A-Za-z]+\\(\\)'] + OPQ
DEDICATED = 'fakeit::DefaultValueInstatiationException'


def plain(n):
    return re.sub(r'\[abi:\w+\]', '', n)


class Unclear(Exception):
    pass


class Content:
    """state: frozenset of (place, bytes, constructors); bytes is a frozenset of (offset, byte)"""

    def __init__(self, fn):
        self.fn = fn
        self.later = {}      # static place -> content it was given by its first use

    def addr(self, o, k=0, st=()):
        if 'g' in o:
            return ('g', o['g']), k
        if 'ce' in o and o['ce'] == 'getelementptr' and 'off' in o:
            return self.addr(o['args'][0], k + o['off'], st)
        if 'p' in o:
            return ('p', o['p']), k
        i = self.fn.val(o)
        if i is None:
            return None
        if i['op'] == 'alloca':
            return ('l', i['id']), k
        if i['op'] == 'getelementptr' and i.get('off') is not None:
            return self.addr(i['args'][0], k + i['off'], st)
        if i['op'] == 'bitcast':
            return self.addr(i['args'][0], k, st)
        if i['op'] in ('call', 'invoke') and mm(cname(i), r'^operator new'):
            return ('h', i['id']), k
        if i['op'] == 'load':
            v = self.memo(st).get(i['id']) or {}
            if len(v) == 8 and len(set(v.values())) == 1 and str(v[0]).startswith('&heap'):
                return ('h', int(v[0][5:])), k
        return None

    def initial(self, o):
        """content of the static object an operand names before anything is done to it"""
        if 'g' in o:
            if o['g'].startswith('_ZGV') or 'bytes' not in o:
                return None
            h = o['bytes']
            b = {k // 2: h[k:k + 2] for k in range(0, len(h), 2)}
            for k, t in o.get('rel', {}).items():
                for j in range(8):
                    b[int(k) + j] = '&' + t.replace(o['g'] + '+', 'self+')
            return frozenset(b.items()), ()
        for a in o.get('args', []):
            r = self.initial(a)
            if r:
                return r
        return None

    def get(self, st, o):
        a = self.addr(o, 0, st)
        if a is None:
            return None, 0, None
        for p, b, c in st:
            if p == a[0]:
                return a[0], a[1], (b, c)
        if a[0][0] == 'g':
            return a[0], a[1], self.initial(o)
        return a[0], a[1], (frozenset(), ())

    @staticmethod
    def put(st, p, b, c):
        return frozenset([x for x in st if x[0] != p] + [(p, b, c)])

    def value(self, st, o):
        """bytes of a value: {offset: byte}"""
        if 'c' in o:
            n = max(1, o.get('w', 8) // 8)
            return {k: '%02x' % ((o['c'] >> (8 * k)) & 255) for k in range(n)}
        if 'null' in o:
            return {k: '00' for k in range(8)}
        if 'bytes' in o and 'g' not in o:
            return {k // 2: o['bytes'][k:k + 2] for k in range(0, len(o['bytes']), 2)}
        if 'zero' in o:
            return {k: '00' for k in range(256)}
        if 'undef' in o:
            return {}
        i = self.fn.val(o)
        if i is not None and i['op'] in ('call', 'invoke') and mm(cname(i), r'^operator new'):
            return {k: '&heap%d' % i['id'] for k in range(8)}
        return self.memo(st).get(o.get('i'))

    def memo(self, st):
        return {x[0][1]: dict(x[1]) for x in st if x[0][0] == 'v'}

    def width(self, ty):
        m = re.match(r'^i(\d+)$', ty or '')
        if m:
            return max(1, int(m.group(1)) // 8)
        return {'ptr': 8, 'double': 8, 'float': 4, 'x86_fp80': 10}.get(ty)

    def step(self, st, iid):
        fn = self.fn
        i = fn.ins[iid]
        op = i['op']
        if op == 'load':
            p, k, c = self.get(st, i['args'][0])
            n = self.width(i.get('ty')) or self.total(i.get('ty'))
            if c is None or p is None or n is None:
                return st
            b = dict(c[0])
            v = {j: b[k + j] for j in range(n) if k + j in b}
            if c[1]:
                v['built'] = c[1]
            return self.put(st, ('v', iid), frozenset(v.items()), ())
        if op == 'insertvalue':
            whole = self.value(st, i['args'][0])
            part = self.value(st, i['args'][1])
            if whole is None or part is None:
                return st
            at = self.element(i)
            v = dict(whole)
            v.update({(at + j if isinstance(j, int) else j): x for j, x in part.items()})
            return self.put(st, ('v', iid), frozenset(v.items()), ())
        if op in ('bitcast', 'zext', 'sext', 'freeze', 'trunc'):
            v = self.value(st, i['args'][0])
            return st if v is None else self.put(st, ('v', iid), frozenset(v.items()), ())
        if op == 'store':
            a = self.addr(i['args'][1], 0, st)
            if a is None:
                return st
            p, k, c = self.get(st, i['args'][1])
            v = self.value(st, i['args'][0])
            if c is None:
                return st
            b = dict(c[0])
            if v is None:
                for j in range(16):
                    b[k + j] = '??'
            else:
                for j, x in v.items():
                    if isinstance(j, int):
                        b[k + j] = x
            return self.put(st, p, frozenset(b.items()), c[1])
        if op not in ('call', 'invoke'):
            return st
        n = cname(i)
        if mm(n, r'^llvm\.memset'):
            p, k, c = self.get(st, i['args'][0])
            if c is None or 'c' not in i['args'][2] or 'c' not in i['args'][1]:
                return st
            b = dict(c[0])
            for j in range(min(i['args'][2]['c'], 4096)):
                b[k + j] = '%02x' % (i['args'][1]['c'] & 255)
            return self.put(st, p, frozenset(b.items()), c[1])
        if mm(n, r'^llvm\.mem(cpy|move)') or is_copy_ctor(n):
            p, k, c = self.get(st, i['args'][0])
            q, l, d = self.get(st, i['args'][1])
            if c is None or p is None:
                return st
            if d is None:
                raise Unclear('%s takes a value from an unknown place' % fn.where(iid))
            if k or l:
                raise Unclear('%s copies part of an object' % fn.where(iid))
            st = self.put(st, p, d[0], d[1])
            if mm(n, r'&&\)$') and d[1]:
                st = self.put(st, q, d[0], d[1] + ((0, 'moved from at ' + fn.where(iid)),))
            return st
        if mm(n, r'^(llvm\.|__cxa_guard|__cxa_atexit|__cxa_)') or not n:
            return st
        # any other call on a tracked object
        for x, a in enumerate(i.get('args', [])):
            ad = self.addr(a, 0, st)
            if ad is None or ad[0][0] == 'p' and x:
                continue
            p, k, c = self.get(st, a)
            if c is None or (ad[0][0] == 'p' and not self.sret(ad[0][1])):
                continue
            what = plain(n)
            if x == 0 and mm(n, r'::~\w+\(\)$'):
                st = self.put(st, p, frozenset(), ())
            else:
                st = self.put(st, p, c[0], c[1] + ((k, what + ''.join(' ' + render(y) if 'c' in y else '' for y in i['args'][1:])),))
        return st

    def sret(self, k):
        return self.fn.params[k].get('sret')

    def total(self, ty):
        if ty and ty.startswith('{') and ty.endswith('}'):
            ws = [self.width(x.strip()) for x in ty[1:-1].split(',')]
            return None if None in ws else sum(8 if w > 4 else w for w in ws) if len(ws) > 1 else ws[0]
        return None

    def element(self, i):
        k = (i.get('idx') or [0])[0]
        return 8 * k


def constructor(n):
    m = re.match(r'^(?:.*::)?(~?\w+)\(', n or '')
    return m and m.group(1)


def summarise(fn):
    """[(exit, what is handed back)] over all paths; what: ('at', content) for an address, ('is', bytes) for a value, ('thrown', type)"""
    c = Content(fn)
    statics = {}
    for phase in (1, 2):
        out = set()

        def step(st, ev):
            if ev[0] == 'ins':
                i = fn.ins[ev[1]]
                if i['op'] in ('call', 'invoke') and cname(i) == '__cxa_throw':
                    out.add(('thrown', throw_type(i), fn.where(ev[1])))
                return c.step(st, ev[1])
            if ev[0] == 'cond':
                g = guard(fn, ev[1])
                if g:
                    done = (ev[2] != g[1])
                    if done:
                        if phase == 1:
                            return None
                        for p, b, k in statics.get(g[0], ()):
                            st = c.put(st, p, b, k)
                return st
            if ev[0] == 'exit':
                if ev[1] == RET:
                    for gv in guards:
                        statics.setdefault(gv, set()).update(x for x in st if x[0] == ('g', gv) or x[0][0] == 'h')
                    out.add(handed(c, fn, st))
                return st
            return st
        guards = {g[0] for g in (guard(fn, x) for x in fn.order if 'cond' in fn.ins[x]) if g} | {g[0] for g in (guard(fn, x) for x in fn.order) if g}
        s = Sim(fn, step, frozenset())
        s.run()
        if phase == 1 and not guards:
            break
        if phase == 1:
            many = [g for g, v in statics.items() if len({x[0] for x in v}) != len(v)]
            if many:
                raise Unclear('a static object of %s is built in several ways' % fn.where())
    return out, {g: v for g, v in statics.items() if v}, s


def guard(fn, x):
    """(static object, outcome of the condition that means: not built yet)"""
    i = fn.ins.get(x)
    if i is None or i['op'] != 'icmp' or i['pred'] not in ('eq', 'ne'):
        return None
    a, b = i['args']
    v = fn.val(a)
    if v is None or b.get('c') != 0:
        return None
    eq = i['pred'] == 'eq'
    if v['op'] == 'load' and v['args'][0].get('g', '').startswith('_ZGV'):
        return v['args'][0]['g'].replace('_ZGV', '_Z', 1), eq
    if v['op'] in ('call', 'invoke') and cname(v) == '__cxa_guard_acquire':
        return v['args'][0].get('g', '').replace('_ZGV', '_Z', 1), not eq
    return None


def handed(c, fn, st):
    sret = [k for k, p in enumerate(fn.params) if p.get('sret')]
    if sret:
        for p, b, k in st:
            if p == ('p', sret[0]):
                return ('is', b, k)
        return ('is', frozenset(), ())
    r = [i for i in fn.ins.values() if i['op'] == 'ret'][0]
    if not r['args']:
        return ('nothing',)
    o = r['args'][0]
    if 'null' in o or ('c' in o and o['c'] == 0 and 'w' not in o):
        return ('null',)
    a = c.addr(o, 0, st)
    if a and a[0][0] in 'gh':
        p, k, d = c.get(st, o)
        if d is None or k:
            raise Unclear('%s returns an unknown place' % fn.where(r['id']))
        return ('at', d[0], d[1])
    if a and a[0][0] == 'l':
        return ('dangling',)
    v = c.value(st, o)
    if v is None:
        return ('unknown',)
    built = v.pop('built', ())
    return ('is', frozenset(v.items()), built)


def say(h):
    if h[0] in ('at', 'is'):
        b = dict(h[1])
        s = ''.join(b.get(k, '??') for k in range(0, (max(b) if b else 0) + 1)) if b else ''
        s = 'all bytes zero' if s and not s.strip('0') else 'the bytes ' + s if s else 'nothing set'
        return s + ''.join(', %s' % x[1] for x in h[2])
    return {'null': 'a null reference', 'nothing': 'nothing', 'dangling': 'a local object', 'unknown': 'a value of unknown origin'}.get(h[0], '%s thrown' % h[1] if h[0] == 'thrown' else str(h))


def same(h, want):
    """h is the value wanted; a class with a constructor is decided by it, everything else by its bytes"""
    if h[2] != want[2]:
        return False
    w, g = dict(want[1]), dict(h[1])
    if h[0] == 'is':
        # loads give the bytes of the value, a trailing tail may be padding
        return bool(want[2] or g) and all(w.get(k) == x for k, x in g.items())
    return g == w


def derives(u, t, base, seen=()):
    return t == base or any(derives(u, b, base, seen + (t,)) for b in u.bases.get(t, []) if b not in seen)


def judge(ctx, u, rid, name, fn, want):
    """fn is the body run for a result of kind `name`"""
    kind = name.split('_')[0]
    inst = '%s by %s' % (name, re.sub(r'<.*', '', fn.name))
    try:
        out, statics, s = summarise(fn)
    except Unclear as e:
        raise AnchorError('%s: %s' % (inst, e))
    ctx.stats['automaton_states'] += s.visited
    rets = [h for h in out if h[0] != 'thrown']
    thrown = [h for h in out if h[0] == 'thrown']
    at = fn.where()
    if kind == 'x':
        bad = [h for h in thrown if not derives(u, h[1], DEDICATED)]
        ctx.require('R3', inst, not rets and thrown and not bad, '%s: for a result that cannot be built %s' % (at, 'the body can return' if rets else '%s is thrown, which is not the dedicated exception' % bad[0][1] if bad else 'nothing is thrown'))
        return
    ctx.require(rid, inst + ', no exception', not thrown, '%s: throws %s' % (at, thrown[0][1] if thrown else ''))
    if kind == 'n':
        ctx.require('R2', inst, set(rets) == {('null',)}, '%s: the reference handed back is not null but %s' % (at, ', '.join(say(h) for h in rets) or 'missing'))
        return
    if kind == 'e':
        ctx.require(rid, inst, set(rets) == {('nothing',)}, '%s: hands back %s' % (at, ', '.join(map(say, rets))))
        return
    ctx.anchor(want is not None, 'no reference value for %s' % name)
    if any(h[0] in ('unknown',) for h in rets):
        raise AnchorError('%s: value handed back not understood' % inst)
    for h in rets:
        if h == ('null',) and kind == 'v':
            h = ('is', frozenset((k, '00') for k in range(8)), ())
        good = h[0] == ('is' if kind == 'v' else 'at') and any(same(h, w) for w in want)
        ctx.require(rid, inst, good, '%s: hands back %s where the value-initialised result is %s' % (at, say(h), say(want[0])))
    if not rets:
        ctx.fail(rid, inst, '%s: never returns' % at)
    for g, v in statics.items():
        moved = [x for p, b, k in v for x in k if 'moved from' in x[1]]
        ctx.require(rid, inst + ', later calls', not moved, '%s: the object handed out later is %s' % (at, moved[0][1] if moved else ''))


def body(ctx, u, acts, cls):
    for vt, groups in u.vtables.items():
        if vt == 'vtable for ' + cls:
            for e in groups[0]:
                if e and plain(e) in acts:
                    return acts[plain(e)]
    raise AnchorError('the body of %s was not found' % cls)


def handed_over(ctx, rid, f, k, name):
    """class and fields of the one action appended to the statement's method, which is put in place"""
    objs = objects(f)
    out = []
    for y in f.calls(r'::appendAction\('):
        if not rooted(f.arg(y, 0), k):
            continue
        p = f.arg(y, 1)
        ctx.anchor(p in objs, '%s: appended object not recognised' % f.where(y))
        out.append(objs[p])
    ctx.require(rid, name + ', one action', len(out) == 1, '%s: %d actions are added for the method' % (f.where(), len(out)))
    return out[0] if len(out) == 1 else None


def check(ctx):
    ctx.rule('R1', 'what a faked method hands back is the value-initialised result')
    ctx.rule('R2', 'a reference to something that cannot be built is a null reference')
    ctx.rule('R3', 'a result that cannot be built throws the dedicated exception and nothing else')
    ctx.rule('R4', 'Return without a value hands back the value-initialised result')
    ctx.rule('R5', 'faking puts exactly one such action in place for every method named')
    for std in ('c++11', 'c++17', 'c++20'):
        one(ctx, std)
    ctx.need('R1', 250)
    ctx.need('R2', 30)
    ctx.need('R3', 15)
    ctx.need('R4', 250)
    ctx.need('R5', 150)


def one(ctx, std):
    u = ctx.unit('defaults.cpp', SPEC, std=std)
    acts = {plain(f.name): f for f in u.get('act', 100)}
    want = {}
    for f in u.get('want', 135):
        out, _, _ = summarise(f)
        ctx.anchor(len(out) == 1, 'reference value of %s not found' % f.name)
        want.setdefault(re.sub(r'^w_want_|(_[23])?[(\[].*', '', f.name), []).append(next(iter(out)))
    for f in u.get('fake', 50):
        nm = re.sub(r'^w_fake_|\(.*', '', f.name)
        a = handed_over(ctx, 'R5', f, 0, '%s, %s' % (nm, std))
        commit(ctx, f, 0, '%s, %s, put in place' % (nm, std))
        if a:
            judge(ctx, u, 'R1', nm, body(ctx, u, acts, a[0]), want.get(nm))
    for f in u.get('many', 2):
        for k in range(len(f.params)):
            a = handed_over(ctx, 'R5', f, k, '%s, method %d, %s' % (f.name, k + 1, std))
            commit(ctx, f, k, '%s, method %d, %s, put in place' % (f.name, k + 1, std))
            if a:
                g = body(ctx, u, acts, a[0])
                n = f.params[k]
                nm = 'e_void' if mm(a[0], r'<void') else 'v_int' if mm(a[0], r'<int') else 'v_string'
                judge(ctx, u, 'R1', nm, g, want.get(nm))
    for lab, pre in (('ret', 'w_ret_'), ('always', 'w_always_'), ('void', 'w_voidmany')):
        cl = {}
        for f in u.get(lab + '/closure', 1):
            m = re.match(r'^(.*)::operator\(\)\(.*\) const$', plain(f.name))
            if m:
                cl[m.group(1)] = f
        for f in u.get(lab, 1):
            nm = 'e_void' if lab == 'void' else re.sub(r'^%s|\(.*' % pre, '', f.name)
            a = handed_over(ctx, 'R5', f, 0, '%s, %s' % (f.name, std))
            if not a:
                continue
            fs = [callable_of(f, op) for _, (how, op, y) in a[1].items() if how != 'store' and op is not None]
            fs = [x for x in fs if x and x[0] == 'closure']
            ctx.anchor(len(fs) == 1 and plain(fs[0][1]) in cl, '%s: what Return() runs was not found' % f.name)
            judge(ctx, u, 'R4', nm, cl[plain(fs[0][1])], want.get(nm))


def commit(ctx, f, k, name):
    put = {x for x in f.calls(r'::appendAction\(') if rooted(f.arg(x, 0), k)}
    com = {x for x in f.calls(r'Xaction::commit\(') if rooted(f.arg(x, 0), k)}

    def step(st, ev):
        if ev[0] == 'ins':
            return 'appended' if ev[1] in put else 'installed' if ev[1] in com and st == 'appended' else st
        if ev[0] == 'exit' and ev[1] == RET and st != 'installed':
            raise Violation('%s: the action is not put in place' % f.where())
        return st
    ctx.sim('R5', f, step, 'start', instance=name)
