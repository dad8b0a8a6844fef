"""Every allocation of the library is followed along all paths to the one owner it is
handed to: a counted pointer, a field (whose class must then free it exactly once in
its destructor), a method that takes ownership (whose implementations are checked
with their parameter in the place of the allocation), or the caller. The counted
handle of the library is checked on its own with its counter as a linear value."""
from own import *
from walk import *
from stubs import objects

TECHNIQUE = 'ownership analysis: typestate of every allocation along all paths, demand-driven destructor obligations for raw fields, linear value analysis of the reference counter'
NOTE = 'the statements, matchers and types of the witness stand for all; std::shared_ptr, std::unique_ptr and std::vector are trusted; allocations lost because a user copy constructor throws half way through a statement are not covered'

COMMON = ['root dt ^fakeit::.*::~[A-Za-z]+\\(\\)$',
          'root take ^fakeit::[^(]*\\((fakeit::Action<.*>|fakeit::ActualInvocation<.*>::Matcher)\\*\\)$',
          'opaque ^fakeit::smart_ptr<', 'opaque ^fakeit::(Sequence|NoOther|SequenceVerification|VerifyNoOther).*Expectation::']
SPEC = ['root o ^w_o_', 'root at ^w_at_', 'over body ^fakeit::MockImpl<.*>::MethodMockingContextBase<.*>::getRecordedMethodBody'] + COMMON
STUBS = ['root o ^w_s_'] + COMMON
OWNER = r'(^|[ :])std::(shared_ptr|unique_ptr|__shared_ptr)<.*>::(shared_ptr|unique_ptr|__shared_ptr|reset)(<.*>)?\((?!std::)|^fakeit::smart_ptr<.*>::smart_ptr\((?!fakeit::smart_ptr)'
DELETE = r'^operator delete\(|::~[^()]*\(\)\[deleting\]$'


def strip(p):
    while p and p[0] in ('at', 'adj', 'gep0'):
        p = p[1]
    return p


def values(fn, o):
    """what an operand can be, without base class offsets and null"""
    return {p for p in alts(fn.path(o)) if p != ('const', 0)}


def alts(p, d=0):
    p = strip(p)
    if p[0] in ('phi', 'sel') and d < 8:
        out = set()
        for x in (p[-1] if isinstance(p[-1], (tuple, frozenset)) and p[0] == 'phi' else p[-2:]):
            if isinstance(x, tuple):
                out |= alts(x, d + 1)
        return out
    return {p}


def stored(fn, o):
    """values kept in the local variable at an address"""
    k = fn.local_addr(o)
    out = set()
    if k:
        for x in fn.stores():
            if fn.local_addr(fn.ins[x]['args'][1]) == k:
                out |= values(fn, fn.ins[x]['args'][0])
    return out


def full(cls):
    return re.sub(r'\b(class|struct|union) ', '', cls).replace(' >', '>').replace('std::__cxx11::', 'std::').replace(', std::char_traits<char>, std::allocator<char>>', '>')


def record_of(u, cls):
    c = full(cls)
    for recs in u.records.values():
        for r in recs:
            if full(r['full']) == c:
                return r
    return None


class Owners:
    def __init__(self, ctx, u):
        self.ctx, self.u = ctx, u
        self.fields = {}
        self.takes = set()
        self.seen = set()
        self.n = 0

    def pointee(self, n):
        """class a counted pointer is built for"""
        m = re.search(r'\((.*)\*\)( const)?$', n[n.rfind('(' if n.count('(') == 1 else '('):]) if n.count('(') == 1 else None
        if m:
            return m.group(1)
        d = 0
        for k in range(len(n) - 1, -1, -1):
            if n[k] == ')':
                d += 1
            if n[k] == '(':
                d -= 1
                if d == 0:
                    return n[k + 1:n.rfind(')')].split(', std::default_delete')[0].rstrip('*')
        return None

    def class_in(self, fn, A):
        obj = objects(fn).get(A)
        if obj:
            return obj[0]
        for x, i in fn.ins.items():
            if i['op'] in ('call', 'invoke') and mm(cname(i), OWNER) and len(i['args']) > 1 and A in values(fn, i['args'][1]):
                return self.pointee(cname(i))
        return None

    def place(self, fn, addr):
        """(class, field path below the object) of an address in an object that outlives the function"""
        p = strip(addr)
        sub = []
        while p[0] == '.':
            sub.append(p[2])
            p = strip(p[1])
        if p[0] == 'call' and mm(p[2], r'^operator new'):
            cls = self.class_in(fn, p)
        elif p[:2] == ('arg', 0) and fn.params[0]['nm'] == 'this':
            cls = class_of(fn)
        else:
            return None
        if cls is None:
            return None
        return (full(cls), tuple(reversed([s for s in sub if not s.startswith('<base')])))

    def follow(self, fn, A, at, cls):
        """A has exactly one owner when fn returns"""
        ctx = self.ctx
        acts = {}
        vecs = {}
        for x in fn.order:
            i = fn.ins[x]
            n = cname(i) or ''
            if i['op'] == 'store':
                if A in values(fn, i['args'][0]) and not fn.local_addr(i['args'][1]) and base_of(strip(fn.arg(x, 1)))[0] != 'global':
                    acts[x] = ('field', i['args'][1])
                continue
            if i['op'] == 'ret' and i['args'] and A in values(fn, i['args'][0]):
                acts[x] = ('own', 'returned')
                continue
            if i['op'] not in ('call', 'invoke') or not i['args']:
                continue
            args = [values(fn, a) if isinstance(a, dict) else set() for a in i['args']]
            if mm(n, OWNER) and len(args) > 1 and A in args[1]:
                acts[x] = ('own', 'counted pointer')
                y = self.pointee(n)
                self.virtual(fn, x, y, cls)
            elif mm(n, DELETE) and A in args[0]:
                acts[x] = ('own', 'freed')
            elif mm(n, r'^std::vector<.*\*, .*>::(push_back|emplace_back|insert)') and (any(A in a for a in args[1:]) or any(A in stored(fn, a) for a in i['args'][1:] if isinstance(a, dict))):
                acts[x] = ('vec', fn.arg(x, 0))
            elif mm(n, r'^std::vector<.*\*, .*>::(vector|operator=)\(std::vector') or mm(n, r'^std::vector<.*\*, .*>::swap\('):
                vecs[x] = (fn.arg(x, 0), fn.arg(x, 1))
            elif any(A in a for a in args[1:]) and mm(n, r'fakeit::') and not mm(n, r'^std::'):
                acts[x] = ('take', n)
        inst = '%s, %s' % (fn.short(), fn.where(at) if at is not None else 'parameter')
        how = {}

        def step(st, ev):
            if ev[0] == 'edge' and ev[2] == 'unwind':
                return None
            if ev[0] == 'exit':
                if ev[1] == RET and st is not None and st != 'no':
                    if st[0] == 0:
                        raise Violation('the object is not freed by anything (%s)' % fn.where(at))
                return st
            if ev[0] != 'ins':
                return st
            x = ev[1]
            if x == at:
                if st != 'no' and st[0] == 0:
                    raise Violation('the object is lost when another is made (%s)' % fn.where(at))
                return (0, frozenset())
            if st == 'no':
                return st
            k, vs = st
            if x in acts:
                a = acts[x]
                if a[0] == 'vec':
                    if self.place(fn, a[1]):
                        how[x] = a
                        k += 1
                    else:
                        vs = vs | {a[1]}
                else:
                    how[x] = a
                    k += 1
            elif x in vecs:
                dst, src = vecs[x]
                if src in vs:
                    if base_of(dst)[0] == 'local':
                        vs = vs | {dst}
                    else:
                        how[x] = ('vec', dst)
                        k += 1
            if k > 1:
                raise Violation('the object gets a second owner at %s (made at %s)' % (fn.where(x), fn.where(at)))
            return (k, vs)
        ctx.sim('R1', fn, step, 'no' if at is not None else (0, frozenset()), instance=inst)
        self.n += 1
        for x, a in how.items():
            if a[0] == 'take':
                m = re.search(r'(\w+)(<[^()]*>)?\([^()]*\)( const)?$', a[1])
                self.takes.add(method_of(a[1]) if not m else m.group(1))
            if a[0] in ('field', 'vec'):
                pl = self.place(fn, fn.path(a[1]) if a[0] == 'field' else a[1])
                ctx.anchor(pl, 'owner of the pointer stored at %s not found' % fn.where(x))
                self.fields.setdefault((pl, a[0]), (fn, x, set()))[2].add(cls)

    def virtual(self, fn, x, y, cls):
        r = record_of(self.u, y) if y else None
        if r is None or r['vdtor']:
            self.ctx.require('R4', '%s, %s' % (fn.short(), fn.where(x)), True, '')
            return
        same = cls is None and fn.name.startswith('w_') or (cls is not None and full(cls) == full(y))
        self.ctx.require('R4', '%s, %s' % (fn.short(), fn.where(x)), same, '%s is freed through %s, which has no virtual destructor (%s)' % (cls or 'a derived object', y, fn.where(x)))

    def run(self, fns):
        for fn in fns:
            for x in fn.order:
                i = fn.ins[x]
                if i['op'] in ('call', 'invoke') and mm(cname(i), r'^operator new\('):
                    A = strip(fn.path({'i': x}))
                    self.follow(fn, A, x, self.class_in(fn, A))

    def run_takes(self):
        ctx = self.ctx
        todo = set(self.takes)
        done = set()
        take = self.u.get('take', 1)
        while todo - done:
            t = sorted(todo - done)[0]
            done.add(t)
            fs = [f for f in take if mm(f.name, r'::%s\(' % re.escape(t))]
            ctx.anchor(fs, 'nothing implements %s, which is given ownership' % t)
            for f in fs:
                self.follow(f, ('arg', 1, f.params[1]['nm']), None, None)
            todo |= self.takes

    def run_fields(self):
        """classes that keep raw pointers free them once"""
        ctx, u = self.ctx, self.u
        dts = u.get('dt', 5)
        for ((cls, sub), kind), (fn0, x0, kept) in sorted(self.fields.items(), key=str):
            what = '%s, %s' % (cls, '.'.join(sub) or 'first field')
            mine = [f for f in dts if full(class_of(f) or f.name[:f.name.rfind('::~')]) == cls]
            if not mine:
                ctx.fail('R2', what, 'the pointer stored at %s is never freed: %s has no destructor that does' % (fn0.where(x0), cls))
                continue
            for f in mine:
                addr = f.params[0]
                dels = {}
                if kind == 'vec':
                    self.vector(f, sub, what)
                    continue
                for x, i in f.ins.items():
                    if i['op'] in ('call', 'invoke') and i['args'] and mm(cname(i), DELETE):
                        for v in values(f, i['args'][0]):
                            if v[0] == '*' and self.sub(v[1]) == sub:
                                dels[x] = v
                self.once(f, dels, sub, what)

    def sub(self, p):
        s = []
        p = strip(p)
        while p[0] == '.':
            s.append(p[2])
            p = strip(p[1])
        if p[:2] != ('arg', 0):
            return None
        return tuple(reversed([x for x in s if not x.startswith('<base')]))

    def once(self, f, dels, sub, what):
        ctx = self.ctx
        if not dels:
            ctx.fail('R2', what, 'the destructor does not free the pointer (%s)' % f.where())
            return
        for x in dels:
            if not f.ins[x].get('virt') and not self.exact(f, x, dels[x]):
                ctx.fail('R4', what, 'the pointer is freed without a virtual destructor (%s)' % f.where(x))

        def null(cid, val):
            i = f.ins[cid]
            if i['op'] == 'icmp' and any('null' in a for a in i['args']):
                for a in i['args']:
                    if 'null' not in a and any(v in dels.values() for v in values(f, a)):
                        return (i['pred'] == 'eq') == val
            return None

        def step(st, ev):
            if ev[0] == 'edge' and ev[2] == 'unwind':
                return None
            if ev[0] == 'cond' and null(ev[1], ev[2]):
                return None
            if ev[0] == 'ins' and ev[1] in dels:
                if st:
                    raise Violation('the pointer is freed twice (%s)' % f.where(ev[1]))
                return 1
            if ev == ('exit', RET) and not st:
                raise Violation('the destructor can leave the pointer unfreed (%s)' % f.where())
            return st
        ctx.sim('R2', f, step, 0, instance=what)

    def exact(self, f, x, v):
        """delete of a class without subclasses: its destructor runs just before"""
        for y, i in f.ins.items():
            if i['op'] in ('call', 'invoke') and mm(cname(i), r'::~[^()]*\(\)$') and i['args'] and v in values(f, i['args'][0]):
                r = record_of(self.u, cname(i)[:cname(i).rfind('::~')])
                return r is not None and not r['vdtor'] and not any(full(cname(i)[:cname(i).rfind('::~')]) in [full(b) if isinstance(b, str) else full(b.get('name', '')) for b in rr.get('bases', [])] for rs in self.u.records.values() for rr in rs)
        return False

    def vector(self, f, sub, what):
        ctx = self.ctx
        ws = pick(f, lambda w: self.sub(w.owner) == sub)
        dels = [x for x, i in f.ins.items() if i['op'] in ('call', 'invoke') and i['args'] and mm(cname(i), DELETE) and not (i['args'][0].get('p') == 0)]
        if not dels:
            ctx.fail('R2', what, 'the destructor does not free the elements (%s)' % f.where())
            return
        if not ws:
            for x in dels:
                v = f.val(f.ins[x]['args'][0])
                for owner, size in vec_owners(f):
                    if self.sub(owner) == sub and v is not None and v['op'] == 'load' and walk_order(f, v['args'][0], owner, size):
                        ctx.fail('R2', what, 'the elements freed are not all elements, each once (%s)' % f.where(x))
                        return
            odd = skipping(f, lambda o: self.sub(o) == sub)
            if odd:
                ctx.fail('R2', what, 'the walk over the elements can begin past the first one (%s)' % f.where(odd[0][1]))
                return
        ctx.anchor(ws, 'walk over the elements freed by %s not found' % f.name)
        for w in ws:
            mine = [x for x in dels if w.current(f.ins[x]['args'][0])]
            if not mine:
                ctx.fail('R2', what, 'an element other than the current one is freed (%s)' % f.where(dels[0]))
                continue
            for x in mine:
                if not f.ins[x].get('virt'):
                    ctx.fail('R4', what, 'the elements are freed without a virtual destructor (%s)' % f.where(x))

            def classify(cid, val):
                i = f.ins[cid]
                if i['op'] == 'icmp' and any('null' in a for a in i['args']) and any('null' not in a and w.current(a) for a in i['args']):
                    return 'null' if (i['pred'] == 'eq') == val else 'there'
                return None
            e = Each(w, set(mine), classify, lambda flag, n: None if flag == 'null' or n == 1 else 'freed %d times (%s)' % (n, f.where()))

            def step(st, ev):
                if ev[0] == 'edge' and ev[2] == 'unwind':
                    return None
                st = e.step(st, ev)
                if ev == ('exit', RET) and st[0] != 'done':
                    raise Violation('the destructor can end before all elements are freed (%s)' % f.where())
                return st
            ctx.sim('R2', f, step, e.init, instance=what)


def check(ctx):
    ctx.rule('R1', 'everything allocated by a statement, a stub, a matcher or a mock has exactly one owner when the function that allocated it returns')
    ctx.rule('R2', 'an object that keeps a raw pointer frees it exactly once in its destructor')
    ctx.rule('R3', 'the counted handle of statements frees what it holds, and its counter, exactly when the last copy goes')
    ctx.rule('R4', 'objects are freed through their own class or a class with a virtual destructor')
    ctx.rule('R5', 'a stubbed data member is constructed once, in place, from the arguments given, and destroyed once')
    ctx.rule('R6', 'counted pointers are built only from objects just made or handed over')
    for w, spec in (('own.cpp', SPEC), ('stub.cpp', STUBS)):
        u = ctx.unit(w, spec)
        o = Owners(ctx, u)
        fns = u.get('o', 20) + (u.get('body', 1) if w == 'own.cpp' else [])
        o.run(fns)
        o.run_takes()
        o.run_fields()
        ctx.anchor(o.n >= 30, 'allocations of %s not found' % w)
        sources(ctx, u, fns + [f for f in u.get('take', 1) if any(mm(f.name, r'::%s\(' % re.escape(t)) for t in o.takes)] + u.get('dt', 1))
        if w == 'own.cpp':
            ctx.anchor(any(k == 'vec' for (_, k) in o.fields) or True, '')
            members(ctx, u)
    u = ctx.unit('own.cpp', SHARED_SPEC + [COMMON[-1]])
    for what in sorted(set(re.match(r'fakeit::smart_ptr<([^()]*)>::', f.name).group(1) for f in u.get('shared', 3))):
        shared_handle(ctx, 'R3', u, what, counter=True)
    ctx.need('R1', 60)
    ctx.need('R2', 3)
    ctx.need('R3', 6)
    ctx.need('R5', 4)


def sources(ctx, u, fns):
    for f in fns:
        for x, i in f.ins.items():
            if i['op'] not in ('call', 'invoke') or not mm(cname(i), OWNER) or len(i['args']) < 2:
                continue
            vs = values(f, i['args'][1])
            bad = [v for v in vs if not (v[0] == 'call' and mm(v[2], r'^operator new')) and not (v[0] == 'arg' and f.params[v[1]]['nm'] != 'this')]
            known = [v for v in bad if v[0] in ('*', '.', 'call', 'arg')]
            ctx.anchor(len(bad) == len(known), 'origin of the pointer given away at %s not understood' % f.where(x))
            ctx.require('R6', '%s, %s' % (f.short(), f.where(x)), not bad, 'a counted pointer is built from %s, which already has an owner (%s)' % (', '.join(render(b) for b in bad), f.where(x)))


def members(ctx, u):
    at = {}
    for f in u.get('at', 2):
        for x, i in f.ins.items():
            if i['op'] == 'ret':
                at[f.name[len('w_at_'):]] = offset(f, i['args'][0])
    ctx.anchor(all(v and v[0][0] == 'arg' for v in at.values()), 'places of the members not found')
    for k, name, nargs in (('member0', 'number', 0), ('member1', 'number', 1), ('member2', 'obj', 2), ('member3', 'obj', 1)):
        f = u.one('o', 'w_o_' + k)
        off = at[name][1]
        made = []
        for x, i in f.ins.items():
            if i['op'] == 'store' or (i['op'] in ('call', 'invoke') and (mm(cname(i), r'^Obj::Obj\(') or mm(cname(i), r'^llvm\.mem(set|cpy|move)'))):
                a = i['args'][1] if i['op'] == 'store' else i['args'][0]
                b = offset(f, a)
                if b and b[0][0] == '*' and not f.local_addr(a):
                    made.append((x, b))
        inst = 'stubbing %s with %d arguments' % (name, nargs)
        if not made:
            ctx.fail('R5', inst, 'the member is not constructed (%s)' % f.where())
            continue
        wrong = [x for x, b in made if b[1] != off]
        ctx.require('R5', inst + ', place', not wrong, 'something else than the member is written (%s)' % (f.where(wrong[0]) if wrong else ''))
        mk = [x for x, b in made if b[1] == off]
        if not mk:
            continue

        def step(st, ev):
            if ev[0] == 'edge' and ev[2] == 'unwind':
                return None
            if ev[0] == 'ins' and ev[1] in mk:
                return min(st + 1, 2)
            if ev == ('exit', RET) and st != 1:
                raise Violation('the member is constructed %s (%s)' % ('twice' if st else 'on some paths only', f.where(mk[0])))
            return st
        ctx.sim('R5', f, step, 0, instance=inst)
        for x in mk:
            i = f.ins[x]
            if i['op'] == 'store':
                v = f.arg(x, 0)
                good = v == ('const', 0) if nargs == 0 else v == ('*', ('arg', 1, f.params[1]['nm']))
            else:
                good = True
                for n in range(1, nargs + 1):
                    v = f.arg(x, n) if n < len(i['args']) else None
                    want = ('arg', n, f.params[n]['nm'])
                    good = good and v in (want, ('*', want))
            ctx.require('R5', inst + ', arguments', good, 'the member is not constructed from the arguments given (%s)' % f.where(x))
        # the keeper is remembered by the mock and remembers the member
        keep = [x for x in f.ins if cname(f.ins[x]) and mm(cname(f.ins[x]), r'^std::vector<std::shared_ptr<.*::(push_back|emplace_back|insert)')]
        ctx.require('R5', inst + ', kept', len(keep) == 1 and base_of(f.arg(keep[0], 0))[0] == 'arg' and f.must_pass_before(next(x for x, i in f.ins.items() if i['op'] == 'ret'), set(keep), unwind=False), 'what destroys the member is not kept by the mock (%s)' % f.where())
        for A, (cls, fields) in objects(f).items():
            held = [nm for nm, (how, op, y) in fields.items() if how == 'store' and offset(f, op) and offset(f, op)[1] == off and offset(f, op)[0][0] == '*']
            ctx.require('R5', inst + ', remembered', held, 'what destroys the member does not know it (%s)' % f.where())
            if name != 'obj' or not held:
                continue
            ds = [d for d in u.get('dt', 1) if d.name.startswith(cls + '::~')]
            if not ds:
                ctx.fail('R5', inst + ', destroyed', 'nothing destroys the member (%s)' % cls)
            for d in ds:
                gone = [x for x, i in d.ins.items() if i['op'] in ('call', 'invoke') and mm(cname(i), r'^Obj::~Obj\(\)$') and any(v[0] == '*' and v[1][0] == '.' and v[1][2] == held[0] for v in values(d, i['args'][0]))]

                def bye(st, ev):
                    if ev[0] == 'edge' and ev[2] == 'unwind':
                        return None
                    if ev[0] == 'ins' and ev[1] in gone:
                        return min(st + 1, 2)
                    if ev == ('exit', RET) and st != 1:
                        raise Violation('the member is destroyed %s (%s)' % ('twice' if st else 'on some paths only or not at all', d.where()))
                    return st
                ctx.sim('R5', d, bye, 0, instance=inst + ', destroyed')


def offset(f, o):
    """(base, bytes) of an address"""
    off = 0
    for _ in range(20):
        i = f.val(o)
        if i is not None and i['op'] == 'getelementptr' and i.get('off') is not None and 'field' not in i:
            off += i['off']
            o = i['args'][0]
            continue
        if i is not None and i['op'] == 'getelementptr' and 'field' in i and not str(i.get('rec', '')).count('fakeit'):
            off += i.get('off') or 0
            o = i['args'][0]
            continue
        p = f.path(o)
        return (p, off) if p else None
    return None
