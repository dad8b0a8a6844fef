"""Every function that makes a part of a message is followed with affine values: what is
put into its text, in which order, and for lists which elements. Lists are decided for
every length at once (up to fifty calls; more than fifty), counts and kinds for each
kind of verification, printed values per argument type."""
from say import *

TECHNIQUE = 'abstract interpretation of text contents with affine list indices (ghost element counters, regions for the list length), conditional on the kind of event; per argument type and arity'
NOTE = 'argument types and arities of the witness stand for all; wording and order of the sections of a message are free, the words exactly / at least and a marker of dots are looked for; operator<< of a type is trusted to print it'

SEQ = r'^fakeit::DefaultEventFormatter::[A-Za-z]+(\[abi:cxx11\])?\(fakeit::Sequence const&\)'
CALL = r'^fakeit::(Invocation|ActualInvocation<.*>)::format'
MATCHER = r'^fakeit::IMatcher::format'
SPEC = ['over event ^fakeit::EventFormatter::format', 'root seq ' + SEQ, 'over leaf ^fakeit::Invocation::Matcher::format', 'over args ^fakeit::ActualInvocation<.*>::Matcher::format',
        'over matcher ^fakeit::IMatcher::format', 'root shown ^fakeit::Formatter<', 'root w ^w_', 'opaque ^fakeit::Formatter<', 'opaque ' + SEQ, 'opaque ^(Big|Shown)::', 'opaque getRecordedMethodBody']
FORMATTER = r'fakeit::Formatter<(.*)>::format(\[abi:cxx11\])?\('
S_ = 'std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>'
CALLS = {'none': [], 'one': ['int'], 'two': ['int', S_], 'three': ['double', 'Big', 'int*'], 'four': ['bool', 'char', 'char const*', 'Shown'],
         'five': [S_, S_, 'char*', 'Shown', 'unsigned int', 'Big'], 'eight': ['int', 'int', 'bool', 'int', 'int', 'long', 'char', 'int']}
MARK = {'Eq': '', 'Gt': '>', 'Ge': '>=', 'Lt': '<', 'Le': '<=', 'Ne': '!=', 'StrEq': '', 'StrGt': '>', 'StrGe': '>=', 'StrLt': '<', 'StrLe': '<=', 'StrNe': '!='}
LIMIT = 50


def check(ctx):
    ctx.rule('R1', 'a report on calls shows the first fifty of its list in order, and a marker exactly when there are more')
    ctx.rule('R2', 'a report on a failed verification shows every part of the pattern in order, the kind and number of expected matches, the number of matches found and of calls')
    ctx.rule('R3', 'a combined pattern shows its parts in order with the way they are combined')
    ctx.rule('R4', 'a printed call shows the method and every argument in its position')
    ctx.rule('R5', 'an expected call shows the method and every matcher in its position')
    ctx.rule('R6', 'a matcher shows the value it compares with and how')
    ctx.rule('R7', 'a value is printed if it can be, a null C string without being read')
    ctx.rule('R8', 'a report on an unexpected call shows the call')
    u = ctx.unit('show.cpp', SPEC)
    ev = {f.name.split('fakeit::')[-1].split(' ')[0]: f for f in u.get('event', 3) if mm(f.name, r'DefaultEventFormatter::')}
    ctx.anchor(set(ev) == {'UnexpectedMethodCallEvent', 'SequenceVerificationEvent', 'NoMoreInvocationsVerificationEvent'}, 'reports of the default formatter not found: %s' % sorted(ev))
    safe(ctx, sequence, u, ev['SequenceVerificationEvent'])
    safe(ctx, nomore, u, ev['NoMoreInvocationsVerificationEvent'])
    safe(ctx, unexpected, u, ev['UnexpectedMethodCallEvent'])
    safe(ctx, combined, u, u.one('seq'))
    for m, ts in sorted(CALLS.items()):
        safe(ctx, printed, u, u.one('w', '^w_call_%s$' % m), m, ts)
    for f in u.get('leaf', 4):
        safe(ctx, leaf, u, f)
    for f in u.get('args', 4):
        safe(ctx, matchers, u, f)
    for f in u.get('matcher', 20):
        safe(ctx, matcher, u, f)
    for f in u.get('shown', 12):
        safe(ctx, value, u, f)
    for r, n in (('R1', 8), ('R2', 4), ('R3', 3), ('R4', 7), ('R5', 6), ('R6', 20), ('R7', 12), ('R8', 2)):
        ctx.need(r, n)


RULE = {'sequence': 'R2', 'nomore': 'R1', 'unexpected': 'R8', 'combined': 'R3', 'printed': 'R4', 'leaf': 'R5', 'matchers': 'R5', 'matcher': 'R6', 'value': 'R7'}


def safe(ctx, part, u, f, *a):
    """violations of all parts are found before a part that cannot be followed ends the check"""
    try:
        part(ctx, u, f, *a)
    except Violation as e:
        ctx.fail(RULE[part.__name__], f.short(), str(e))
    except AnchorError as e:
        if ctx.bad:
            return
        raise


def const_ret(u, name):
    f = u.one('w', '^%s$' % name)
    for x, i in f.ins.items():
        if i['op'] == 'ret':
            return i['args'][0].get('c')


def field(ctx, u, name):
    """offset of the field a getter returns (by value or address)"""
    f = u.one('w', '^%s$' % name)
    for x, i in f.ins.items():
        if i['op'] == 'ret':
            o = i['args'][0]
            j = f.val(o)
            while j is not None and j['op'] in ('zext', 'sext', 'trunc'):
                o = j['args'][0]
                j = f.val(o)
            if j is not None and j['op'] == 'load':
                o = j['args'][0]
            a = addr(f, o)
            ctx.anchor(a and a[0] == ('p', 0), 'field behind %s not found' % name)
            return a[1]


def region(name, more):
    n = ('N', name)
    if more:
        return [{n: LIMIT + 1}], [{n: 1}]
    return [{n: 0}, {n: LIMIT}], []


def join(parts):
    corners, rays = [{}], []
    for c, r in parts:
        corners = [{**a, **b} for a in corners for b in c]
        rays += r
    return Region('lengths', corners, rays)


def element_made(regex, name):
    def made(s, S, i):
        n = cname(i)
        if mm(n, regex):
            r = s.index(S, i['args'][1])
            if r is not None and r[0] == name:
                s.element(S, name, r[1], i['id'])
                return ('elem', name)
            return ('other', n)
        return None
    return made


def complete(ctx, rid, s, S, name, b, inst):
    d = S.mem[('F', 'next', name)].add(b, -1)
    sg = s.aff.signs(S, d)
    ctx.require(rid, inst, sg <= {0, 1}, '%s: elements of the list are left out' % s.fn.where())


def dots(c):
    return any(p[0] == 'lit' and '...' in p[1] or p[0] == 'lit' and '…' in p[1] for p in c)


def has_val(c, v):
    return ('val', tuple(fz(v))) in c


def words(c):
    t = ' '.join(p[1] for p in c if p[0] == 'lit').lower()
    return {k for k, w in (('exact', 'exact'), ('atleast', 'at least')) if w in t}


def after_elem(c, name):
    """pieces put after the first element of the list"""
    k = [j for j, p in enumerate(c) if p == ('elem', name)]
    return c[k[0]:] if k else ()


def sequence(ctx, u, f):
    F = {n: field(ctx, u, 'w_get_' + n) for n in ('expectedCount', 'actualCount', 'type', 'pattern', 'sequence')}
    e = 2
    for kind in ('exact', 'atleast'):
        t = const_ret(u, 'w_enum_' + kind)
        for more in (False, True):
            fields = {(e, F['expectedCount']): sym('expected'), (e, F['actualCount']): sym('actual'), (e, F['type']): num(t)}
            b = num(LIMIT) if more else sym(('N', 'calls'))

            def made(s, S, i):
                n = cname(i)
                if mm(n, SEQ):
                    r = s.index(S, i['args'][1])
                    if r is not None and r[0] == 'pattern':
                        s.element(S, 'pattern', r[1], i['id'])
                        return ('elem', 'pattern')
                    return ('other', 'pattern')
                return element_made(CALL, 'calls')(s, S, i)
            s = Say(f, {'pattern': (e, F['pattern']), 'calls': (e, F['sequence'])}, fields, join([region('calls', more), ([{('N', 'pattern'): 0}], [{('N', 'pattern'): 1}])]), made=made, bound={'calls': b, 'pattern': sym(('N', 'pattern'))}, elems={'calls': CALL, 'pattern': SEQ})
            out = s.run()
            ctx.anchor(out, 'no end of ' + f.short())
            inst = '%s, %s, %s calls' % (f.short(), kind, 'more than 50' if more else 'up to 50')
            for c, S in out:
                w = f.where()
                ctx.require('R2', inst, has_val(c, sym('expected')), '%s: the expected number of matches is not shown' % w)
                ctx.require('R2', inst, has_val(c, sym('actual')), '%s: the number of matches found is not shown' % w)
                ctx.require('R2', inst, has_val(c, sym(('N', 'calls'))), '%s: the number of calls is not shown' % w)
                ctx.require('R2', inst, words(c) == {kind}, '%s: the kind of verification shown is %s, not %s' % (w, sorted(words(c)) or 'none', kind))
                complete(ctx, 'R2', s, S, 'pattern', sym(('N', 'pattern')), inst + ', pattern')
                complete(ctx, 'R1', s, S, 'calls', b, inst)
                ctx.require('R1', inst + ', marker', dots(after_elem(c, 'calls')) == more, '%s: %s' % (w, 'no marker although there are more calls' if more else 'a marker although there are no more calls'))


def nomore(ctx, u, f):
    o = field(ctx, u, 'w_get_unverified')
    for more in (False, True):
        b = num(LIMIT) if more else sym(('N', 'calls'))
        s = Say(f, {'calls': (2, o)}, {}, join([region('calls', more)]), made=element_made(CALL, 'calls'), bound={'calls': b}, elems={'calls': CALL})
        out = s.run()
        ctx.anchor(out, 'no end of ' + f.short())
        inst = '%s, %s calls' % (f.short(), 'more than 50' if more else 'up to 50')
        for c, S in out:
            complete(ctx, 'R1', s, S, 'calls', b, inst)
            ctx.require('R1', inst + ', marker', dots(after_elem(c, 'calls')) == more, '%s: %s' % (f.where(), 'no marker although there are more calls' if more else 'a marker although there are no more calls'))


def unexpected(ctx, u, f):
    o, t = field(ctx, u, 'w_get_invocation'), field(ctx, u, 'w_get_unexpected')
    texts = {}
    for kind in ('unmocked', 'unmatched'):
        def made(s, S, i):
            if mm(cname(i), CALL):
                return ('call',) if S.arg(i, 1) == sym('call') else ('other',)
        s = Say(f, {}, {(2, o): sym('call'), (2, t): num(const_ret(u, 'w_enum_' + kind))}, made=made)
        for c, S in s.run():
            ctx.require('R8', '%s, %s' % (f.short(), kind), ('call',) in c, '%s: the unexpected call is not shown' % f.where())
            texts.setdefault(kind, set()).add(c)
    ctx.require('R8', f.short(), not (texts['unmocked'] & texts['unmatched']), '%s: the two reasons are not told apart' % f.where())


def combined(ctx, u, f):
    """a pattern made of two others, of a repeated one, or of one call"""
    want = {n: field(ctx, u, 'w_seq_' + n) for n in ('left', 'right', 'inner', 'times')}

    def origin(s, o):
        """('left'|'right'|'inner'|'times') behind an operand read from the pattern"""
        i = s.fn.val(o)
        while i is not None and i['op'] in ('sext', 'zext', 'bitcast', 'freeze'):
            i = s.fn.val(i['args'][0])
        if i is None or i['op'] != 'load':
            return None
        a = addr(s.fn, i['args'][0])
        if a is None or a[0][0] != 'i':
            return None
        j = s.fn.ins[a[0][1]]
        if cname(j) != '__dynamic_cast' or base_of(s.fn.path(j['args'][0])) != ('arg', 1, s.fn.params[1]['nm']):
            return None
        t = j['args'][2].get('d', '')
        for n in (('left', 'right') if 'Concatenated' in t else ('inner', 'times')):
            if want[n] == a[1]:
                return n
        return None

    def made(s, S, i):
        n = cname(i)
        if mm(n, SEQ):
            return ('part', origin(s, i['args'][1]))
        if mm(n, r'Invocation::Matcher::format|^fakeit::.*::format(\[abi:cxx11\])?\(\) const'):
            return ('part', 'call')
        return None

    def named(s, S, o):
        r = origin(s, o)
        return ('part', r) if r else None
    for case in ('Concatenated', 'Repeated', 'RepeatedConcatenated', 'call'):
        def cast(s, S, i, t):
            own = base_of(s.fn.path(i['args'][0])) == ('arg', 1, s.fn.params[1]['nm']) and '*' not in [q for q in tags(s.fn.path(i['args'][0]))]
            if own:
                yes = t.split('::')[-1].startswith('Concatenated' if case == 'Concatenated' else 'Repeated') and case != 'call'
            else:
                yes = case == 'RepeatedConcatenated' and 'Concatenated' in t
            return sym(('cast', i['id'])) if yes else Lin()
        reg = Region('casts', [{('cast', x): 1 for x in f.calls('^__dynamic_cast$')}], [{('cast', x): 1} for x in f.calls('^__dynamic_cast$')])
        s = Say(f, {}, {}, reg, made=made, named=named, cast={'call': cast})
        out = s.run()
        ctx.anchor(out, 'no end of ' + f.short())
        for c, S in out:
            parts = [p[1] for p in c if p[0] == 'part']
            lits = ''.join(p[1] for p in c if p[0] == 'lit')
            w = f.where()
            inst = '%s, %s' % (f.short(), {'Concatenated': 'one after the other', 'Repeated': 'repeated', 'RepeatedConcatenated': 'repeated combination', 'call': 'single call'}[case])
            if case == 'Concatenated':
                ctx.require('R3', inst, parts == ['left', 'right'] and '+' in lits, '%s: two patterns one after the other are shown as %s' % (w, tell(c)))
            elif case == 'call':
                ctx.require('R3', inst, parts == ['call'], '%s: a single call is shown as %s' % (w, tell(c)))
            else:
                ctx.require('R3', inst, sorted(map(str, parts)) == ['inner', 'times'] and '*' in lits, '%s: a repeated pattern is shown as %s' % (w, tell(c)))
                if case == 'RepeatedConcatenated':
                    k = [j for j, p in enumerate(c) if p == ('part', 'inner')]
                    b, a = ''.join(p[1] for p in c[:k[0]] if p[0] == 'lit') if k else '', ''.join(p[1] for p in c[k[0] + 1:] if p[0] == 'lit') if k else ''
                    ctx.require('R3', inst + ', brackets', any(x in b for x in '([{') and any(x in a for x in ')]}'), '%s: a repeated combination is shown without brackets: %s' % (w, tell(c)))


def tags(p):
    if isinstance(p, tuple):
        yield p[0]
        for x in p[1:]:
            if isinstance(x, tuple):
                yield from tags(x)


def tell(c):
    return ' '.join(repr(p[1]) if p[0] == 'lit' else '<%s>' % (p[1] if len(p) > 1 else p[0],) for p in c) or 'nothing'


def shown_type(n):
    m = re.search(FORMATTER, n)
    return re.sub(r', void$', '', m.group(1)) if m else None


def printed(ctx, u, f, m, ts):
    def made(s, S, i):
        t = shown_type(cname(i))
        if t is not None:
            j = s.fn.val(i['args'][1])
            k = None
            for _ in range(10):
                if j is None:
                    break
                g = re.search(r'std::(?:__)?get(?:_helper)?<(\d+)ul?\b', cname(j)) if j['op'] in ('call', 'invoke') else None
                if g:
                    k = int(g.group(1))
                    break
                if j['op'] not in ('load', 'getelementptr', 'bitcast'):
                    break
                j = s.fn.val(j['args'][0])
            return ('arg', k, t)
        return None

    def named(s, S, o):
        p = s.fn.path(o)
        q = s.place(o)
        if q is None and base_of(p)[0] == 'arg' and '*' in list(tags(p)):
            return ('method', p)
        return None
    s = Say(f, {}, {}, made=made, named=named)
    out = s.run()
    ctx.anchor(out, 'no end of ' + f.short())
    for c, S in out:
        args = [p[1:] for p in c if p[0] == 'arg']
        ctx.require('R4', f.short(), args == [(k, t) for k, t in enumerate(ts)], '%s: arguments shown: %s' % (f.where(), ', '.join('%s as %s' % a for a in args) or 'none'))
        first = [p for p in c if p[0] in ('arg', 'method')]
        ctx.require('R4', f.short() + ', method', bool(first) and first[0][0] == 'method', '%s: the method is not shown first' % f.where())


def leaf(ctx, u, f):
    def made(s, S, i):
        n = cname(i)
        if mm(n, r'::getMethodName'):
            return ('method',)
        if mm(n, r'Matcher::format|Matcher<.*>::format'):
            return ('args',)
        return None
    s = Say(f, {}, {}, made=made)
    for c, S in s.run():
        p = [x for x in c if x[0] != 'lit']
        ctx.require('R5', f.short(), p == [('method',), ('args',)], '%s: an expected call is shown as %s' % (f.where(), tell(c)))


def matchers(ctx, u, f):
    n = f.name
    if not mm(n, r'ArgumentsMatcher'):
        s = Say(f)
        for c, S in s.run():
            ctx.require('R5', f.short(), any(p[0] == 'lit' and p[1].strip() for p in c), '%s: nothing is shown' % f.where())
        return
    this = f.p('this')
    o = vector_of(ctx, f, this)
    b = sym(('N', 'm'))
    s = Say(f, {'m': (this, o)}, {}, join([([{('N', 'm'): 0}], [{('N', 'm'): 1}])]), made=element_made(MATCHER, 'm'), bound={'m': b}, elems={'m': MATCHER})
    out = s.run()
    ctx.anchor(out, 'no end of ' + f.short())
    for c, S in out:
        complete(ctx, 'R5', s, S, 'm', b, f.short())
        if s.aff.signs(S, S.mem[('F', 'next', 'm')]) == {1}:
            ctx.require('R5', f.short() + ', shown', ('elem', 'm') in c, '%s: the matchers are not shown' % f.where())


def vector_of(ctx, f, this):
    """offset of the one vector of the receiver that is read"""
    out = set()
    for x in f.order:
        i = f.ins[x]
        if i['op'] == 'load':
            a = addr(f, i['args'][0])
            if a and a[0] == ('p', this) and a[1]:
                out.add(a[1])
    ctx.anchor(out, '%s: list of matchers not found' % f.short())
    return min(out)


def matcher(ctx, u, f):
    m = re.search(r'(\w+?)(Matcher)?Creator(<.*>)?::createMatcher', f.name)
    ctx.anchor(m, 'kind of %s not found' % f.short())
    kind = m.group(1)

    def made(s, S, i):
        t = shown_type(cname(i))
        if t is not None:
            a = addr(s.fn, i['args'][1])
            return ('value', a[1] if a and a[0] == ('p', s.fn.p('this')) else None, t)
        return None
    s = Say(f, made=made)
    out = s.run()
    ctx.anchor(out, 'no end of ' + f.short())
    for c, S in out:
        vals = [p for p in c if p[0] == 'value']
        lit = ''.join(p[1] for p in c if p[0] == 'lit').strip()
        w = f.where()
        if kind == 'Any':
            ctx.require('R6', f.short(), not vals and lit, '%s: the wildcard is shown as %s' % (w, tell(c)))
        elif kind == 'ApproxEq':
            ctx.require('R6', f.short(), len(vals) == 2 and vals[0][1] is not None and vals[1][1] is not None and vals[0][1] < vals[1][1] and lit, '%s: value and margin are shown as %s' % (w, tell(c)))
        else:
            ctx.anchor(kind in MARK, 'unknown matcher ' + kind)
            ctx.require('R6', f.short(), len(vals) == 1 and vals[0][1] is not None and lit == MARK[kind] and (not lit or c[0][0] == 'lit'), '%s: %s is shown as %s' % (w, kind, tell(c)))


def value(ctx, u, f):
    t = shown_type(f.name)
    v = 1

    def named(s, S, o):
        p = s.fn.path(o)
        if p == ('arg', v, s.fn.params[v]['nm'] or 'arg1'):
            return ('it',)
        if p == ('*', ('arg', v, s.fn.params[v]['nm'] or 'arg1')):
            return ('it',)
        return None
    fields = {}
    if t == 'bool':
        for b in (0, 1):
            s = Say(f, {}, {(v, 0): num(b)})
            for c, S in s.run():
                ctx.require('R7', '%s, %s' % (f.short(), bool(b)), ''.join(p[1] for p in c if p[0] == 'lit') == ('true' if b else 'false'), '%s: %s is shown as %s' % (f.where(), bool(b), tell(c)))
        return
    if t in ('char const*', 'char*'):
        for null in (True, False):
            def named2(s, S, o):
                x = S.val(o)
                if isinstance(x, Lin) and x == sym('text'):
                    return ('it',)
                if isinstance(x, Lin) and null and not x and s.fn.val(o) is not None and s.fn.val(o)['op'] == 'load':
                    return ('null',)
                return None
            made = lambda s, S, i: ('it',) if shown_type(cname(i)) == 'char const*' else None
            s = Say(f, {}, {(v, 0): Lin() if null else sym('text')}, Region('text', [{'text': 1}], [{'text': 1}]), made=made, named=named2)
            for c, S in s.run():
                if null:
                    ctx.require('R7', f.short() + ', null', ('null',) not in c, '%s: a null C string is read' % f.where())
                else:
                    ctx.require('R7', f.short(), ('it',) in c, '%s: a C string is shown as %s' % (f.where(), tell(c)))
        return
    s = Say(f, named=named)
    out = s.run()
    ctx.anchor(out, 'no end of ' + f.short())
    for c, S in out:
        if t == 'std::nullptr_t':
            ctx.require('R7', f.short(), bool(c), '%s: nothing is shown' % f.where())
        elif t == 'Big':
            ctx.require('R7', f.short(), ''.join(p[1] for p in c if p[0] == 'lit').strip() == '?' and len(c) == 1, '%s: a value that cannot be printed is shown as %s' % (f.where(), tell(c)))
        else:
            ctx.require('R7', f.short(), ('it',) in c, '%s: a value of type %s is shown as %s' % (f.where(), t, tell(c)))
