"""The two kinds of verification statement, seen as objects with tracked fields."""
from aff import *
from common import *

NOOTHER = 'struct.fakeit::VerifyNoOtherInvocationsVerificationProgress::VerifyNoOtherInvocationsExpectation'
NOO = 'fakeit::VerifyNoOtherInvocationsVerificationProgress::VerifyNoOtherInvocationsExpectation'
SEQ = 'fakeit::SequenceVerificationExpectation'
HANDLER = r'fakeit::VerificationEventHandler::handle\('

# analysis of the history, kept as calls
ANALYSIS = ['opaque ^fakeit::MatchAnalysis::', 'opaque ^fakeit::InvocationUtils::', 'opaque ^fakeit::.*Event::']
HANDLE_OPAQUE = ['opaque ^fakeit::smart_ptr<.*>::(~?smart_ptr|operator=)']


def evaluates(i):
    """does the instruction look at the recorded calls?"""
    return i['op'] in ('call', 'invoke') and mm(cname(i), r'^fakeit::(MatchAnalysis::(?!~?MatchAnalysis\()|InvocationUtils::)|fakeit::(ActualInvocationsSource|InvocationsSourceProxy)::getActualInvocations')


def reports(i):
    return i['op'] in ('call', 'invoke') and mm(cname(i), HANDLER)


def marks(fn, i):
    """a store that sets the verified mark of a call"""
    if i['op'] == 'store':
        p = fn.arg(i['id'], 1)
        return p[0] == '.' and mm(p[3], r'fakeit::Invocation$') and field_type_is_flag(fn, p)
    return i['op'] in ('call', 'invoke') and mm(cname(i), r'^fakeit::Invocation::markAsVerified')


def field_type_is_flag(fn, p):
    return p[2] not in unmarking(fn.unit)


def found_hooks(fn, name='n', sel=None):
    """load/call hooks giving the number of matches (or of unverified calls) the name `name`"""
    objs = set()
    for k in fn.calls(r'^fakeit::MatchAnalysis::(?!~?MatchAnalysis\()'):
        for o in fn.ins[k]['args'][:1]:
            la = fn.local_addr(o)
            if la:
                objs.add(la[0])
    rest = set()
    for k in fn.calls(r'^fakeit::InvocationUtils::selectNonVerifiedInvocations'):
        la = fn.local_addr(fn.ins[k]['args'][1])
        if la:
            rest.add(la[0])
    if not rest and not objs:
        # the unmarked calls are gathered here: a local container elements are added to
        for k in fn.calls(r'std::(unordered_set|vector|list|set)<fakeit::Invocation\*.*::(insert|push_back|emplace|emplace_back)\b'):
            la = fn.local_addr(fn.ins[k]['args'][0])
            if la and not la[1]:
                rest.add(la[0])

    def load(S, i):
        la = fn.local_addr(i['args'][0])
        if la and la[0] in objs and i.get('ty') == 'i32':
            return sym(name)
        if la and la[0] in rest and i.get('ty') == 'i64' and la[1]:
            return sym(name)
        return None

    def call(S, i):
        n = cname(i)
        if i.get('ty') == 'i32' and mm(n, r'^fakeit::MatchAnalysis::'):
            return sym(name)
        if i['args']:
            la = fn.local_addr(i['args'][0])
            if la and la[0] in rest and not la[1]:
                if mm(n, r'::size\(\) const$'):
                    return sym(name)
                if mm(n, r'::empty\(\) const$'):
                    return ('cmp', 'eq', sym(name))
        return None
    return load, call, bool(objs or rest or fn.calls(r'^fakeit::(MatchAnalysis|InvocationUtils)::'))


class Run:
    """evaluation of one statement function under what is known of the counts"""

    def __init__(self, ctx, fn, region, mem, rec, catch=False, call=None, params=None):
        self.fn = fn
        load, ncall, _ = found_hooks(fn)
        key = object_fields(rec)

        def qload(S, i):
            p = fn.arg(i['id'], 0)
            if (p[0] == '.' and mm(p[3], 'Quantity')) or (p[0] == 'arg' and p[2] == 'q'):
                return sym('k')
            return load(S, i)

        def calls(S, i):
            v = call(S, i) if call else None
            return ncall(S, i) if v is None else v

        def step(S, ev):
            ev_, thrown, ret = S.user
            if ev[0] == 'ins':
                i = fn.ins[ev[1]]
                if evaluates(i):
                    S.user = (add(ev_, 'evaluate'), thrown, ret)
                elif reports(i):
                    S.user = (add(ev_, ('report', base_of(fn.arg(ev[1], 0)))), thrown, ret)
                elif marks(fn, i):
                    S.user = (add(ev_, 'mark'), thrown, ret)
                elif cname(i) == '__cxa_throw':
                    S.user = (ev_, throw_type(i), ret)
                elif cname(i) == '__cxa_end_catch':
                    S.user = (ev_, None, ret)
                elif i['op'] == 'ret' and i['args']:
                    v = S.arg(i, 0)
                    t = S.interp.truth(S, v) if i['args'][0].get('w') == 1 or isbool(v) or isinstance(v, Lin) else None
                    S.user = (ev_, thrown, t)
            elif ev[0] == 'cond':
                c = catch_type(fn, ev[1])
                if c is not None and thrown is not None:
                    return cond_true(fn, ev[1], ev[2]) == (c == thrown)
            elif ev[0] == 'edge' and ev[2] == 'unwind':
                i = fn.ins[ev[1]]
                if cname(i) == '__cxa_throw' or reports(i):
                    return True
                return False
            return True
        if params is None:
            params = {k: sym('k') for k, q in enumerate(fn.params) if q['ty'] == 'i32'}
        a = Aff(fn, step, ((), None, None), mem, region, load=qload, call=calls, params=params, memkey=key)
        a.run()
        ctx.stats['automaton_states'] += a.visited
        self.exits = []
        for ex, S in a.exits:
            m = {k: v for k, v in S.mem.items() if isinstance(k, tuple) and k[0] == 'F' and scalar(v)}
            o = (ex, m, S.user)
            if o not in self.exits:
                self.exits.append(o)


def add(t, x):
    return t + (x,) if t.count(x) < 2 else t


def scalar(v):
    return isinstance(v, Lin) and all(k in (None, 'k') for k in v)
