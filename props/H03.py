"""Callables that carry a context."""
from props.streams import *

BOUNDS = ('calls with up to 2 positional and 1 keyword argument of any value, and of '
          'odd values and names, up to 3 '
          'contexts in a row or nested, bodies, enter and exit functions that raise, '
          'exit functions that do or do not suppress, with 8 kinds of answers; plain functions, objects with '
          'attributes that change (3 changes), two wrappers at once, bound methods, wrappers of wrappers')
ASSUMPTIONS = []


class Obj:
    """A callable object whose attributes could clash with the wrapper's"""

    def __init__(self):
        self.func = 'own func'
        self.enter_func = 'own enter'
        self.exit_func = 'own exit'
        self.other = 42
        self.calls = 0

    def __bool__(self):
        return False

    @property
    def twice(self):
        return 2 * self.calls

    def __call__(self, a, b=0, *, c=0):
        self.calls += 1
        return a + 2 * b + 3 * c


def plain(a, b=0, *, c=0):
    """doc"""
    return a + 2 * b + 3 * c


plain.mark = 'mark'


class Err(Exception):
    pass


def target(e, rt, U, kind, log):
    if kind == 'plain':
        return plain
    if kind == 'object':
        return Obj()
    return U.ContextualizeCall(plain, lambda f: log.append('inner'),
                               lambda f, *x: log.append('inner exit'))


def attributes(e, rt, n):
    """An attribute is always what it is in the wrapped callable"""
    U = rt.m('stream2py.util')
    f = Obj()
    g = U.ContextualizeCall(f)
    for i in range(n):
        op = e.pick(f'op{i}', ('call', 'set', 'new', 'delete', 'in context'))
        if op == 'call':
            g(1)
        elif op == 'set':
            f.other = e.int(f'v{i}')
        elif op == 'new':
            f.more = e.int(f'v{i}')
        elif op == 'delete':
            f.__dict__.pop('other', None)
        else:
            with g:
                g(1)
        for a in ('other', 'calls', 'twice', 'more', 'never'):
            want, got = call(getattr, f, a), call(getattr, g, a)
            if want[0] == 'raise':
                expect_raise(e, got, AttributeError, 'an attribute out of nowhere', a)
            else:
                e.check(same(expect_ok(e, got, 'an attribute is lost', a), want[1]),
                        'an attribute is not that of the function', f'{a} {got} {want}')
        e.cover(op)


def told(t, v, tb):
    """What an exit function was told: the class of an exception, or None for none;
    anything that is not as the with statement has it is the text of what is wrong"""
    if t is None and v is None and tb is None:
        return None
    if isinstance(v, Err) and t is type(v) and tb is not None and v.__traceback__ is tb:
        return t
    return f'not an exception: {t!r} {v!r} {tb!r}'


ANSWERS = (False, True, None, 1, 0, 'yes', '', [0])


def wrap(e, rt, kind, n):
    U = rt.m('stream2py.util')
    log = []
    f = target(e, rt, U, kind, log)
    suppress = e.pick('suppress', ANSWERS)

    def enter(o):
        log.append(('enter', o))
        if e_raise == 'enter':
            raise Err('enter')
        return 'entered'

    def exit1(o, t, v, tb):
        log.append(('exit', o, told(t, v, tb)))
        return suppress

    def exit2(o, *exc):
        log.append(('exit', o, told(*exc)))
        return suppress

    how = e.pick('exit function', (exit1, exit2, Falsy(exit2)))
    g = U.ContextualizeCall(f, Falsy(enter) if type(how) is Falsy else enter, how)
    if kind == 'plain':
        e.check(g.__name__ == 'plain' and g.__doc__ == 'doc' and g.mark == 'mark',
                'attributes of the function are lost')
    elif kind == 'object':
        e.check(g.other == 42, 'attributes of the object are lost')
    if kind != 'wrapper':
        out = call(lambda: g.no_such_attribute)
        expect_raise(e, out, AttributeError, 'an attribute out of nowhere')
    a, b, c = e.int('a'), e.int('b'), e.int('c')
    e.check(g(a, b, c=c) == f(a, b, c=c), 'the call gives something else')
    e.check(g(a, c=c) == a + 3 * c, 'the call gives something else')
    out = call(g)
    expect_raise(e, out, TypeError, 'missing arguments were accepted')
    log.clear()
    anything(e, U)
    e.check(log == [], 'a call entered the context', str(log))
    for i in range(n):
        e_raise = e.pick(f'raise{i}', ('no', 'enter', 'body'))
        log.clear()

        def body():
            with g as x:
                e.check(x == 'entered', 'with gives something else than enter')
                e.check(len(log) == 1, 'entered once', str(log))
                e.check(g(a, b) == a + 2 * b, 'the call gives something else')
                e.check(len(log) == 1, 'a call entered the context', str(log))
                if e_raise == 'body':
                    raise Err('body')
            return 'after'

        out = call(body)
        ent = [x for x in log if x[0] == 'enter']
        ex = [x for x in log if x[0] == 'exit']
        e.check(len(ent) == 1 and ent[0][1] is f, 'enter was not called once with the '
                'function', str(log))
        if e_raise == 'enter':
            expect_raise(e, out, Err, 'a failing enter was hidden')
            e.check(not ex, 'exit after a failing enter')
            e.cover('enter fails')
            continue
        e.check(len(ex) == 1 and ex[0][1] is f, 'exit was not called once with the '
                'function', str(log))
        if e_raise == 'body':
            e.check(ex[0][2] is Err, 'exit was not told of the exception', str(ex))
            if suppress:
                expect_ok(e, out, 'a suppressed exception came out')
                e.cover('suppressed')
            else:
                expect_raise(e, out, Err, 'an exception was hidden')
                e.cover('raised')
        else:
            e.check(ex[0][2] is None, 'exit was told of an exception', str(ex))
            expect_ok(e, out, 'raised')


def pair(e, rt, n):
    """Two wrappers at once, of the same function or of two, entered in any order"""
    U = rt.m('stream2py.util')
    log = []
    fs = [lambda x: ('f', x), lambda x: ('g', x)]
    if e.flag('same function'):
        fs[1] = fs[0]
    how = e.pick('how', ('both', 'first', 'second'))

    def mk(j, f):
        if how in ('both', ('first', 'second')[j]):
            return U.ContextualizeCall(f, lambda o: log.append(('enter', j, o)) or j,
                                       lambda o, *x: log.append(('exit', j, o, x[0])))
        return U.ContextualizeCall(f)

    gs = [mk(0, fs[0]), mk(1, fs[1])]
    inside = [[], []]
    v = e.int('v')
    for i in range(n):
        j = e.choice(f'which{i}', 2)
        own = how in ('both', ('first', 'second')[j])
        log.clear()
        op = e.pick(f'op{i}', ('enter', 'call') + (('exit', 'error') if inside[j] else ()))
        if op == 'call':
            e.check(gs[j](v) == fs[j](v), 'the call gives something else')
            want = []
        elif op == 'enter':
            out = expect_ok(e, call(gs[j].__enter__), 'enter raised')
            e.check(not own or out == j, 'the enter function of another wrapper')
            inside[j].append(1)
            want = [('enter', j, fs[j])]
        else:
            inside[j].pop()
            x = (Err, Err('x'), None) if op == 'error' else (None, None, None)
            out = expect_ok(e, call(gs[j].__exit__, *x), 'exit raised')
            e.check(not out, 'an exception was hidden')
            want = [('exit', j, fs[j], x[0])]
        e.check(log == (want if own else []), 'calls of the context', str(log))
        e.cover(op)


ODD = (None, False, 0, '', (), [], {}, ..., NotImplemented, type, plain)


def anything(e, U):
    """Arguments and results of any type pass through untouched, under any names"""
    calls = []
    res = e.pick('result', range(len(ODD)))

    def func(*a, **kw):
        calls.append((a, kw))
        return ODD[res]

    g = U.ContextualizeCall(func)
    x, y = ODD[e.choice('arg', len(ODD))], ODD[(res * 3 + 1) % len(ODD)]
    for a, kw in (((), {}), ((x,), {}), ((x, y), dict(c=x)), ((), dict(a=x, b=y)),
                  ((x,), dict(func=x, enter_func=y, exit_func=x, args=y, kwargs=x)),
                  ((), dict(self=x, instance=y, obj=x)), ((x,), dict(self=y))):
        calls.clear()
        out = call(g, *a, **kw)
        e.check(out[0] == 'ok' and out[1] is ODD[res], 'another result', show(out))
        e.check(len(calls) == 1 and len(calls[0][0]) == len(a) and
                set(calls[0][1]) == set(kw) and
                all(p is q for p, q in zip(calls[0][0], a)) and
                all(calls[0][1][n] is v for n, v in kw.items()),
                'other arguments', f'{calls} instead of {a} {kw}')


class Stream:
    def __init__(self, log):
        self.log = log
        self.n = 0
        self.answer = None
        self.entered = object()  # enter need not return the instance

    def __len__(self):
        return 0

    def __enter__(self):
        self.log.append('enter')
        return self.entered

    def __exit__(self, *exc):
        self.log.append(('exit', told(*exc)))
        return self.answer

    def read(self, k=1):
        """reads"""
        self.n += k
        return self.n


def forward(e, rt, n):
    """A bound method forwards its context to its instance"""
    U = rt.m('stream2py.util')
    log = []
    s, other = Stream(log), Stream([])
    g = U.contextualize_with_instance(s.read)
    U.contextualize_with_instance(other.read)
    want = []
    total = 0
    for i in range(n):
        fails = e.flag(f'raise{i}')
        s.answer = e.pick(f'answer{i}', ANSWERS)
        k = e.int(f'k{i}')
        total = total + k

        def body():
            with g as x:
                e.check(x is s.entered, 'with gives something else than the instance does')
                e.check(g(k) == total, 'the call gives something else')
                if fails:
                    raise Err('body')

        out = call(body)
        want += ['enter', ('exit', Err if fails else None)]
        e.check(log == want, 'the context of the instance', f'{log} expected {want}')
        if fails and not s.answer:
            expect_raise(e, out, Err, 'an exception was hidden')
            e.cover('raised')
        else:
            expect_ok(e, out, 'raised')
            e.cover('ok')
    e.check(other.log == [], 'another instance was used')
    e.check(g.__name__ == 'read', 'name of the method')


def stream(e, rt):
    """With the read of a stream: the stream runs exactly in the context"""
    U = rt.m('stream2py.util')
    ks = increasing(e, 2)
    src = Probe.make(e, rt, [ks], sleep=0.1)
    sb = rt.StreamBuffer(src, maxlen=3)
    g = U.contextualize_with_instance(sb.__next__)
    out = call(g)
    expect_raise(e, out, rt.exceptions.StreamNotStartedError, 'read without context')
    fails = e.flag('raise')

    def body():
        with g:
            e.check(sb.is_running, 'not running in the context')
            rt.sleep(0.3)
            e.check(same(g(), ks[0]), 'first')
            if fails:
                raise Err('body')
            e.check(same(g(), ks[1]), 'second')

    out = call(body)
    e.check((out[0] == 'raise') == fails and (not fails or isinstance(out[1], Err)),
            'wrong outcome', show(out))
    e.check(not sb.is_running, 'running after the context')
    audit(e, src)
    e.cover('streamed')


def refused(e, rt):
    """Functions that cannot do the job are refused when wrapping"""
    U = rt.m('stream2py.util')
    good = lambda o, *x: None
    kind = e.pick('kind', ('func', 'enter', 'exit', 'none'))
    bad = {'func': [(3, good, good), (None, good, good), ('f', good, good)],
           'enter': [(plain, None, good), (plain, lambda: 0, good), (plain, 7, good)],
           'exit': [(plain, good, None), (plain, good, lambda: 0),
                    (plain, good, lambda a, b: 0), (plain, good, lambda a, b, c: 0),
                    (plain, good, 'x')],
           'none': [(plain, good, good), (plain, lambda o: 0, lambda a, b, c, d: 0),
                    (plain, lambda *a: 0, lambda *a: 0),
                    (plain, lambda o, x=1: 0, lambda a, b, c, d, x=1: 0)]}[kind]
    args = bad[e.choice('which', len(bad))]
    out = call(U.ContextualizeCall, *args)
    if kind == 'none':
        g = expect_ok(e, out, 'good functions were refused', args)
        with g:
            e.check(g(1) == 1, 'call')
    else:
        expect_raise(e, out, TypeError, f'a bad {kind} function was accepted', args)
    e.cover(kind)


R = {'enter fails', 'suppressed', 'raised'}
TASKS = [
    Task('plain', wrap, dict(kind='plain', n=2), R),
    Task('object', wrap, dict(kind='object', n=2), R),
    Task('wrapper', wrap, dict(kind='wrapper', n=2), R),
    Task('two wrappers', pair, dict(n=4), {'call', 'enter', 'exit', 'error'}),
    Task('forward', forward, dict(n=2), {'raised', 'ok'}),
    Task('attributes', attributes, dict(n=3), {'call', 'set', 'new', 'delete',
                                              'in context'}),
    Task('stream', stream, {}, {'streamed'}, preempt=1),
    Task('refused', refused, {}, {'func', 'enter', 'exit', 'none'}),
    Task('plain deep', wrap, dict(kind='plain', n=4), R, tier='thorough'),
    Task('object deep', wrap, dict(kind='object', n=4), R, tier='thorough'),
    Task('forward deep', forward, dict(n=4), {'raised', 'ok'}, tier='thorough'),
    Task('stream deep', stream, {}, {'streamed'}, preempt=3, tier='thorough', limit=3000),
]
