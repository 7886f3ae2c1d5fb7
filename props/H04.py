"""HTTPResponseReader: the request asked for, every byte, in order, as bytes or text."""
from props.common import *

BOUNDS = ('responses of up to 3 characters (one representative of every encoded length) '
          'cut at any positions into up to 4 chunks, then the end; any method of 4, body '
          'of 3 kinds, headers of 2; 2 sessions of one source; failure to open at any '
          'session; two sources in turns; 60 characters in equal chunks of 1..8 bytes')
ASSUMPTIONS = ['the network library honours the Request object it is given',
               'characters with the same encoded length decode alike: one representative '
               'each (the codec itself is not part of the code under test)',
               'at least one byte of each response; time does not run backwards']

URL = 'http://host.test/a?b=c'
CHARS = {'utf-8': 'a\u00e9\u20ac\U0001f600', 'utf-16-le': 'a\U0001f600',
         'latin-1': 'a\u00e9', 'shift_jis': 'a\u3042', '': 'a\u00e9'}


class Resp:
    """What the network library returns for one request"""

    def __init__(self, e, rt, chunks, args):
        self.e, self.rt, self.chunks, self.args = e, rt, list(chunks), args
        self.given = []
        self.closed = 0

    def read(self, *a):
        self.e.check(not self.closed, 'read after close')
        self.e.check(a == self.args, 'wrong arguments for the response', f'{a}')
        self.before = self.rt.time.time()
        self.rt.sleep(0.5)
        self.after = self.rt.time.time()
        c = self.chunks.pop(0) if self.chunks else b''
        self.given.append(c)
        return c

    def close(self):
        self.closed += 1

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


class Opener:
    def __init__(self, make):
        self.make = make
        self.reqs = []

    def open(self, req, data=None, timeout=None):
        self.reqs.append((req, data))
        return self.make(len(self.reqs) - 1)


def with_opener(opener, fn):
    import urllib.request as u
    old = u._opener
    u.install_opener(opener)
    try:
        return fn()
    finally:
        u.install_opener(old)


def chunks_of(e, data, n, pre):
    """data cut at n - 1 positions (solver variables), without empty chunks"""
    cuts = [e.int(f'{pre}{i}', 1, len(data) - 1) for i in range(min(n, len(data)) - 1)]
    for a, b in zip(cuts, cuts[1:]):
        e.assume(a < b)
    at = [0] + [int(c) for c in cuts] + [len(data)]
    return [data[a:b] for a, b in zip(at, at[1:])]


def stream(e, rt, nchars, ncuts, encodings, sessions=1, faults=False, abandon=False):
    R = rt.m('stream2py.sources.http').HTTPResponseReader
    enc = e.pick('encoding', encodings)
    raw_args = e.pick('read args', [(), 4, (4,), None])
    want_args = {None: (), 4: (4,)}.get(raw_args, raw_args)
    kw = {} if raw_args == () else dict(response_read_args=raw_args)
    if enc:
        kw['encoding'] = enc
    texts, resps = [], []
    for s in range(sessions):
        t = ''.join(e.pick(f'char{s}.{i}', CHARS[enc]) for i in range(nchars))
        data = t.encode(enc or 'utf-8')
        n = 1 + e.choice(f'cuts{s}', min(ncuts, len(data) - 1) + 1) if len(data) > 1 else 1
        texts.append((t, data, chunks_of(e, data, n, f'cut{s}.')))
    bad = e.choice('failing open', sessions + 1) if faults else sessions

    def make(i):
        if i == bad:
            e.cover('open failed')
            raise OSError('refused')
        r = Resp(e, rt, texts[len(resps)][2], want_args)
        resps.append(r)
        return r

    op = Opener(make)

    def go():
        src = R(URL, **kw)
        e.check(src.info['n_bytes_read'] == 0, 'bytes read before opening')
        total = 0
        for s in range(sessions):
            if len(op.reqs) == bad:
                expect_raise(e, call(src.open), OSError, 'a failure to open was hidden')
                call(src.close)
            expect_ok(e, call(src.open), 'open raised')
            t, data, chunks = texts[s]
            r = resps[-1]
            got, seen = [], 0
            stop_at = e.choice(f'abandon{s}', len(chunks) + 1) if abandon and s == 0 \
                else len(chunks)
            for c in chunks[:stop_at] + ([b''] if stop_at == len(chunks) else []):
                item = expect_ok(e, call(src.read), 'read raised',
                                 f'{data} cut as {chunks}')
                e.check(isinstance(item, tuple) and len(item) == 2, 'not a pair')
                e.check(r.after <= item[0] <= rt.time.time(), 'wrong time',
                        f'{item[0]} {r.before} {r.after}')
                e.check(type(item[1]) is (str if enc else bytes), 'wrong type')
                got.append(item[1])
                total += len(c)
                seen += len(c)
                e.check(src.info['n_bytes_read'] in (total, seen),
                        'wrong number of bytes read',
                        f"{src.info['n_bytes_read']} of {total}")
                want = t if enc else data
                have = (got[0][:0]).join(got)
                e.check(want.startswith(have), 'content out of order', f'{got}')
                e.check(src.key(item) == item, 'the key is not the item')
            if stop_at == len(chunks):
                e.check(have == want, 'content lost', f'{got} instead of {want!r}')
                for _ in range(2):  # a stream buffer reads on
                    item = expect_ok(e, call(src.read), 'a read after the end raised')
                    e.check(len(item[1]) == 0, 'content after the end', f'{item}')
                e.cover('whole')
                if len(chunks) > 1:
                    e.cover('cut')
            else:
                e.cover('abandoned')
            expect_ok(e, call(src.close), 'close raised')
            e.check(r.closed >= 1, 'the response was not closed')
            expect_ok(e, call(src.close), 'closing twice raised')
        e.check(all(r.closed == 1 for r in resps), 'a response was closed twice')

    with_opener(op, go)


def request(e, rt):
    """The request that is sent is the one asked for"""
    R = rt.m('stream2py.sources.http').HTTPResponseReader
    method = e.pick('method', [None, 'GET', 'get', 'POST', 'PUT', 'DELETE'])
    body = e.pick('body', [None, '', 'text\u00e9', b'\x00\xff'])
    headers = e.pick('headers', [None, {}, {'X-Token': 'one', 'Accept': 'text/plain'}])
    kw = {}
    if method is not None:
        kw['method'] = method
    if body is not None:
        kw['body'] = body
    if headers is not None:
        kw['headers'] = headers
    op = Opener(lambda i: Resp(e, rt, [b'x'], ()))

    def go():
        src = R(URL, **kw)
        e.check(not op.reqs, 'requested before open')
        expect_ok(e, call(src.open), 'open raised')
        e.check(len(op.reqs) == 1, 'number of requests')
        req, data = op.reqs[0]
        e.check(req.full_url == URL, 'wrong url', req.full_url)
        e.check(req.get_method().upper() == (method or 'GET').upper(), 'wrong method',
                req.get_method())
        sent = data if data is not None else req.data
        if (method or 'GET').upper() == 'GET':
            e.check(not sent, 'a GET with a body')
            e.cover('get')
        else:
            want = body.encode() if isinstance(body, str) else body
            e.check((sent or b'') == (want or b''), 'wrong body', f'{sent!r}')
            e.cover('with body')
        e.check({k.lower(): v for k, v in req.header_items()}
                == {k.lower(): v for k, v in (headers or {}).items()}, 'wrong headers',
                f'{req.header_items()}')
        i = src.info
        e.check(i['url'] == URL and i['init_kwargs']['headers'] == (headers or {})
                and i['init_kwargs']['method'] == (method or 'GET'), 'wrong info', str(i))
        src.close()

    with_opener(op, go)


def through_buffer(e, rt, nchars):
    """The whole response reaches a reader of a stream buffer, and the response is
    closed with the buffer"""
    R = rt.m('stream2py.sources.http').HTTPResponseReader
    t = ''.join(e.pick(f'char{i}', CHARS['utf-8']) for i in range(nchars))
    data = t.encode()
    n = 1 + e.choice('cuts', min(2, len(data) - 1) + 1) if len(data) > 1 else 1
    resp = Resp(e, rt, chunks_of(e, data, n, 'cut'), ())

    def go():
        src = R(URL, encoding='utf-8')
        with rt.StreamBuffer(src, maxlen=None) as sb:
            r = sb.mk_reader()
            got = ''
            last = None
            while True:
                item = r.read(blocking=True)
                e.check(last is None or last < item[0], 'times do not increase')
                last = item[0]
                got += item[1]
                if len(resp.given) > n and len(got) >= len(t):
                    break
        e.check(got == t, 'content lost', f'{got!r} instead of {t!r}')
        e.check(resp.closed == 1, 'the response was not closed once', str(resp.closed))
        e.cover('done')

    with_opener(Opener(lambda i: resp), go)


def long(e, rt, n, encodings):
    """A long response, in equal chunks of any size"""
    R = rt.m('stream2py.sources.http').HTTPResponseReader
    enc = e.pick('encoding', encodings)
    text = ''.join(CHARS[enc][i % len(CHARS[enc])] for i in range(n))
    data = text.encode(enc or 'utf-8')
    size = int(e.int('size', 1, 8))
    off = int(e.int('first', 0, size - 1))
    cuts = sorted({0, *range(off, len(data), size), len(data)})
    resp = Resp(e, rt, [data[a:b] for a, b in zip(cuts, cuts[1:])], ())

    def go():
        src = R(URL, **(dict(encoding=enc) if enc else {}))
        src.open()
        got = []
        while True:
            t, x = src.read()
            got.append(x)
            if not resp.given[-1]:
                break
        e.check(got[0][:0].join(got) == (text if enc else data), 'content lost')
        e.check(src.info['n_bytes_read'] == len(data), 'wrong number of bytes read')
        src.close()
        e.check(resp.closed == 1, 'the response was not closed once')
        e.cover('whole')

    with_opener(Opener(lambda i: resp), go)


def pair(e, rt, nops):
    """Two sources of two urls, opened, read and closed in any order"""
    R = rt.m('stream2py.sources.http').HTTPResponseReader
    encs = [e.pick(f'encoding{j}', ('', 'utf-8', 'utf-16-le')) for j in (0, 1)]
    text = 'a\u00e9b'
    data = [text.encode(x or 'utf-8') for x in encs]
    args = [(), (4,)]
    urls = [URL, 'http://other.test/']
    heads = [{'X-Token': 'one'}, None]
    resps = [None, None]
    op = Opener(None)

    def make(i):
        j = urls.index(op.reqs[-1][0].full_url)
        e.check({k.lower() for k, _ in op.reqs[-1][0].header_items()} ==
                {k.lower() for k in heads[j] or {}}, 'the headers of another source')
        resps[j] = Resp(e, rt, [data[j][:2], data[j][2:3], data[j][3:]], args[j])
        return resps[j]

    op.make = make

    def go():
        srcs = [R(u, encoding=x, response_read_args=a, headers=h)
                for u, x, a, h in zip(urls, encs, args, heads)]
        got = [None, None]
        total, seen = [0, 0], [0, 0]
        for i in range(nops):
            j = e.choice(f'source{i}', 2)
            s = srcs[j]
            if got[j] is None:
                expect_ok(e, call(s.open), 'open raised')
                got[j] = []
                seen[j] = 0
            elif len(got[j]) == 4:
                expect_ok(e, call(s.close), 'close raised')
                e.check(resps[j].closed == 1, 'not closed once')
                got[j] = None
            else:
                x = expect_ok(e, call(s.read), 'read raised')[1]
                got[j].append(x)
                total[j] += len(resps[j].given[-1])
                seen[j] += len(resps[j].given[-1])
                want = text if encs[j] else data[j]
                have = x[:0].join(got[j])
                e.check(have == want if len(got[j]) > 3 else want.startswith(have),
                        'content lost or out of order', f'{got[j]}')
                if len(got[j]) > 3:
                    e.cover('whole')
            for s, t, n, u, g, r in zip(srcs, total, seen, urls, got, resps):
                e.check(s.info['url'] == u and (s.info['n_bytes_read'] in (t, n) or
                                                g is None), 'wrong info', str(s.info))
                e.check(g is None or not r.closed, 'closed with another source')
        for s in srcs:
            s.close()

    with_opener(op, go)


ENC = ['utf-8', '']
MORE = ['utf-16-le', 'latin-1', 'shift_jis']
TASKS = [
    Task('stream', stream, dict(nchars=2, ncuts=2, encodings=ENC), {'whole', 'cut'}),
    Task('encodings', stream, dict(nchars=2, ncuts=3, encodings=MORE), {'whole', 'cut'}),
    Task('sessions', stream, dict(nchars=1, ncuts=2, encodings=ENC, sessions=2,
                                  faults=True, abandon=True),
         {'whole', 'cut', 'open failed', 'abandoned'}),
    Task('long', long, dict(n=60, encodings=ENC + MORE), {'whole'}),
    Task('two sources', pair, dict(nops=8), {'whole'}),
    Task('request', request, {}, {'get', 'with body'}),
    Task('buffer', through_buffer, dict(nchars=2), {'done'}),
    Task('stream deep', stream, dict(nchars=3, ncuts=3, encodings=ENC + MORE),
         {'whole', 'cut'}, tier='thorough', limit=3000),
    Task('sessions deep', stream, dict(nchars=2, ncuts=2, encodings=ENC, sessions=2,
                                       faults=True, abandon=True),
         {'whole', 'cut', 'open failed', 'abandoned'}, tier='thorough', limit=3000),
    Task('buffer, pre-empted', through_buffer, dict(nchars=2), {'done'}, preempt=1,
         tier='thorough', limit=3000),
]
