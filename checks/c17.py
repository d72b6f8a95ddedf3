"""C17: JSON builders always emit valid JSON that decodes to their input."""
from unit import *
import hashlib
import gen

CH = [chr(c) for c in range(1, 128)] + list('é€😀ÿĀ߿ࠀ￿"\\/\b\f\n\r\t"\\')


def jtext(r, n):
    k = r.random()
    if k < 0.35:
        return gen.text(r, n).decode()
    if k < 0.75:
        return ''.join(r.choice(CH) for _ in range(n))
    if k < 0.85:
        return ''.join(r.choice('"\\') for _ in range(n))
    if k < 0.93:
        return ''.join(chr(r.randrange(1, 32)) for _ in range(n))
    return ''.join(r.choice('{}[],:"\'null true0123') for _ in range(n))


def fit(s, n):
    """The longest prefix of at most n bytes of whole characters."""
    return s.encode()[:n].decode('utf-8', 'ignore')


def sz(r):
    return gen.size(r, 0, 1500)


def mk(r):
    k = r.randrange(10)
    if k <= 1:
        n = r.choice((-1, 0, 1, 2, 3, 10, 49, 50, 51, 128, 300))
        l = [jtext(r, sz(r) if n < 20 else r.randrange(30)) if r.random() < 0.9 else '' for _ in range(max(n, 0))]
        if n > 0 and r.random() < 0.3:
            for i in r.sample(range(n), r.choice((1, 1, max(1, n // 2), n))):
                l[i] = None
        if r.random() < 0.15:
            w = jtext(r, r.choice((1, 10, 63, 64, 100, 255, 256)))
            l = [w] * max(n, 0)
        return ('jarr', n) + tuple(x if x is None else x.encode() for x in l), [x for x in l if x is not None]
    if k == 2:
        n = r.choice((-1, 0, 1, 2, 5, 100, 1000)) if r.random() < 0.6 else gen.size(r, 1, 3000)
        l = [r.choice((0, 1, -1, 2147483647, -2147483648, r.randrange(-2 ** 31, 2 ** 31))) for _ in range(max(n, 0))]
        if r.random() < 0.4:
            # all of one width: the longest, and others
            m = r.choice((-2147483648, -2147483648, -1, 0, 9, 10, 2147483647, -999999999, -1000000000))
            l = [m] * max(n, 0) if r.random() < 0.5 else [r.randrange(-2147483648, -1000000000) for _ in range(max(n, 0))]
        return ('jints', n) + tuple(l), l
    if k == 3:
        n = r.choice((0, 1, 2, 5, 40, 300))
        # entities are JSON texts themselves
        l = [json.dumps({'k': jtext(r, sz(r) if n < 10 else 20), 'n': i}, ensure_ascii=r.random() < 0.5) for i in range(n)]
        return ('jents', n) + tuple(x.encode() for x in l), [json.loads(x) for x in l]
    key = jtext(r, r.choice((0, 1, 5, sz(r))))
    if k in (4, 5):
        v = jtext(r, r.choice((0, 1, sz(r), sz(r), 5000)))
        return ('jkv', key.encode(), v.encode()), {key: v}
    if k == 6:
        v = r.choice((0, -1, 2147483647, -2147483648, r.randrange(-2 ** 31, 2 ** 31)))
        return ('jkvi', key.encode(), v), {key: v}
    if k == 7:
        if r.random() < 0.5:
            v = r.random() < 0.5
            return ('jkvb', key.encode(), v), {key: v}
        v = r.choice((0, 1, 2147483647, 2147483648, 4294967295, r.randrange(2 ** 32)))
        return ('jkvu', key.encode(), v), {key: v}
    if k == 8:
        code, msg = fit(jtext(r, r.choice((1, 5, 62, 63))), 63), fit(jtext(r, r.choice((0, 1, 100, 255, 256, 500, 1022, 1023))), 1023)
        if r.random() < 0.1:
            code = ''
        return ('err', code.encode(), msg.encode()), {'code': code or 'UNKNOWN', 'message': msg}
    st = r.choice((-1, 0, 1, 2))
    text, desc = fit(jtext(r, r.choice((0, 1, 20, 48, 49))), 49), fit(jtext(r, r.choice((0, 1, 100, 254, 255))), 255)
    info = r.choice((None, None, '{"a":1}', '[1,2]', '""', 'null', json.dumps([jtext(r, sz(r))])))
    exp = {'RSP': {-1: 'FAIL', 0: 'OK', 1: 'ERROR', 2: 'WARNING'}[st], 'data': json.loads(info) if info else ''}
    if text:
        exp['info'] = text
    if desc:
        exp['description'] = desc
    return ('resp', st, text.encode(), desc.encode(), info.encode() if info else None), exp


def nodup(pairs):
    d = {}
    for k, v in pairs:
        if k in d:
            raise ValueError('repeated key')
        d[k] = v
    return d


def run(ctx):
    ctx.rule = ('one builder call with random values (quotes, backslashes, control and multi-byte characters, edge lengths and counts); the output is '
                'parsed by an independent parser and compared; non-trivial: distinct calls with a non-empty value')
    u = Unit(ctx, again=[('pat', 170), ('fort', 85)])
    r = ctx.rng
    total = 8000 if ctx.quick else 200000
    while total > 0:
        n = min(2000, total)
        total -= n
        calls = [mk(r) for _ in range(n)]
        for (c, exp), got in zip(calls, u.run([c for c, _ in calls])):
            txt = got[0]
            if c[0].startswith('jkv'):
                txt = b'{' + (txt or b'') + b'}'
            try:
                v = json.loads(txt.decode('utf-8', 'strict'), object_pairs_hook=nodup)
            except (ValueError, AttributeError) as e:
                raise Violation('invalid-json', '%s gives invalid JSON (%s): %s' % (show(c), e, short(repr(got))), op=show(c, 5000), got=repr(got))
            if v != exp or type(v) != type(exp) or repr(v if not isinstance(v, dict) else sorted(v.items())) != repr(exp if not isinstance(exp, dict) else sorted(exp.items())):
                raise Violation('wrong-json', '%s decodes to %s instead of %s' % (show(c), short(repr(v)), short(repr(exp))), op=show(c, 5000), got=repr(got))
            ctx.case(c if len(c) > 2 else None, show(c, 120))
            ctx.count('calls_' + c[0])
    # lists and values of more bytes than an int can count
    G = 1 << 31
    up = Unit(ctx, flavour='plain')
    for k, n in ((3, 5 << 20), (0, 3 << 20)) + ((r.choice(((2, G // 2 + 99), (0, G + 5))),) if ctx.quick else ((2, G // 2 + 99), (40, G // 40 + 1), (3, G), (0, G - 8), (0, G - 1), (0, G + 5), (0, 2 * G + 5))):
        m = hashlib.md5(b'["' if k else b'"k":"')
        total = 2 if k else 5
        for i in range(k or 1):
            for t in big_text(n):
                t = t.replace(b'\n', b'\\u000a')
                m.update(t)
                total += len(t)
            if i < k - 1:
                m.update(b'","')
                total += 3
        m.update(b'"]' if k else b'"')
        total += 2 if k else 1
        got = up.run([('bigjson', k, n)], timeout=800)[0]
        if got != [total, m.hexdigest().encode()]:
            raise Violation('big', 'the JSON of %s of %d bytes has %d bytes instead of %d (digest %r)' % ('a list of %d texts' % k if k else 'a value', n, got[0], total, got[1]))
        ctx.case(('big', k, n), {'texts': k or 'key and value', 'bytes of each': n})
        ctx.count('big_texts')
    for n in (1 << 20, r.choice((G - 20, G + 5))) if ctx.quick else (1 << 20, G - 60, G - 20, G + 5, 2 * G + 5):
        head = b'{"RSP":"OK", "info":"the \\"info\\"","data":'
        m = hashlib.md5(head)
        for t in big_text(n):
            m.update(t)
        m.update(b'}')
        got = up.run([('bigresp', n)], timeout=800)[0]
        if got != [len(head) + n + 1, m.hexdigest().encode()]:
            raise Violation('big', 'the response with data of %d bytes has %d bytes instead of %d (digest %r)' % (n, got[0], len(head) + n + 1, got[1]))
        ctx.case(('big', 'response', n), {'bytes of the data': n})
        ctx.count('big_texts')
