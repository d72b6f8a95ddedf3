"""C27: text utilities match their documented meaning on every input."""
import hashlib, string
from unit import *
import gen

WS = b' \t\n\v\f\r'
ALNUM = (string.ascii_letters + string.digits).encode()


def rtext(r, n, kind=None):
    kind = kind or r.choice('aaabwmu')
    if kind == 'a':
        return gen.text(r, n)
    if kind == 'b':
        return bytes(r.choice(range(1, 256)) for _ in range(n))
    if kind == 'w':
        return bytes(r.choice(b'ab \t\r\n\v\f') for _ in range(n))
    if kind == 'm':
        return bytes(r.choice(b'ab=,;&:. ') for _ in range(n))
    return bytes(r.choice(b'aA\xc3\xa9\xff\x80"!#$') for _ in range(n))


def lower(b):
    return bytes(c + 32 if 65 <= c <= 90 else c for c in b)


def mk(r):
    """One call and its expected result (None: only safety)."""
    k = r.randrange(14)
    n = gen.size(r, 0, 3000)
    s = rtext(r, n)
    if r.random() < 0.15:
        # a constant of the code as (part of) the text
        d = r.choice(gen.dictionary()[0])
        s = r.choice((d, s[:20] + d, d + s[:20]))
    if k == 0:
        cnt = r.choice((0, 1, 2, 3, 5, 20, 51, 200)) if r.random() < 0.9 else -1
        d = rtext(r, r.choice((0, 1, 1, 1, 2, 3, 64)), 'm')
        arr = [rtext(r, gen.size(r, 0, 300)) if r.random() < 0.9 else b'' for _ in range(max(cnt, 0))]
        exp = d.join(arr) if cnt > 0 else b''
        if cnt > 1 and r.random() < 0.2:
            # missing entries (not the first one) are left out
            for i in r.sample(range(1, cnt), min(cnt - 1, r.choice((1, 1, 2, cnt - 1)))):
                arr[i] = None
            exp = d.join(x for x in arr if x is not None)
        return ('join', cnt, d) + tuple(arr), [exp]
    if k in (1, 2):
        d = bytes(set(rtext(r, r.choice((1, 1, 2, 3)), 'm'))) or b','
        if r.random() < 0.5:
            cnt = r.choice((0, 1, 2, 10, 48, 49, 50, 51, 52, 60, 120))
            s = b''.join(rtext(r, r.choice((1, 2, 5, gen.size(r, 0, 40))), 'a') + bytes([r.choice(d)]) * r.choice((1, 1, 1, 2)) for _ in range(cnt))
            if r.random() < 0.5:
                s = s[:-1]
        else:
            s = s.replace(b'\0', b'0')
        toks, cur = [], b''
        for c in s:
            if c in d:
                if cur:
                    toks.append(cur)
                cur = b''
            else:
                cur += bytes([c])
        if cur:
            toks.append(cur)
        toks = [t[:1023] for t in toks[:50]]
        return ('split', s, d), [len(toks)] + toks + [s]
    if k == 3:
        d = r.choice((b':', b':', b'=', b';', b',', b'|', b' '))
        if r.random() < 0.6:
            s = rtext(r, gen.size(r, 0, 1100)) + d + s
        if d == b' ' or s[:1] == b'' or True:
            i = s.find(d)
        if i < 0:
            exp = [1, s.strip(WS)[:1023]]
        else:
            exp = [2, s[:i].strip(WS)[:1023], s[i + 1:].strip(WS)[:1023]]
        return ('split_once', s, d), exp + [s]
    if k == 4:
        return ('trim', s), [s.strip(WS)]
    if k == 5:
        c = r.choice(s) if s and r.random() < 0.7 else r.choice(b';:,\xff')
        if c > 127:
            c = 59
        i = s.find(bytes([c]))
        return ('rtrim', s, c), [s[:i] if i >= 0 else s, s]
    if k == 6:
        i = next((i for i, c in enumerate(s) if c <= 34), len(s))
        return ('chop', s), [s[:i]]
    if k == 7:
        p = r.choice((s[:r.randrange(len(s) + 1)], s[:r.randrange(len(s) + 1)].swapcase(), s + b'x', rtext(r, 3), b''))
        p = bytes(p)
        return ('startswith', s, p), [int(lower(s).startswith(lower(p)))]
    if k == 8:
        l = [r.choice((s[:r.randrange(1, len(s) + 1)] if s else b'q', rtext(r, 4) or b'x', s + b'y')) for _ in range(r.choice((0, 1, 2, 5)))]
        if r.random() < 0.3:
            l.insert(r.randrange(len(l) + 1), b'')
        eff = l[:l.index(b'')] if b'' in l else l
        return ('startswithany', s, len(l)) + tuple(l), [int(any(lower(s).startswith(lower(p)) for p in eff))]
    if k in (9, 10):
        hay = gen.blob(r, gen.size(r, 0, 1500)) if r.random() < 0.5 else bytes(r.choice(b'ab\r\n') for _ in range(r.randrange(0, 60)))
        if hay and r.random() < 0.75:
            i = r.randrange(len(hay))
            nd = hay[i:i + r.choice((1, 2, 3, 4, 30, len(hay)))]
            if r.random() < 0.2:
                nd += b'zz'
        else:
            nd = rtext(r, r.choice((1, 2, 4)))
        nd = nd.replace(b'\0', b'') or b'q'
        start = r.choice((0, 0, r.randrange(len(hay) + 2)))
        nbytes = len(hay) if r.random() < 0.7 else r.randrange(len(hay) + 1)
        i = hay[:nbytes].find(nd, start)
        return ('tfa', hay, nd, start, nbytes), [i + len(nd) if i >= 0 else -1]
    if k == 11:
        if r.random() < 0.6:
            s = bytes(r.choice(ALNUM) for _ in range(min(n, 300)))
            if s and r.random() < 0.4:
                i = r.choice((0, len(s) - 1, r.randrange(len(s))))
                s = s[:i] + bytes([r.choice(b' _-.\xe9\x7f@[`{/:\t')]) + s[i + 1:]
        return ('isalnum', s), [int(len(s) > 0 and all(c in ALNUM for c in s))]
    if k == 12:
        if r.random() < 0.7:
            s = s[:r.choice((0, 1, 4, 50, n))] + r.choice((b'?', b'??', b'?a=b', b'?a=b?c', b'#x?y', b'/?', b'%3f', b'&?')) + s[r.choice((0, 1, 50)):][:r.choice((0, 1, 5, n))]
        a, _, b = s.partition(b'?')
        return ('pq', s), [a, b, s]
    d = gen.blob(r, r.choice((0, 1, 55, 56, 63, 64, 65, 511, 512, 513, 1023, 1024, 1025, 1536, gen.size(r, 0, 20000))))
    return ('md5', d), [hashlib.md5(d).hexdigest().encode() + b'\0']


def run(ctx):
    ctx.rule = ('one call of a random utility with random arguments of edge lengths (also parts and constants of the code), compared with '
                'an independent definition; non-trivial: distinct calls with non-empty text')
    u = Unit(ctx, again=[('pat', 170), ('fort', 85)])
    r = ctx.rng
    total = 16000 if ctx.quick else 400000
    seen = {}
    while total > 0:
        n = min(total, 4000)
        total -= n
        calls = [mk(r) for _ in range(n)]
        res = u.run([c for c, _ in calls])
        for (c, exp), got in zip(calls, res):
            if exp is not None and got != exp:
                raise Violation('wrong-result', '%s gives %s instead of %s' % (show(c), short(repr(got)), short(repr(exp))),
                                op=show(c, 5000), got=repr(got), expected=repr(exp))
            ctx.case(c if len(c) > 1 and c[1] not in (b'', 0) else None, show(c, 120))
            ctx.count('calls_' + c[0])
    # texts beyond what an int can count
    G = 1 << 31
    for n in ((1 << 20) + 16, 50 << 20) + (() if ctx.quick else (G - 1, G, G + 12345)):
        h = hashlib.md5()
        for i in range(0, n, 1 << 20):
            d = bytearray(bytes(range(256)) * 4096)[:n - i]
            if len(d) >= 16:
                d[:16] = b'%015d\0' % (i >> 20)
            h.update(d)
        got = u.run([('bigmd5', n), ('bigcut', n)], timeout=600)
        exp = [[h.hexdigest().encode() + b'\0'], [n - 2 + 5, n - 2]]
        if got != exp:
            raise Violation('wrong-result', 'the digest, blank trimming and cutting of a text of %d bytes give %r instead of %r' % (n, got, exp))
        ctx.case(('text', n), {'text of': n})
        ctx.count('big_texts')
