"""Byte streams a server may meet: well-formed requests, and everything else."""
import gen, mp

METHODS = [b'GET', b'POST', b'PUT', b'DELETE']
BADM = [b'HEAD', b'OPTIONS', b'PATCH', b'TRACE', b'CONNECT', b'FOO', b'G', b'GE', b'PO', b'', b'\0', b'\xff\xfe', b'/', b'X' * 254, b'X' * 255, b'X' * 256,
        b'X' * 300, b'X' * 1022, b'X' * 1023, b'X' * 1024, b'X' * 2000]
NAMES = [b'Content-Type', b'Content-Length', b'Host', b'User-Agent', b'Referer', b'X-Session', b'Authorization', b'Cookie', b'X-Real-IP', b'Accept', b'Connection',
         b'Transfer-Encoding', b'X-Id']
PATHS = [b'/', b'/index.html', b'/a.txt', b'/d/', b'/d/b.bin', b'/none', b'/favicon.ico', b'/api', b'/api/', b'/api/d', b'/api/f', b'/api/p/', b'/api/p/zz',
         b'/api/none', b'/api/d?x=1', b'/a.txt?q', b'//a.txt', b'/../x', b'/%2e%2e/', b'/api/../d', b'/apix', b'/API/d', b'*', b'http://h/a', b'/api/p/{id}']


def path(r):
    p = r.choice(PATHS)
    k = r.random()
    if k < 0.35:
        p += gen.text(r, gen.size(r, 0, 1050), gen.URLC + b'/?&=\x80\xff')
    elif k < 0.45:
        p = gen.text(r, gen.size(r, 0, 1050), b'/a.')
    return p


def header(r):
    n = r.choice(NAMES) if r.random() < 0.8 else gen.text(r, gen.size(r, 0, 300))
    if r.random() < 0.2:
        n = n.swapcase()
    k = r.random()
    if n.lower() == b'content-type' and k < 0.6:
        v = r.choice((b'multipart/form-data; boundary=', b'multipart/form-data;boundary=', b'multipart/form-data', b'multipart/form-data; boundary="',
                      b'application/json', b'text/plain;', b';', b'multipart/form-data; BOUNDARY=')) + gen.text(r, r.choice((0, 1, 2, 30, 95, 96, 97, 98, 99, 100, 101, 300, 900)))
        if r.random() < 0.2:
            v += b'"'
    elif n.lower() == b'content-length' and k < 0.8:
        v = r.choice((b'0', b'1', b'-1', b'-5', b'', b'abc', b'10', b'100', b'99999', b'1e3', b'0x10', b' 7', b'+7', b'65536', b'1048576', b'2147483648', b'-2147483648',
                      b'4294967296', b'99999999999999999999', b'18446744073709551615'))
    elif n.lower() == b'cookie' and k < 0.7:
        v = r.choice((b'', b'a=b; ', b'a=b;', b'; ;', b'WSSESSION', b'xWSSESSION=q; ')) + r.choice((b'WSSESSION=', b'WSSESSION =', b'wssession=', b'')) + \
            gen.text(r, gen.size(r, 0, 1000)) + r.choice((b'', b';', b'; z=1', b' '))
    elif k < 0.3:
        v = gen.header_value(r, gen.size(r, 0, 1010))
    elif k < 0.4:
        v = gen.blob(r, gen.size(r, 0, 1200))
    elif k < 0.7:
        v = r.choice(gen.dictionary()[0])
    else:
        v = gen.text(r, gen.size(r, 0, 300), gen.TOKEN + b' ;=,:')
    return n, v


def head(r, method, url, hs, eol=b'\r\n'):
    out = method + b' ' + url + b' ' + r.choice((b'HTTP/1.1', b'HTTP/1.1', b'HTTP/1.0', b'', b'X' * 50)) + eol
    for n, v in hs:
        out += n + r.choice((b': ', b':', b' : ', b':\t', b'')) + v + eol
    return out + eol


def plain(r):
    """Mostly well formed."""
    m = r.choice(METHODS)
    u = r.choice((b'/', b'/a.txt', b'/d/b.bin', b'/none', b'/api/d?a=b', b'/api/p/v', b'/api/none', b'/api/f?v=1', b'/api/f?v=0'))
    body = gen.blob(r, gen.size(r, 0, 3000)) if m in (b'POST', b'PUT') else b''
    hs = [(b'Host', b'localhost'), (b'User-Agent', gen.header_value(r, r.choice((1, 10, 80))))]
    if body or r.random() < 0.2:
        hs.append((b'Content-Length', b'%d' % len(body)))
    if r.random() < 0.3:
        hs.append((b'X-Session', gen.text(r, r.choice((1, 20, 63, 64, 100)))))
    return b'%s %s HTTP/1.1\r\n' % (m, u) + b''.join(n + b': ' + v + b'\r\n' for n, v in hs) + b'\r\n' + body


def multi(r, broken=False):
    b, ps, body = mp.form(r, big=2500)
    if broken:
        for _ in range(r.choice((1, 1, 2, 4))):
            body = mutate(r, body, [b'--' + b, b'\r\n', b'\r\n\r\n', b'form-data; name="', b'; filename="', b'"', b'--'])
    n = len(body)
    if r.random() < 0.1:
        n += r.choice((-1, 1, -5, 100))
    q = r.choice((b'', b'', b'"'))
    return b'POST /api/d HTTP/1.1\r\nContent-Type: multipart/form-data; boundary=' + q + b + q + b'\r\nContent-Length: %d\r\n\r\n' % max(0, n) + body


def wild(r):
    m = r.choice(METHODS) if r.random() < 0.8 else r.choice(BADM)
    hs = [header(r) for _ in range(r.choice((0, 1, 2, 4, 8, 19, 20, 21, 40)))]
    body = gen.blob(r, gen.size(r, 0, 1500)) if r.random() < 0.5 else b''
    return head(r, m, path(r), hs, r.choice((b'\r\n', b'\r\n', b'\r\n', b'\n', b'\r', b'\r\r\n'))) + body


def mutate(r, d, tokens=()):
    if not d:
        return d
    k = r.randrange(9)
    i = r.randrange(len(d))
    j = min(len(d), i + r.choice((1, 1, 2, 4, 8, 30, 200)))
    if k == 0:
        return d[:i] + bytes([r.randrange(256)]) + d[i + 1:]
    if k == 1:
        return d[:i] + d[j:]
    if k == 2:
        return d[:j] + d[i:j] * r.choice((1, 1, 3, 30)) + d[j:]
    if k == 3:
        t = r.choice(tokens) if tokens and r.random() < 0.8 else r.choice(gen.dictionary()[0])
        return d[:i] + t + d[i:]
    if k == 4:
        t = r.choice(tokens) if tokens else r.choice(gen.dictionary()[0])
        p = d.find(t)
        return d[:p] + d[p + len(t):] if p >= 0 else d[:i]
    if k == 5:
        return d[:i]
    if k == 6:
        return d[:i] + gen.text(r, gen.size(r, 0, 1100)) + d[i:]
    if k == 7:
        return d[:i] + r.choice((b'\0', b'\r\n', b'\n', b'\r', b'"', b';', b':', b'=', b'?', b'%00', b'\xff', b' ', b'&', b'{', b'--')) + d[i:]
    a = r.randrange(len(d))
    return d[:i] + d[min(a, i):j] + d[i:]


def stream(r, corpus=()):
    """(bytes, kind)"""
    k = r.random()
    if k < 0.12:
        return plain(r), 'plain'
    if k < 0.2:
        return multi(r), 'multipart'
    if k < 0.35:
        return multi(r, True), 'broken-multipart'
    if k < 0.65:
        return wild(r), 'wild'
    if k < 0.7:
        return gen.blob(r, gen.size(r, 0, 2500)), 'noise'
    d = r.choice(corpus) if corpus and r.random() < 0.6 else r.choice((plain, wild, multi))(r)
    for _ in range(r.choice((1, 1, 2, 3, 6))):
        d = mutate(r, d)
    return d, 'mutated'
