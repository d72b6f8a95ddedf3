"""C14: multipart forms are delivered field by field, unaltered."""
from vlib import *
import os
import gen, mp

ROUTES = [('dump', '-', 'POST:/d'), ('dump', '-', 'PUT:/d'), ('dump', 'accept', 'POST:/f'), ('dump', '-', 'POST:/p/{id}')]


def ctype(r, b):
    q = r.choice((b'%s', b'%s', b'"%s"')) % b
    if b';' in b or b' ' in b or b',' in b or b'"' in b:
        q = b'"%s"' % b
    return r.choice((b'Content-Type', b'content-type', b'CONTENT-TYPE', b'Content-Type')) + r.choice((b': ', b':', b':  ')) + r.choice((b'multipart/form-data', b'multipart/form-data', b'Multipart/Form-Data', b'MULTIPART/FORM-DATA')) + \
        r.choice((b'; ', b';', b'; charset=utf-8; ')) + r.choice((b'boundary=', b'boundary=', b'BOUNDARY=')) + q + r.choice((b'', b'', b' ', b'; charset=utf-8')) + b'\r\n'


def giant(ctx, n):
    """A file part of n bytes, between two fields."""
    srv = Server(ctx, routes=ROUTES, flavour='plain', tls=True)
    block = gen.blob(ctx.rng, 1 << 20)
    pre = b'--XyZ\r\nContent-Disposition: form-data; name="a"\r\n\r\nfirst\r\n--XyZ\r\nContent-Disposition: form-data; name="f"; filename="g.bin"\r\n\r\n'
    post = b'\r\n--XyZ\r\nContent-Disposition: form-data; name="z"\r\n\r\nlast\r\n--XyZ--\r\n'

    def blocks():
        left, i = n, 0
        while left > 0:
            d = (b'%012d' % i + block)[:min(left, 1 << 20)]
            yield d
            left -= len(d)
            i += 1
    start = len(srv.poll())
    s = connect(srv.port, tls=True, timeout=1500)
    s.sendall(b'POST /api/d?u=giant HTTP/1.1\r\nContent-Type: multipart/form-data; boundary=XyZ\r\nContent-Length: %d\r\n\r\n' % (len(pre) + n + len(post)) + pre)
    for d in blocks():
        s.sendall(d)
    s.sendall(post)
    res = b''
    while True:
        d = s.recv(65536)
        if not d:
            break
        res += d
    s.close()
    srv.check()
    es = srv.find(lambda e: e['kind'] == 'H', start)
    form = es[0]['form'] if len(es) == 1 else None
    if form is None or not form.startswith(b'a=first&f=g.bin&tmpfile=') or not form.endswith(b'&z=last'):
        raise Violation('form', 'for a form with a file of %d bytes the handler ran %d times, with %r; answer %r' % (n, len(es), short(form), short(res)))
    path = srv.dir + '/upload/' + form.split(b'tmpfile=')[1].split(b'&')[0].decode('latin-1')
    with open(path, 'rb') as f:
        if os.path.getsize(path) != n or any(f.read(len(d)) != d for d in blocks()):
            raise Violation('file', 'the temporary file of an upload of %d bytes holds %d other bytes' % (n, os.path.getsize(path)))
    os.unlink(path)
    ctx.count('giant_uploads')
    ctx.case(('giant', n), {'file of': n})
    srv.stop()


def run(ctx):
    ctx.rule = ('well-formed forms with random numbers, kinds, orders, names, contents and sizes of parts (also empty, binary, containing text like headers, line ends and dashes); '
                'what the handler gets and every temporary file compared byte by byte, one at a time and at once, in random segments; non-trivial: distinct forms with a part')
    r = ctx.rng
    mult = 1 if ctx.quick else 20
    uid = [0]

    def job(big, n=None, maker=None):
        uid[0] += 1
        b, ps, body = maker(r) if maker else mp.form(r, n, big)
        m, u = r.choice(((b'POST', b'/api/d'), (b'PUT', b'/api/d'), (b'POST', b'/api/f'), (b'POST', b'/api/d')))
        url = u + b'?u=%d' % uid[0]
        hs = [ctype(r, b), b'Content-Length: %d\r\n' % len(body), b'Host: localhost\r\n', b'User-Agent: x\r\n']
        r.shuffle(hs)
        if r.random() < 0.15:
            hs[r.choice((0, 0, 1, 3)):0] = [b'X-H%d: %d\r\n' % (i, i) for i in range(r.choice((16, 18, 19, 20, 21, 25, 40)))]
        # what the body holds decides, not other headers
        data = m + b' ' + url + b' HTTP/1.1\r\n' + b''.join(hs) + b'\r\n' + body
        cuts = gen.parts(r, len(data), r.choice((0, 0, 0, 2, 6)))
        return url, ps, data, cuts

    def batch(srv, jobs, threads):
        start = len(srv.poll())
        res = {}

        def one(j):
            x = srv.request(j[2], parts=j[3])
            res[j[0]] = x
        parallel(one, jobs, threads)
        srv.check()
        got = {}
        for e in srv.find(lambda e: e['kind'] == 'H', start):
            got.setdefault(e['url'], []).append(e)
        for url, ps, data, cuts in jobs:
            es = got.get(url, [])
            if len(es) != 1:
                raise Violation('delivered', 'the handler ran %d times for the form %r; answer %r' % (len(es), short(data), short(res[url].data)), request=data.hex())
            err, names = mp.match(es[0]['form'] or b'', ps)
            if err:
                raise Violation('form', 'wrong form: %s; request %r' % (err, short(data, 600)), request=data.hex(), form=(es[0]['form'] or b'').hex())
            for t, content in names:
                try:
                    d = open(srv.dir + '/upload/' + t.decode('latin-1'), 'rb').read()
                except (OSError, ValueError):
                    d = None
                if d != content:
                    raise Violation('file', 'the temporary file %r holds %s instead of the %d bytes of the part (%r)' %
                                    (t, 'nothing' if d is None else '%d bytes %r' % (len(d), short(d, 60)), len(content), short(content, 60)), request=data.hex())
                ctx.count('files_compared')
                ctx.count('file_bytes', len(content))
            ctx.count('fields_compared', len(ps) - len(names))
            ctx.case((data.split(b'\r\n\r\n', 1)[1],) if ps else None, {'parts': [('file' if p[0] else 'field', short(p[1], 20), len(p[4])) for p in ps][:6], 'segments': len(cuts) + 1})

    # part sizes next to each other, in every order: a longer part before a shorter one, and the other way round
    def seq(sizes, files):
        def mk(r):
            b = gen.text(r, r.choice((4, 20, 40)))
            ps = []
            for i, n in enumerate(sizes):
                d = gen.text(r, n, b'abcdefgh \r\n')
                f = files[i]
                ps.append((f, b'n%d' % i, b'f%d.txt' % i if f else None, [b'Content-Type: text/plain'] if f and r.random() < 0.5 else [], d))
            return b, ps, mp.encode(r, b, ps)
        return mk

    srv = Server(ctx, routes=ROUTES, cov=True)
    jobs = []
    for sizes in ((0,), (1,), (0, 0), (500, 1), (1, 500), (3000, 0, 3000), (10, 9, 8, 7, 6, 5, 4, 3, 2, 1), (1, 2, 3, 4, 5), (0, 1000, 0), (255, 256, 257), (1022, 1023, 1024)):
        for pat in ((0,), (1,), (0, 1), (1, 0), (1, 1, 0)):
            jobs.append(job(0, maker=seq(sizes, [pat[i % len(pat)] for i in range(len(sizes))])))
    # long boundaries, whose beginning is in the parts
    for n in (8, 20, 30, 31, 32, 46, 47, 48, 57, 58, 59, 60, 61, 62, 63, 64, 65, 66, 67, 68, 69, 70):
        for k in (1, 2, n // 2, n - 32, n - 16, 6, 7, 8, 9, 10):
            if 0 < k < n:
                def mk(r, n=n, k=k):
                    b = gen.text(r, n, b'ABCDEFGHIJKLMNOP')
                    near = b'--' + b[:n - k]
                    ps = [(False, b'a', None, [], near + b'z\r\n' + near), (True, b'f', b'f.bin', [b'Content-Type: a/b'], b'x\r\n' + near + b'--\r\n' + near), (False, b'z', None, [], b'last')]
                    return b, ps, mp.encode(r, b, ps)
                jobs.append(job(0, maker=mk))
    jobs.append(job(0, maker=seq((1,) * 200, (0,) * 200)))
    jobs.append(job(0, maker=seq((0,) * 200, (1,) * 200)))
    jobs.append(job(0, maker=seq((2,) * 120, (0, 1) * 60)))
    jobs.append(job(0, maker=seq((200000, 3, 70000), (1, 0, 1))))
    jobs.append(job(0, maker=seq((100000,), (0,))))
    batch(srv, jobs, 1)
    for n in (1, 12, 12, 24):
        batch(srv, [job(r.choice((200, 4000))) for _ in range(900 * mult)], n)
    # a file of each small size, of every byte
    jobs = []
    for n in list(range(0, 40)) + [63, 64, 65, 255, 256, 257, 1023, 1024, 1025, 4095, 4096, 4097, 65535, 65536]:
        jobs.append(job(0, maker=lambda r, n=n: (lambda b, p: (b, p, mp.encode(r, b, p)))(b'BOUND' + gen.text(r, 10), [(True, b'f', b'x.bin', [], bytes((i * 7 + n) % 256 for i in range(n)))])))
    batch(srv, jobs, 6)
    srv.stop()
    # the same content again, after the file it was saved to has changed, or while it is still there
    srv = Server(ctx, routes=ROUTES, cov=True)
    up = srv.dir + '/upload/'
    same = [b'', b'same', b'same\r\n', gen.blob(r, 100), gen.blob(r, 5000)]
    for rnd in range(3 if ctx.quick else 20):
        def mk(r):
            ps = [(True, b'f', b'same.bin', [], d) for d in r.sample(same, r.choice((1, 2, 5)))]
            return b'SameBoundary', ps, mp.encode(r, b'SameBoundary', ps)
        batch(srv, [job(0, maker=mk) for _ in range(400 if ctx.quick else 1000)], r.choice((1, 8)))
        for f in os.listdir(up):
            k = r.random()
            if k < 0.3:
                open(up + f, 'wb').write(b'other ' * r.choice((1, 2000)))
            elif k < 0.5:
                open(up + f, 'wb').close()
            elif k < 0.6:
                os.unlink(up + f)
            ctx.count('tampered_files')
    srv.stop()
    # with the detailed log, with encryption, and with delays
    srv = Server(ctx, routes=ROUTES, cov=True, level=0)
    batch(srv, [job(1500) for _ in range(120 * mult)], 8)
    srv.stop()
    srv = Server(ctx, routes=ROUTES, cov=True, tls=True)
    batch(srv, [job(20000) for _ in range(50 * mult)], 6)
    srv.stop()
    srv = Server(ctx, routes=ROUTES, flavour='fort')
    batch(srv, [job(1500) for _ in range(150 * mult)], 8)
    srv.stop()
    srv = Server(ctx, routes=ROUTES, cov=True, chaos=30)
    batch(srv, [job(1500) for _ in range(500 * mult)], 24)
    srv.stop()
    if not ctx.quick:
        giant(ctx, (1 << 31) + 12345)
