"""C07: static serving never leaves the www folder."""
import os
from vlib import *
import gen

SEGS = ['..', '..', '..', '.', '', 'www', 'etc', 'a', 'b', '%2e%2e', '..%2f', '%2e.', '...', '....', '..;', '.. ', '..\\', '\\..', 'www2', 'secret.txt', 'ssl', 'key.pem',
        'allow', '..\0', '\xc0\xae\xc0\xae', '..#', '..&', '~', 'index.html', 'in.txt', '..?', '..a', 'a..', '-..', '.h', 'b..c', '..file']


def paths(r, up):
    """Paths that try to get out; up: names reachable from outside the www folder."""
    k = r.random()
    if k < 0.45:
        n = r.choice((1, 2, 3, 3, 4, 5, 8, 14))
        p = '/'.join(r.choice(SEGS) for _ in range(n))
        if r.random() < 0.8:
            p += '/' + r.choice(up)
    elif k < 0.6:
        p = '/'.join([r.choice(('a', 'a', '..a', '...', 'a..', '....', '.h', 'b..c', '.', '')) for _ in range(r.randrange(0, 4))] + ['..'] * r.randrange(1, 30 if r.random() < 0.5 else 6)) + '/' + r.choice(up)
    elif k < 0.7:
        p = r.choice(('/', '//', '///', '')) + r.choice(('etc/passwd', 'etc/hostname', '/dev/shm', 'proc/self/environ')) + r.choice(('', '/', '?x'))
    elif k < 0.8:
        # long paths, whose middle or end may be lost
        n = r.choice((100, 200, 240, 250, 254, 255, 256, 257, 400, 490, 500, 505, 508, 510, 511, 512, 600, 900, 960, 980))
        fill = r.choice(('a/', './', '/', 'x', '../'))
        p = (fill * n)[:n] + '/' + r.choice(('../' * r.randrange(1, 20), '..', '')) + r.choice(up)
    elif k < 0.9:
        p = r.choice(('a/..%s', '..%s', 'a/b/../..%s', '%s..', 'a%s..')) % r.choice(('/', '//', '/./', '?/', '%2f', '\\')) + r.choice(up)
    else:
        p = r.choice(up) + '/' + '/'.join(r.choice(SEGS) for _ in range(3))
    return (r.choice(('/', '/', '/', '', '//', '/./', '/a/', '/x?/')) + p)


def run(ctx):
    ctx.rule = ('paths built from dot segments, empty segments, encodings, separators, queries and lengths, aiming at marked files around the www folder; every path the '
                'server opens is recorded; non-trivial: distinct paths with a dot-dot, doubled slash or encoding')
    r = ctx.rng
    total = 0
    for rnd in range(4 if ctx.quick else 30):
        mark = b'SECRET-' + r.randbytes(12).hex().encode()
        inside = {'index.html': b'INDEX', 'in.txt': b'inside', 'a/in.txt': b'inside', 'a/index.html': b'inside', 'a/b/c.txt': b'inside', 'www/in.txt': b'inside', '.../in.txt': b'inside', '..a/in.txt': b'ok', '..a/b/in.txt': b'ok',
                  'a../in.txt': b'ok', '..../in.txt': b'ok', '.h/in.txt': b'ok', '..file': b'ok', 'b..c/in.txt': b'ok'}
        deep = r.choice(('', '/x', '/x/y.z'))

        def prep(s):
            top = os.path.dirname(s.root)
            for p in (s.root, s.root + '/etc', s.root + '/ssl', s.root + '/www2', s.root + '/wwwx', os.path.dirname(s.www), top, s.root + '/a', s.root + '/.www'):
                os.makedirs(p, exist_ok=True)
                for n in ('secret.txt', 'key.pem', 'index.html', 'favicon.ico', 'www.txt'):
                    if not os.path.exists(p + '/' + n):
                        open(p + '/' + n, 'wb').write(mark)
            open(s.root + '/etc/deny', 'wb').write(mark + b'\n')
            open(s.root + '/wwwsecret.txt', 'wb').write(mark)
            os.symlink(s.www, s.root + '/alias')

        root = ctx.scratch('r') + '/root'
        srv = Server(ctx, root=root, static=root + deep + '/www', www=inside, record=True, cov=True, prep=prep, quiet=True,
                     index=r.choice(('/index.html', '/a/index.html', '/nothing.html')), favicon=r.choice(('/favicon.ico', '/in.txt')))
        up = ['secret.txt', 'key.pem', 'etc/deny', 'ssl/key.pem', 'www2/secret.txt', 'wwwx/secret.txt', 'wwwsecret.txt', 'root/secret.txt', 'index.html', 'favicon.ico', '',
              'etc/passwd', 'alias/../secret.txt', 'www/in.txt', 'www.txt', 'log/app.log', 'events', 'cfg', '.www/secret.txt', 'a/secret.txt'] + [root.lstrip('/') + '/secret.txt', 'proc/self/maps']
        jobs = []
        for _ in range(1200 if ctx.quick else 3000):
            p = paths(r, up).encode('latin-1').replace(b' ', r.choice((b' ', b'%20', b'+')))
            if p.lower().startswith(b'/api'):
                p = b'/' + p
            jobs.append(p[:1000])
        allowed = [root + '/etc/allow', root + '/etc/deny', root + '/etc/limits']
        rep = {}

        def one(p):
            hdr = r.choice((b'', b'', b'Host: h\r\n', b'X-Original-URL: /../secret.txt\r\n'))
            data = b'GET ' + p + b' HTTP/1.1\r\n' + hdr + b'\r\n'
            res = srv.request(data, half=True)
            if mark in res.data:
                raise Violation('content', 'the request %r returns the content of a file outside the www folder' % short(data), request=data.hex())
            if b'root:' in res.data and b':/bin/' in res.data:
                raise Violation('content', 'the request %r returns a system file' % short(data), request=data.hex())
            ctx.case(p if b'..' in p or b'//' in p or b'%' in p else None, short(p, 120))
            if b'inside' in res.data or b'INDEX' in res.data:
                ctx.count('inside_answers')
            elif res.data.startswith(b'HTTP/1.1 400'):
                ctx.count('refused')
        start = len(srv.poll())
        parallel(one, jobs, 8)
        srv.check()
        top = os.path.realpath(srv.www)
        for e in srv.poll()[start:]:
            if e['kind'] != 'R':
                continue
            ctx.count('opens_observed')
            n = e['norm'].decode('latin-1')
            real = os.path.realpath(n)
            if n in allowed:
                continue
            if not (real == top or real.startswith(top + '/')) and not (n + '/').startswith(srv.www + '/'):
                raise Violation('open', 'the server opens %r, which is outside the www folder' % e['path'], path=repr(e['path']))
        srv.stop()
