"""C35: what is logged, and how much, changes nothing about how requests are served."""
from vlib import *
import c23, gen

LIMITS = b'/api/none, 0, 0\n/api/x, 50, 50, 5\n'


def tricky(r):
    """Texts that a log function may take for more than text."""
    f = r.choice((b'%s', b'%n', b'%d%s%n%x', b'%%', b'%1000000d', b'%-5s:', b'%lu' * 40, b'%*d', b'\x1b[31m', b'%' * 200, b'\\n', b'"', b'%2$s', b'%hhn%hhn'))
    k = r.random()
    h = b''
    body = b''
    if r.random() < 0.25:
        # very long ones
        m = r.choice((100, 200, 255, 256, 400, 500, 511, 512, 513, 600, 700, 900, 960))
        line = r.choice((b'GET /api/d?q=', b'GET /api/p/', b'GET /a.txt?', b'POST /api/d?', b'GET /api/nix', b'GET /', b'GET /api/l?')) + gen.text(r, m, gen.URLC + b'&=%')
        if r.random() < 0.4:
            h = r.choice((b'X-Session', b'Referer', b'User-Agent', b'Cookie', b'X-Long')) + b': ' + gen.text(r, r.choice((63, 64, 200, 254, 255, 256, 900))) + b'\r\n'
        if line.startswith(b'POST'):
            body = gen.text(r, r.choice((10, 255, 1023, 1024, 4095, 4096, 5000, 20000)), gen.URLC + b'&=%\r\n ')
            h += b'Content-Length: %d\r\n' % len(body)
    elif k < 0.35:
        line = b'GET ' + r.choice((b'/', b'/api/d?', b'/api/p/', b'/a.txt?', b'/api/l?', b'/api/nix')) + f.replace(b' ', b'')
    elif k < 0.7:
        line = r.choice((b'GET /api/l?q', b'GET /api/d', b'GET /a.txt', b'GET /api/d?' + b''.join(r.choice((b'a', b'b=1', b'&', b'=', b'#', b';', b',', b'|', b'"', b"'", b'\\', b'\t', b'\x7f', b'\xe9', b'/', b'?', b'%20')) for _ in range(12))))
        h = r.choice((b'X-Real-IP', b'X-Session', b'User-Agent', b'Referer', b'Cookie', b'X-' + f.replace(b' ', b'')[:20], b'Content-Type')) + b': ' + f + b'\r\n'
    elif k < 0.8:
        line = f.replace(b' ', b'')[:30] + b' /api/d'
    else:
        line = b'POST /api/' + r.choice((b'd', b'x?op=json', b'x?op=err', b'p/v'))
        body = f * r.choice((1, 3, 50))
        if r.random() < 0.5:
            body = b'--BB\r\nContent-Disposition: form-data; name="' + r.choice((b'f', f.replace(b'"', b'q')[:30].replace(b' ', b''))) + b'"; filename="' + r.choice((b'x', f.replace(b'"', b'q')[:60].replace(b' ', b'').replace(b'\x1b', b'e'))) + \
                b'"\r\n\r\n' + body + b'\r\n--BB--\r\n'
            h = b'Content-Type: multipart/form-data; boundary=BB\r\n'
        h += b'Content-Length: %d\r\n' % len(body)
    return line + b' HTTP/1.1\r\n' + h + b'\r\n' + body


def run(ctx):
    ctx.rule = ('the same requests are served at every log level, without a log file, with a log that cannot be written to, and while the level changes; response, handler inputs and access line must be the same as with logging off; '
                'plain and TLS; non-trivial: distinct requests')
    r = ctx.rng
    n = 700 if ctx.quick else 9000
    reqs = c23.corpus(r, n) + [tricky(r) for _ in range(n // 2)]
    seen = {}
    cfgs = [('asan', 5, {}), ('asan', 0, {}), ('pat', 1, {}), ('pat', 2, {}), ('pat', 3, {}), ('pat', 4, {}), ('asan', 0, {'logfile': False}),
            ('pat', 0, {'logfile': False, 'wrapper': ['sh', '-c', 'exec "$@" 2>/dev/full', 'sh']}), ('pat', 1, {'logfile': False, 'wrapper': ['sh', '-c', 'exec "$@" 2</dev/null', 'sh']}), ('pat', 'changing', {}), ('pat', 0, {'tls': True})]
    # every configuration, the reference last for those in which it differs
    for fl, level, kw in cfgs:
        what = 'level %s' % level + (', no log file' if kw.get('logfile') is False else '') + (', standard error unwritable' if 'wrapper' in kw else '') + (', TLS' if kw.get('tls') else '')
        srv = Server(ctx, flavour=fl, routes=c23.ROUTES, www=c23.WWW, level=level if level != 'changing' else 0, limits=LIMITS, cov=fl == 'asan', **kw)
        i = 0
        for d in (reqs if not kw.get('tls') else [d for d in reqs[::2] if len(d) > 20 and b'\r\n\r\n' in d]):
            if level == 'changing':
                srv.ctl('level %d' % (i * 7 % 6), wait=False)
            i += 1
            o = c23.observe(srv, d)
            ctx.case((d, what), {'request': short(d, 100), 'configuration': what} if i % 997 == 5 else None)
            ref = seen.setdefault(d, o)
            if ref != o:
                # is it the configuration?
                if o != c23.observe(srv, d):
                    raise HarnessError('the observation is not stable')
                if kw.get('tls') and (not o[0] or o[1:] == ref[1:] and not ref[0]):
                    # a TLS client that ends early (C25)
                    continue
                for k, name in enumerate(('response', 'handler inputs', 'access line')):
                    if ref[k] != o[k]:
                        srv.check()
                        raise Violation('differs', 'with other logging (%s) the same request gives a different %s: %r, instead of %r; request %r' % (what, name, short(repr(o[k]), 250), short(repr(ref[k]), 250), short(d, 200)), request=d.hex())
            ctx.count('same')
        if i and fl == 'asan':
            srv.idle()
        srv.check()
        srv.stop()
