"""C04: a handler sees exactly the request its own client sent."""
import threading, time
from vlib import *
import gen

ROUTES = [('dump', '-', 'GET:/d'), ('dump', '-', 'POST:/d'), ('dump', '-', 'PUT:/d'), ('dump', '-', 'DELETE:/d'),
          ('dump', '-', 'GET:/p/{id}'), ('dump', '-', 'POST:/p/{id}'), ('dump', 'accept', 'POST:/f'), ('dump', '-', 'GET:/')]


def make(r, uid):
    """A well-formed request, and what its handler has to see."""
    method = r.choice((b'GET', b'POST', b'PUT', b'DELETE'))
    post = method == b'POST'
    target = r.choice((b'/d', b'/d', b'/d', b'/p/') + ((b'/f',) if post else ())) if method in (b'GET', b'POST') else b'/d'
    if method == b'GET' and r.random() < 0.05:
        target = b'/'
    path = target
    param = None
    if target == b'/p/':
        param = gen.text(r, max(1, gen.size(r, 1, 600)), gen.URLC + b'#&=/')
        path = target + param
    q = b'u=%d' % uid
    k = r.random()
    if k < 0.3:
        q += b'&' + gen.text(r, gen.size(r, 0, 300), gen.URLC + b'?&=/#"\\|^')
    elif k < 0.4:
        q = r.choice((b'?', b'??', b'a=?&', b'/?')) + q
    elif k < 0.45:
        q += r.choice((b'?', b'&', b'=', b'?x=1?y=2', b'#frag', b'/../', b'//'))
    url = b'/api' + path + b'?' + q
    line = method + b' ' + url + b' HTTP/1.' + r.choice((b'1', b'0'))
    if target == b'/p/' and r.random() < 0.4:
        # no question mark at all
        param = b'%d-' % uid + param[:900]
        path, q, url = target + param, b'', b'/api' + target + param
        line = method + b' ' + url + b' HTTP/1.1'
    # sometimes grow the query so that the request line has an edge length
    elif r.random() < 0.25:
        want = r.choice((126, 127, 128, 253, 254, 255, 256, 257, 258, 259, 260, 261, 510, 511, 512, 513, 514, 515, 516, 517, 990, 995, 999, 1000))
        pad = want - len(line)
        if pad > 3:
            q += b'&z=' + gen.text(r, pad - 3, gen.URLC)
            url = b'/api' + path + b'?' + q
            line = method + b' ' + url + b' HTTP/1.1'
    if len(line) > 1000:
        return make(r, uid)
    body = None
    raw = False
    if r.random() < (0.75 if method in (b'POST', b'PUT') else 0.15):
        n = gen.size(r, 0, 9000)
        body = gen.blob(r, n) if r.random() < 0.5 else gen.text(r, n, gen.URLC + b'&=')
    hs = []
    nh = r.choice((0, 1, 2, 3, 5, 8, 12, 17, 18, 19, 20, 21, 22, 25, 30))
    for i in range(nh):
        name = b'X-' + gen.text(r, r.choice((1, 3, 8, 20, 58, 59, 60, 61)), gen.TOKEN)
        if name.lower() in (b'x-session', b'x-real-ip') or len(name) > 63:
            name = b'X-q%d' % i
        hs.append((name, gen.header_value(r, r.choice((0, 1, 2, 5, 30, 100, 126, 127, 128, 200, 253, 254, 255)))))
    if r.random() < 0.08:
        # too long to be kept as a whole, which is no matter of the others
        n = r.choice((256, 300, 900, 1000, 1015, 1022, 1023, 1030, 2045, 2046, 2047, 2100, 5000, 8192, 16000, 40000, 70000))
        name = b'X-Long'
        hs.insert(r.randrange(len(hs) + 1), (name, (r.choice((b'a:', b'a:b ', b':', b'x-session:no ', b'Content-Length:1 ', b'x', b'X-Real-IP:1 ')) * n)[:n]))
    for h in gen.common(r) if r.random() < 0.5 else []:
        hs.insert(r.randrange(len(hs) + 1), h)
    if r.random() < 0.5:
        hs.insert(r.randrange(len(hs) + 1), (b'Host', b'localhost:%d' % r.randrange(65536)))
    ct = None
    ctv = None
    if r.random() < 0.5:
        ct = r.choice((b'application/json', b'text/plain', b'application/x-www-form-urlencoded', b'a/b', b'text/' + gen.text(r, r.choice((10, 60, 120, 200))), b'application/vnd.a+json', b'multipart/mixed', b'a/b,c/d', b'text/plain, x', b'none', b'*/*', b'"a/b"', b'a/b c',
                       gen.header_value(r, r.choice((3, 30))).replace(b';', b',')))
        ctv = ct + r.choice((b'', b'', b'; charset=utf-8', b';charset=x;y=z', b' ; a="b;c"'))
        hs.insert(r.randrange(min(len(hs), 19) + 1), (r.choice((b'Content-Type', b'content-type', b'CONTENT-TYPE')), ctv))
    if body is not None:
        cl = (r.choice((b'Content-Length', b'content-length', b'Content-length')), b'%d' % len(body))
        pos = r.randrange(min(len(hs), 19) + 1)
        hs.insert(pos, cl)
        raw = pos < 20 and target not in (b'/p/',)
    if body and not raw and b'\0' in body:
        body = body.replace(b'\0', b'0')
    if raw and body:
        # ask the handler to show Content-Length bytes
        if not line.endswith(b'HTTP/1.1') or len(line) + 6 > 1000:
            body = body.replace(b'\0', b'0')
            raw = False
        else:
            q += b'&raw=1'
            url = b'/api' + path + b'?' + q
            line = method + b' ' + url + b' HTTP/1.1'
    eol = b'\r\n'
    out = line + eol
    for n, v in hs:
        out += n + b':' + r.choice((b' ', b' ', b'', b'  ', b'\t')) + v + r.choice((b'', b'', b'', b' ', b'\t ')) + eol
    out += eol + (body or b'')
    form = body or b''
    if param is not None:
        name_val = b'id=' + param
        form = form + b'&' + name_val if form else name_val
    exp = {'method': method, 'url': url, 'path': path, 'qs': q, 'form': form, 'headers': hs[:20], 'line': line, 'ip': b'127.0.0.1', 'session': b''}
    if ct is not None:
        exp['ct'] = ct
    return out, exp, target


def compare(e, exp):
    for k, v in exp.items():
        got = e.get(k)
        if k == 'headers':
            got = [b if a != b and a[0] == b[0] == b'X-Long' and a[1] and b[1].startswith(a[1]) else a for a, b in zip(got, v)] + got[len(v):]
        if got != v:
            if k == 'headers':
                for i, (a, b) in enumerate(zip(got, v)):
                    if a != b:
                        return 'header %d: sent %r, handler saw %r' % (i, b, a)
                return 'sent %d headers (of at most 20), handler saw %d' % (len(v), len(got))
            return '%s: sent %r, handler saw %r' % (k, short(v), short(got) if got is not None else None)
    return None


def run(ctx):
    ctx.rule = ('requests with random method, path, query, up to 30 headers and body of sizes near the constants of the code, cut into random '
                'segments, from 1 to 24 clients at once; non-trivial: distinct request bytes whose handler dump was compared')
    r = ctx.rng
    uid = [0]

    def batch(srv, n, threads, delays):
        todo = []
        start = len(srv.poll())
        for _ in range(n):
            uid[0] += 1
            data, exp, target = make(r, uid[0])
            todo.append((uid[0], data, exp, gen.parts(r, len(data)) if delays else None, r.choice((0, 0.001, 0.004)) if delays else 0))
        res = {}

        def one(t):
            u, data, exp, parts, delay = t
            res[u] = srv.request(data, parts=parts, delay=delay)
        parallel(one, todo, threads)
        srv.check()
        by = {}
        for e in srv.poll()[start:]:
            if e['kind'] == 'H':
                u = e['url'] or b''
                by.setdefault(u, []).append(e)
        for u, data, exp, parts, delay in todo:
            es = by.pop(exp['url'], [])
            if len(es) != 1:
                raise Violation('handler-count', 'request %r ran the handler %d times; unmatched handler urls: %r' %
                                (short(data), len(es), [short(x) for x in list(by)[:3]]), request=data.hex())
            d = compare(es[0], exp)
            if d:
                raise Violation('wrong-view', d, request=data.hex(), parts=parts)
            st, hs, body = parse_response(res[u].data)
            if st != 200 or exp['url'].hex().encode() not in body:
                raise Violation('wrong-answer', 'the answer to %r belongs to another request: %r' % (short(data), short(body)), request=data.hex())
            ctx.case(data, short(data, 160))
        if by:
            raise Violation('ghost', 'handler saw a request nobody sent: %r' % [short(x) for x in list(by)[:3]])

    mult = 1 if ctx.quick else 12
    srv = Server(ctx, routes=ROUTES, cov=True)
    for i in range(6 * mult):
        batch(srv, 60, 1, False)
    for i in range(5 * mult):
        batch(srv, 60, 12, True)
    for i in range(8 * mult):
        batch(srv, 120, 24, False)
    srv.stop()
    srv = Server(ctx, routes=ROUTES, chaos=8, cov=True)
    for i in range(8 * mult):
        batch(srv, 100, 24, i % 2 == 0)
    srv.stop()
    srv = Server(ctx, routes=ROUTES, tls=True, cov=True)
    for i in range(2 * mult):
        batch(srv, 50, 6, True)
    srv.stop()
