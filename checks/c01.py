"""C01: hostile traffic never corrupts memory, kills or wedges the server."""
import socket, ssl, struct
from vlib import *
import gen, hostile

ROUTES = [('dump', '-', 'GET:/d'), ('dump', '-', 'POST:/d'), ('dump', '-', 'PUT:/d'), ('dump', '-', 'DELETE:/d'), ('logs', '-', 'GET:/l'), ('logs', '-', 'POST:/l'),
          ('helper', '-', 'POST:/h'), ('dump', 'byq', 'GET:/f'), ('dump', 'byq', 'POST:/f'), ('dump', '-', 'GET:/p/{id}'), ('dump', '-', 'POST:/p/{id}'),
          ('dump', '-', 'DELETE:/p/{a_much_longer_parameter_name}'), ('dump', '-', 'GET:/canary')]
WWW = {'index.html': b'<html>index</html>', 'a.txt': b'text', 'd/b.bin': bytes(range(256)) * 300, 'd/index.html': b'folder', 'favicon.ico': b'ICO', 'noext': b'x'}
WEIRD_WWW = {('n%03d' % i) + '.txt': b'z' for i in range(3)}


def edge_requests():
    """One request per constant-sized buffer and length around it."""
    out = []
    for n in sorted(set(gen.EDGE + [x + d for x in gen.dictionary()[1] if 8 <= x <= 4096 for d in (-1, 0, 1)])):
        t = b'a' * n
        out += [t + b' / HTTP/1.1\r\n\r\n', b'GET /' + t + b' HTTP/1.1\r\n\r\n', b'GET /api/' + t + b' HTTP/1.1\r\n\r\n', b'GET /api/p/' + t + b' HTTP/1.1\r\n\r\n',
                b'GET /api/d?' + t + b' HTTP/1.1\r\n\r\n', b'GET /d/' + b'/' * n + b' HTTP/1.1\r\n\r\n', b'GET / ' + t + b'\r\n\r\n', b'GET ' + b' ' * n + b'/ HTTP/1.1\r\n\r\n',
                t, t + b'\n', b'GET /a.txt' + b'?' * n + b' HTTP/1.1\r\n\r\n', b'GET ' + t, b'GET /a.' + t + b' HTTP/1.1\r\n\r\n', b'DELETE /api/p/' + t + b' HTTP/1.1\r\n\r\n']
        for h in (b'X: ', b'X-Session: ', b'Authorization:', b'Cookie: WSSESSION=', b'Cookie: a=b; WSSESSION=', b'X-Real-IP: ', b'User-Agent: ', b'Referer: ',
                  b'Content-Type: ', b'Content-Type: multipart/form-data; boundary=', b'Content-Type: multipart/form-data; boundary="', b'Cookie: '):
            out.append(b'POST /api/d HTTP/1.1\r\n' + h + t + b'\r\nContent-Length: 3\r\n\r\nabc')
            out.append(b'GET / HTTP/1.1\r\n' + h + t + b'\r\n\r\n')
        out.append(b'GET /api/l HTTP/1.1\r\n' + t + b': v\r\n\r\n')
        out.append(b'GET /api/l HTTP/1.1\r\n' + t + b'\r\n' + t + b'\r\n\r\n')
        out.append(b'GET /api/l HTTP/1.1\r\nA:' + b' ' * n + b'\r\n\r\n')
        out.append(b'GET /api/l HTTP/1.1\r\n' + b'A: b\r\n' * min(n, 200) + b'\r\n')
        out.append(b'POST /api/d HTTP/1.1\r\nContent-Length: %d\r\n\r\n' % n + t)
        out.append(b'POST /api/h?op=err&st=400 HTTP/1.1\r\nContent-Length: %d\r\n\r\n' % n + t)
        out.append(b'POST /api/h?op=text&st=200 HTTP/1.1\r\nContent-Length: %d\r\n\r\n' % n + t)
        for tmpl in (b'--B\r\nContent-Disposition: form-data; name="%s"\r\n\r\nv\r\n--B--\r\n', b'--B\r\nContent-Disposition: form-data; name="n"; filename="%s"\r\n\r\nv\r\n--B--\r\n',
                     b'--B\r\nContent-Disposition: form-data; name="n"\r\n\r\n%s\r\n--B--\r\n', b'--B\r\nContent-Disposition: form-data; name="n"; filename="f"\r\n\r\n%s\r\n--B--\r\n',
                     b'--B%s--B--', b'--B\r\nContent-Disposition: form-data; name="n"; filename="f"\r\n\r\n%s', b'%s--B\r\n--B--', b'--B\r\nform-data; name="%s--B'):
            b = tmpl % t
            out.append(b'POST /api/d HTTP/1.1\r\nContent-Type: multipart/form-data; boundary=B\r\nContent-Length: %d\r\n\r\n' % len(b) + b)
    for n in (0, 1, 2, 3, 5, 10, 50, 200):
        b = b'--B\r\nContent-Disposition: form-data; name="n"; filename=""\r\n\r\n\r\n' * n + b'--B--'
        out.append(b'POST /api/d HTTP/1.1\r\nContent-Type: multipart/form-data; boundary=B\r\nContent-Length: %d\r\n\r\n' % len(b) + b)
        b = b'--B' * n
        out.append(b'POST /api/d HTTP/1.1\r\nContent-Type: multipart/form-data; boundary=B\r\nContent-Length: %d\r\n\r\n' % len(b) + b)
        for bd in (b'', b'-', b'""', b'"', b';', b' '):
            out.append(b'POST /api/d HTTP/1.1\r\nContent-Type: multipart/form-data; boundary=' + bd + b'\r\nContent-Length: %d\r\n\r\n' % len(b) + b)
    return out


def send(ctx, srv, data, how, r):
    """Sends the bytes and ends the connection in the given way; answers may or may not come."""
    try:
        s = connect(srv.port, srv.addr, tls=srv.tls)
    except (ssl.SSLError, OSError) as e:
        srv.check()
        raise
    try:
        if how == 'read':
            # a complete exchange, if the server gets enough to answer
            return request(srv.port, data, tls=srv.tls, sock=s, half=True).data
        if how == 'slow':
            i = 0
            while i < len(data):
                j = i + r.choice((1, 7, 50, 500))
                s.sendall(data[i:j])
                i = j
                if r.random() < 0.2:
                    time.sleep(0.0005)
            return request(srv.port, b'', tls=srv.tls, sock=s, half=True).data
        s.sendall(data)
        if how == 'rst':
            if isinstance(s, ssl.SSLSocket):
                fd = s.detach()
                s = socket.socket(fileno=fd)
            rst(s)
        elif how == 'partread':
            s.settimeout(0.01)
            try:
                s.recv(10)
            except OSError:
                pass
    except OSError:
        pass
    finally:
        s.close()


def canary(ctx, srv):
    r = srv.request(b'GET /api/canary?k=1 HTTP/1.1\r\nHost: x\r\n\r\n')
    try:
        st, hs, body = parse_response(r.data)
    except BadResponse as e:
        srv.check()
        raise Violation('canary', 'a well-formed request after hostile ones is answered with %r (%s)' % (short(r.data), e))
    if st != 200 or b'2f6170692f63616e6172793f6b3d31' not in body:
        raise Violation('canary', 'a well-formed request after hostile ones is answered with %r' % short(r.data))
    ctx.count('canaries')


def batch(ctx, srv, items, threads):
    srv.recent = items
    r0 = ctx.rng.random()

    def one(x):
        i, (data, how, kind) = x
        try:
            send(ctx, srv, data, how, random.Random('%s/%d' % (r0, i)))
        except Violation:
            raise
        ctx.case((data, how, srv.tls), {'how': how, 'kind': kind, 'bytes': short(data, 120)})
        ctx.count('ended_' + how)
    try:
        parallel(one, list(enumerate(items)), threads)
        canary(ctx, srv)
        srv.check()
    except (Violation, ConnectionRefusedError, ConnectionResetError) as v:
        time.sleep(0.3)
        try:
            srv.check()
        except Violation as e:
            v = e
        if isinstance(v, Violation):
            v.data['requests'] = [[d.hex(), h] for d, h, k in items][:400]
            raise v
        raise
    except Hang:
        srv.check()
        raise


def run(ctx):
    ctx.rule = ('byte streams built from a grammar, from sizes at the edge of every constant of the code, by mutation of those that reached new code, and noise; '
                'ended by half-close, reset, close or slowly; sanitized server, canary request after each batch; non-trivial: distinct (bytes, ending, mode)')
    r = ctx.rng
    hows = ('read', 'read', 'read', 'slow', 'rst', 'close', 'partread')
    mult = 1 if ctx.quick else 25
    edges = edge_requests()
    r.shuffle(edges)
    corpus = []
    for tls, level, n_edge, n_fuzz in ((False, 0, len(edges), 60 * mult), (False, 2, 0, 30 * mult), (True, 1, len(edges) // (12 if ctx.quick else 2), 8 * mult)):
        srv = Server(ctx, routes=ROUTES, tls=tls, level=level, www=WWW, cov=True, quiet=True)
        for i in range(0, n_edge, 250):
            batch(ctx, srv, [(d, 'read', 'edge') for d in edges[i:i + 250]], 8)
        last = covn(srv)
        for i in range(n_fuzz):
            items = []
            for _ in range(40 if not tls else 25):
                d, kind = hostile.stream(r, corpus)
                items.append((d, r.choice(hows), kind))
            batch(ctx, srv, items, 8)
            now = covn(srv)
            if now > last:
                # find the one that reached new code later: keep them all, as starting points
                corpus += [d for d, h, k in items if len(d) < 6000]
                corpus[:] = corpus[-4000:]
                ctx.count('batches_with_new_edges')
            last = now
            if r.random() < 0.1 and not tls:
                # pipelined junk on one connection and many idle ones
                ss = [connect(srv.port) for _ in range(r.choice((10, 50)))]
                for s in ss:
                    s.send(b'G' if r.random() < 0.5 else b'POST /api/d HTTP/1.1\r\nContent-Length: 50\r\n\r\nab')
                canary(ctx, srv)
                for s in ss:
                    rst(s) if r.random() < 0.5 else s.close()
        srv.idle()
        srv.stop()
    # what a hardened C library finds
    srv = Server(ctx, routes=ROUTES, level=0, www=WWW, flavour='fort', quiet=True)
    batch(ctx, srv, [(d, 'read', 'edge') for d in (edges if not ctx.quick else edges[::3])], 8)
    for i in range(10 * mult):
        batch(ctx, srv, [(hostile.stream(r, corpus)[0], 'read', 'hardened') for _ in range(60)], 8)
    srv.idle()
    srv.stop()
    # a site without index, www folder or icons; and one whose settings are long
    srv = Server(ctx, routes=ROUTES[:3] + ROUTES[-1:], level=0, www={}, cov=True, quiet=True)
    for i in range(0, len(edges), 1200 if ctx.quick else 200):
        batch(ctx, srv, [(d, 'read', 'edge-empty-site') for d in edges[i:i + 40]], 8)
    srv.stop()
    long_root = ctx.scratch('r')
    long_root += '/' + 'r' * (250 - len(long_root) - 5)
    srv = Server(ctx, routes=ROUTES, level=0, root=long_root, www=WWW, index='/' + 'i' * 240 + '.html', favicon='/' + 'f' * 250, cov=True, quiet=True,
                 limits='/' + 'L' * 505 + ', 1, 1\n/, 500, 500, 9\n', allow='127.0.0.1\n' + 'x' * 5000 + '\n', deny='9' * 3000)
    for i in range(0, len(edges), 400 if ctx.quick else 100):
        batch(ctx, srv, [(d, 'read', 'edge-long-settings') for d in edges[i:i + 60]], 8)
    srv.idle()
    srv.stop()
    memory(ctx)


def memory(ctx):
    """Requests that are too large for the memory that is left: each large allocation fails in its turn, and all after it."""
    r = ctx.rng
    srv = Server(ctx, routes=ROUTES, level=r.choice((0, 4)), www=WWW)
    for n in [r.randrange(70000, 90000) for _ in range(1 if ctx.quick else 8)]:
        text = gen.text(r, n)
        f, u = b'--BB\r\nContent-Disposition: form-data; name="a"', b'; filename="b"'
        forms = {'field': f + b'\r\n\r\n' + text + b'\r\n--BB--\r\n', 'fields': (f + b'\r\n\r\n' + text[:n // 2] + b'\r\n') * 2 + b'--BB--\r\n', 'file': f + u + b'\r\n\r\n' + text + b'\r\n--BB--\r\n',
                 'both': f + b'\r\n\r\n' + text + b'\r\n' + f + u + b'\r\n\r\n' + text + b'\r\n--BB--\r\n', 'no-data': f + b' ' + text + b'\r\n--BB--\r\n', 'text': text}
        for kind, body in sorted(forms.items()):
            for url in (b'/api/d', b'/api/p/1'):
                whole = None
                for k in [None] + list(range(12)):
                    start = len(srv.poll())
                    srv.fault(alloc_skip=k or 0)
                    srv.fault(alloc_min=0 if k is None else 20000)
                    data = b'POST ' + url + b' HTTP/1.1\r\n' + (b'' if kind == 'text' else b'Content-Type: multipart/form-data; boundary=BB\r\n') + b'Content-Length: %d\r\n\r\n' % len(body) + body
                    res = srv.request(data)
                    srv.fault(alloc_min=0)
                    srv.idle()
                    srv.check()
                    try:
                        st = parse_response(res.data)[0]
                    except BadResponse as e:
                        raise Violation('memory', 'a body of %d bytes (%s), with memory for only %s large blocks, is answered with %r (%s)' % (len(body), kind, k, short(res.data), e))
                    got = [re.sub(rb'tmpfile=[^&]*', b'tmpfile=', e['form']) for e in srv.find(lambda e: e['kind'] == 'H', start)]
                    if k is None:
                        whole = got
                    elif got and got != whole or bool(got) != (st == 200):
                        raise Violation('memory', 'with memory for only %d large blocks, a body of %d bytes (%s) is answered with %d, and delivered as %r instead of %r' % (k, len(body), kind, st, short(repr(got)), short(repr(whole))))
                    ctx.count('memory_refused' if st != 200 else 'memory_served')
                    ctx.case(('memory', n, kind, url, k))
                    if k is not None and st == 200:
                        break
    canary(ctx, srv)
    srv.idle()
    srv.stop()


def covn(srv):
    try:
        return struct.unpack('<3I', open(srv.covfile, 'rb').read(12))[1]
    except (OSError, struct.error):
        return 0
