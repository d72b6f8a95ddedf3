"""C23: no behaviour depends on uninitialised or stale memory."""
from vlib import *
import c12, c22, gen, hostile, mp

ROUTES = [('dump', '-', 'GET:/d'), ('dump', '-', 'POST:/d'), ('dump', '-', 'PUT:/d'), ('dump', '-', 'DELETE:/d'), ('logs', '-', 'GET:/l'), ('helper', '-', 'POST:/x'), ('dump', 'byq', 'GET:/f'),
          ('dump', 'byq', 'POST:/f'), ('dump', '-', 'GET:/p/{id}'), ('dump', '-', 'POST:/p/{id}'), ('dump', '-', 'DELETE:/p/{another}')]
WWW = {'index.html': b'<html>index</html>', 'a.txt': b'text', 'd/b.bin': bytes(range(256)) * 10, 'd/index.html': b'folder', 'favicon.ico': b'ICO', 'noext': b'x', 'e.csv': b''}


def shrinking(r):
    """A form whose parts get shorter, so that leftovers of the parts before would show."""
    b = mp.boundary(r)
    ps = []
    n = r.choice((400, 900))
    while n > 0:
        ps.append((r.random() < 0.3, gen.text(r, max(1, min(60, n // 8))), gen.text(r, max(1, min(40, n // 10))), [], gen.text(r, n)))
        n = n // r.choice((2, 3)) - 1
    ps = [(f, a, x if f else None, e, d) for f, a, x, e, d in ps]
    body = mp.encode(r, b, ps)
    return b'POST /api/d HTTP/1.1\r\nContent-Type: multipart/form-data; boundary=' + b + b'\r\nContent-Length: %d\r\n\r\n' % len(body) + body


def corpus(r, n):
    out = []
    for kind in ('uploads', 'sessions', 'logs', 'params', 'filters', 'urls'):
        out += c22.items(r, None, kind)
    for op in c22.OPS:
        out += [b'POST /api/x?op=' + op + b' HTTP/1.1\r\nContent-Length: %d\r\n\r\n' % k + b'y' * k for k in (0, 1, 33)]
    while len(out) < n:
        k = r.random()
        if k < 0.25:
            out.append(shrinking(r))
        elif k < 0.45:
            # long headers followed by short ones
            hs = [gen.text(r, gen.size(r, 0, 300)) + b':' + r.choice((b'', b' ')) + gen.header_value(r, gen.size(r, 0, 600)) for _ in range(r.choice((1, 3, 8, 19, 22)))]
            hs += r.sample([b'X-Real-IP:', b'X-Real-IP: 1.1.1.1', b'Cookie:', b'X-Session:', b'Content-Type:', b'Content-Length:', b'Cookie: WSSESSION=', b'A:', b'B', b':', b'Authorization: ', b'User-Agent:',
                            b'Referer:', b'Content-Type: multipart/form-data', b'Content-Type: multipart/form-data; boundary='], r.choice((1, 3)))
            out.append(r.choice((b'GET /api/d', b'GET /', b'GET /api/l?q', b'POST /api/d')) + b' HTTP/1.1\r\n' + b'\r\n'.join(hs) + b'\r\n\r\n')
        else:
            out.append(hostile.stream(r)[0])
    # clients that say nothing, or stop early, on workers that have served others before
    cuts = [b'', b'', b'', b'', b'G', b'GET', b'GET ', b'GET /', b'GET /a.txt', b'GET /a.txt HTTP/1.1', b'GET /a.txt HTTP/1.1\r', b'GET /a.txt HTTP/1.1\r\n', b'POST /api/d HTTP/1.1\r\nContent-Length', b'\r', b'\n', b'\0']
    for i in range(len(out) // 4):
        out.insert(r.randrange(len(out) + 1), r.choice(cuts))
    # nothing that is answered with more than what fits in the socket buffers, so that early closes lose nothing
    return out


def mask(d):
    """The only parts that legitimately vary: names of temporary files."""
    return re.sub(rb'tmpfile=\d+-[0-9a-f]{32}', b'tmpfile=T', d)


def observe(srv, d):
    n, a = len(srv.poll()), len(srv.access())
    res = srv.request(d, half=True)
    evs = []
    for e in srv.poll()[n:]:
        if e['kind'] in ('H', 'F', 'V', 'LEN'):
            x = {k: v for k, v in e.items() if k not in ('ns', 'tid', 'req', 'start')}
            if isinstance(x.get('form'), bytes):
                x['form'] = mask(x['form'])
            evs.append(sorted(x.items(), key=lambda kv: kv[0]))
    # the line is written before the connection is closed; its time and duration vary
    log = re.sub(rb' \d+\.\d{3}\n$', b' D\n', re.sub(rb'\[\d\d/[^\]]*\]', b'[T]', srv.access()[a:]))
    return mask(res.data), evs, log


def run(ctx):
    ctx.rule = ('each request is served by a server with MemorySanitizer (plain and TLS), and by servers whose stack and heap are filled with different patterns, in different orders '
                'after different histories; response, handler inputs and access line have to be the same; non-trivial: distinct requests')
    r = ctx.rng
    n = 1500 if ctx.quick else 20000
    reqs = corpus(r, n)
    # 1. MemorySanitizer
    for tls, level, sel in ((False, 0, reqs), (False, 4, reqs[::3]), (True, 2, reqs[::6])):
        srv = Server(ctx, flavour='msan', routes=ROUTES, www=WWW, level=level, tls=tls, limits=b'/none, 1, 1\n/api/x, 50, 50, 5\n', deny='127.0.0.3\n', allow='127.0.0.1\n127.0.0.2\n')

        def one(d):
            srv.request(d, half=True)
            ctx.case((d, tls, level))
        for i in range(0, len(sel), 60):
            cur = sel[i:i + 60]
            try:
                parallel(one, cur, 8)
                srv.check()
            except Violation as v:
                v.data['requests'] = [d.hex() for d in cur]
                raise
            except OSError:
                srv.check()
                raise
            ctx.count('requests_under_msan', len(cur))
        for src in ('127.0.0.3', '127.0.0.4'):
            try:
                srv.request(b'GET / HTTP/1.1\r\n\r\n', src=src)
            except OSError:
                pass
        # clients that are gone before the server looks at them
        def gone(i):
            s = connect(srv.port, src='127.0.0.%d' % (1 + i % 2))
            s.sendall(b'GET /api/d HTTP/1.1\r\n\r\n')
            rst(s)
        parallel(gone, range(400), 16)
        srv.fault(peer_err=107)
        parallel(one, sel[:20], 4)
        srv.fault(peer_err=0)
        srv.idle()
        ctx.count('requests_under_msan', 400)
        srv.check()
        srv.stop()
    # 2. different fillings and histories
    seen = {}
    cfgs = [('pat', '170', list(reqs)), ('zero', '255', r.sample(reqs, len(reqs))), ('pat', '1', list(reversed(reqs)))]
    servers = {}
    for fl, perturb, order in cfgs:
        srv = Server(ctx, flavour=fl, routes=ROUTES, www=WWW, level=4, env={'MALLOC_PERTURB_': perturb})
        for d in order:
            o = observe(srv, d)
            ctx.case((d, 'diff'), {'request': short(d, 120), 'access line': short(o[2], 200)} if ctx.evals % 997 == 0 else None)
            ctx.count('compared' if d in seen else 'first_seen')
            if d in seen and seen[d] != o:
                # is it reproducible, or did the observation itself miss something?
                a = observe(srv, d)
                if a != seen[d] or o != observe(srv, d):
                    for i, what in enumerate(('response', 'handler inputs', 'access line')):
                        if seen[d][i] != o[i]:
                            srv.check()
                            raise Violation('differs', 'the same request gives different %ss: %r and %r, request %r' % (what, short(seen[d][i], 250), short(o[i], 250), short(d, 200)), request=d.hex())
                raise HarnessError('the observation is not stable')
            seen.setdefault(d, o)
        # the client is gone already
        srv.fault(peer_err=107)
        for d in reqs[:40]:
            o = observe(srv, d)
            ctx.case((d, 'gone'))
            if seen.setdefault((d, 'gone'), o) != o:
                raise Violation('differs', 'requests of clients that are gone already give different results: %r and %r, request %r' % (short(repr(seen[(d, 'gone')]), 250), short(repr(o), 250), short(d, 200)), request=d.hex())
        srv.check()
        srv.stop()

    # 3. what came before in the same request: a header line nobody asked for, or another part, changes nothing else
    srv = Server(ctx, flavour='pat', routes=ROUTES, www=WWW, level=4)
    for i in range(n // 2):
        hs = []
        for _ in range(r.choice((1, 2, 4))):
            name = r.choice((b'X-Real-IP', b'Cookie', b'X-Session', b'Authorization', b'Content-Type', b'User-Agent', b'Referer', b'Other'))
            val = r.choice((b'', b'', b'1.2.3.4', b'a', b'WSSESSION=', b'WSSESSION=s', b'x=y', b'multipart/form-data', b'multipart/form-data; boundary=', b'text/plain', gen.header_value(r, gen.size(r, 0, 200))))
            hs.append(name + r.choice((b':', b': ', b':  ')) + val)
        if r.random() < 0.5:
            hs.append(r.choice((b'X-Real-IP:', b'Cookie:', b'Cookie: WSSESSION=', b'X-Session:', b'Authorization:', b'Content-Type:', b'Content-Length:', b'User-Agent:', b'Referer:')) + r.choice((b'', b' ')))
        url = r.choice((b'GET /api/d?q', b'GET /api/p/v', b'GET /', b'GET /d/', b'POST /api/d', b'GET /api/l?x', b'GET /a.txt'))
        stale = b'Zzz: ' + r.choice((b'q' * r.choice((1, 30, 200, 900)), b'9.9.9.9 ; WSSESSION=stale; boundary=stale; X-Session: stale ' * r.choice((1, 3)), b'7', b':', b'multipart/form-data; boundary=--stale'))
        end = r.choice((b'\r\n\r\n', b'\n\n', b'', b'', b'\r\n'))  # a client may also just stop sending
        base = url + b' HTTP/1.1\r\n' + b'\r\n'.join(hs) + end
        at = r.randrange(len(hs))
        more = url + b' HTTP/1.1\r\n' + b'\r\n'.join(hs[:at] + [stale] + hs[at:]) + end
        a, b = observe(srv, base), observe(srv, more)

        def strip(o):
            evs = []
            for e in o[1]:
                e = dict(e)
                if 'headers' in e:
                    e['headers'] = [h for h in e['headers'] if h[0] != b'Zzz']
                    e.pop('nh')
                evs.append(e)
            return o[0], evs, o[2]
        ctx.case((base, more), n=2)
        ctx.count('neighbour_lines')
        if strip(a) != strip(b):
            raise Violation('neighbour', 'a header line nobody asked for changes something else: %r with %r: %r, without %r' % (short(base, 200), short(stale, 80), short(repr(strip(b)), 500), short(repr(strip(a)), 500)),
                            request=base.hex(), other=more.hex())
    for i in range(n // 8):
        bd, ps, body = mp.form(r, big=600)
        first = None
        while not first or (b'--' + bd) in first[4] + first[1] + (first[2] or b'') or first[4].endswith(b'-'):
            first = mp.part(r, 900)
        def run1(parts):
            b = mp.encode(random.Random(1), bd, parts)
            d = b'POST /api/d HTTP/1.1\r\nContent-Type: multipart/form-data; boundary=' + bd + b'\r\nContent-Length: %d\r\n\r\n' % len(b) + b
            o = observe(srv, d)
            f = [dict(e)['form'] for e in o[1] if dict(e)['kind'] == 'H']
            return d, f[0] if f else None
        (d1, f1), (d2, f2), (d3, f3) = run1(ps), run1([first] + ps), run1([first])
        ctx.case((d1, d2), n=3)
        ctx.count('neighbour_parts')
        if None in (f1, f2, f3) or f2 != f3 + b'&' + f1:
            raise Violation('neighbour', 'a part before changes what is delivered for the parts after it: %r, alone %r' % (short(f2 or b'', 400), short(f1 or b'', 400)), request=d2.hex(), other=d1.hex())
    srv.check()
    srv.stop()
