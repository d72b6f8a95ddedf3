"""C37: header lookups, and what lower-level calls send, are exact."""
from vlib import *
import c06, gen

ROUTES = [('lookup', '-', 'GET:/look'), ('lookup', 'byq', 'GET:/flook'), ('direct', '-', 'POST:/direct'), ('headers', '-', 'POST:/send')]
MIMES = [b'text/html', b'image/png', b'image/jpeg', b'application/zip', b'text/css', b'text/plain', b'text/csv', b'text/yaml']
NAMEC = b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_.!#$%&'*+^`|~"
WELL = [b'Host', b'User-Agent', b'Referer', b'Accept', b'X-Id', b'X-I', b'X-Idx', b'Content-Type', b'Content-Length', b'Cookie', b'X-Session', b'Authorization', b'X-Real-IP', b'Accept-Language', b'A', b'If-None-Match']


def case(r, n):
    k = r.random()
    return n if k < 0.4 else n.upper() if k < 0.6 else n.lower() if k < 0.8 else n.swapcase()


def run(ctx):
    ctx.rule = ('handlers look up headers by name (any case, present, absent, prefixes of others, repeated, empty, at the limits of length and number), send files, headers of every kind and binary blocks of any size; '
                'compared with the request that was sent and the bytes received; plain and TLS; non-trivial: distinct requests')
    r = ctx.rng
    mult = 1 if ctx.quick else 20
    files = {}
    exts = list(c06.TYPES) + ['bin', 'gz', 'tar.gz', 'html.zip', 'HTML.txt', 'x.y', 'pngx', 'cs', 'jso']
    for i, e in enumerate(exts):
        files['%sf%d.%s' % (r.choice(('', 'd/', 'd.e/', 'd/e/')), i, e)] = r.randbytes(gen.size(r, 0, 9000))
    files['noext'] = b'n'
    files['d.css/noext'] = b'm'
    files['big.zip'] = r.randbytes(500000)
    files['empty.css'] = b''
    for tls, fl, level in ((False, 'asan', 0), (True, 'asan', 4), (False, 'pat', 4)):
        srv = Server(ctx, flavour=fl, routes=ROUTES, www=files, tls=tls, level=level, cov=fl == 'asan')

        def look(i):
            q = random.Random('%s/%s/%s/l%d' % (ctx.seed, tls, fl, i))
            hs = []
            for _ in range(q.choice((0, 1, 3, 8, 19, 20, 21, 26))):
                k = q.random()
                n = case(q, q.choice(WELL)) if k < 0.6 else case(q, q.choice(hs)[0]) if k < 0.75 and hs else gen.text(q, q.choice((1, 2, 8, 30, 62, 63, 63)), NAMEC)
                v = b'' if q.random() < 0.12 else gen.header_value(q, q.choice((1, 5, 30, 100, 253, 254, 255, 256, 300, 700)))
                if n.lower() == b'content-length':
                    v = b'0'
                hs.append((n, v))
            want = {}
            for n, v in hs[:20]:
                want.setdefault(n.lower(), v.strip(b' \t')[:255])
            ask = []
            for _ in range(q.choice((1, 4, 12))):
                k = q.random()
                if k < 0.5 and hs:
                    ask.append(case(q, q.choice(hs)[0]))
                elif k < 0.7 and hs:
                    n = q.choice(hs)[0]
                    ask.append(q.choice((n[:-1], n + b'x', n[1:], n + b':', b' ' + n, n + b' ')))
                else:
                    ask.append(case(q, q.choice(WELL)))
            u = q.choice((b'/api/look', b'/api/flook')) + b'?v=1&i=%d&n=' % i + b','.join(a.hex().encode() for a in ask)
            if len(u) > 1000:
                return
            data = b'GET ' + u + b' HTTP/1.1\r\n' + b''.join(n + q.choice((b':', b': ', b':   ')) + v + b'\r\n' for n, v in hs) + b'\r\n'
            before = len(srv.poll())
            srv.request(data)
            e = srv.find(lambda e: e['kind'] == 'LOOK' and e['url'] == u, max(0, before - 40))
            if len(e) != 1:
                raise Violation('lookup', 'the handler ran %d times' % len(e), request=data.hex())
            got = e[0]['values'].split(',')[:-1] if isinstance(e[0]['values'], str) else None
            if got is None:
                # the event parser has decoded nothing but the first part
                raise HarnessError('values')
            got = [b'' if g == '!' else bytes.fromhex(g[1:]) for g in got]
            for a, g in zip(ask, got):
                w = want.get(a.lower(), b'')
                if g != w:
                    raise Violation('lookup', 'a handler that asks for the header %r gets %r instead of %r, of %d headers %r' % (a, short(g), short(w), len(hs), short(repr(hs), 600)), request=data.hex())
                ctx.count('lookups_found' if w else 'lookups_absent')
            ctx.case(data, {'asked': repr(ask[:3]), 'got': repr(got[:3])} if i % 401 == 0 else None)
        parallel(look, range(1200 * mult), 8)
        srv.check()

        def direct(i):
            q = random.Random('%s/%s/%s/d%d' % (ctx.seed, tls, fl, i))
            f = q.choice(list(files))
            if q.random() < 0.2:
                f = q.choice(('none', 'd', f + 'x', 'd/', f[:-1] or 'q'))
            there = f in files
            s = b'' if q.random() < 0.5 else gen.text(q, q.choice((1, 20, 60)))
            way = b'f' if q.random() < 0.3 else b'd'
            u = b'/api/direct?w=%s&i=%d' % (way, i)
            data = b'POST ' + u + b' HTTP/1.1\r\n' + (b'X-Session: ' + s + b'\r\n' if s else b'') + b'Content-Length: %d\r\n\r\n' % len(f) + f.encode()
            res = srv.request(data)
            st, hs, body = parse_response(res.data)
            e = srv.wait_event(lambda e: e['kind'] in ('FILE', 'DIRECT') and e['url'] == u, start=max(0, len(srv.events) - 300))[0]
            if e['kind'] == 'FILE':
                want = files[f] if there else b''
                if st != 200 or hget(hs, b'Content-Type') != b'image/png' or body != want or int(e['n']) != len(want) or int(e['head']) != len(res.data) - len(want):
                    raise Violation('direct', 'a handler sends headers and the bytes of %s %r (%d bytes): the client gets status %d and %d bytes (%s), counted as %s and %s'
                                    % ('the file' if there else 'the missing file', f, len(want), st, len(body), 'the file' if body == want else 'not the file', e['head'], e['n']), request=data.hex())
                ctx.case(('file', tls, f))
                ctx.count('file_bytes_sent' if there else 'files_missing')
                return
            if not there:
                if st != 404 or int(e['n']) >= 0:
                    raise Violation('direct', 'a handler that sends the missing file %r is told %s, and the client gets status %d' % (f, e['n'], st), request=data.hex())
            else:
                if st != 200 or body != files[f] or int(e['n']) != 0 or hget(hs, b'Content-Type') != c06.ctype(f):
                    raise Violation('direct', 'a handler sends %r (%d bytes): the client gets status %d, type %r and %s' % (f, len(files[f]), st, hget(hs, b'Content-Type'), 'the file' if body == files[f] else '%d bytes, or others' % len(body)),
                                    request=data.hex())
                if int(e['len']) != len(res.data):
                    raise Violation('direct', 'a response of %d bytes is counted as %s' % (len(res.data), e['len']), request=data.hex())
                if s and hget(hs, b'X-Session') != s or not s and hget(hs, b'X-Session') is not None:
                    raise Violation('direct', 'the session %r is answered with %r' % (s, hget(hs, b'X-Session')), request=data.hex())
            ctx.case(('direct', tls, f, s))
            ctx.count('files_sent' if there else 'files_missing')
        parallel(direct, range(500 * mult), 8)
        srv.check()

        def send(i):
            q = random.Random('%s/%s/%s/s%d' % (ctx.seed, tls, fl, i))
            op = q.choice((b'mime', b'mime', b'json', b'file'))
            st = q.choice(list(STATUS)) if op != b'file' else 200
            if op == b'mime':
                m = q.choice(MIMES) if q.random() < 0.6 else q.choice((b'application/x-' + gen.text(q, 6, b'abcdef'), b'image/gif', b'video/mp4', b'application/pdf', b'text', b'text/', b'text/pla', b'image/pngx', b'x', q.choice(MIMES) + q.choice((b';', b';charset=utf-8', b',text/html', b'/', b'x')), b'x' + q.choice(MIMES), q.choice(MIMES)[:-1]))
                ct = m if m in MIMES else b'application/octet-stream'
            elif op == b'json':
                m, ct = b'', b'application/json'
            else:
                m = gen.text(q, q.choice((1, 5, 50))) + b'.' + q.choice(exts).encode()
                ct = c06.ctype(m.decode())
            body = gen.blob(q, q.choice((0, 1, 10, 1023, 1024, 1025, 4096, 9999, 16384, 16385, 40000) if i % 20 else (200000,)))
            step = q.choice((1, 7, 100, 1024, 4096, 16384, 16385, 1 << 20)) if len(body) < 5000 else q.choice((997, 4096, 16384, 16385, 1 << 20))
            u = b'/api/send?op=' + op + b'&st=%d&b=%d&i=%d&m=' % (st, step, i) + m
            data = b'POST ' + u + b' HTTP/1.1\r\nContent-Length: %d\r\n\r\n' % len(body) + body
            res = srv.request(data)
            head, sep, got = res.data.partition(b'\r\n\r\n')
            e = srv.wait_event(lambda e: e['kind'] == 'SENT' and e['url'] == u, start=max(0, len(srv.events) - 300))[0]
            s, hs, _ = parse_response(head + b'\r\n\r\n')
            if s != st or hget(hs, b'Content-Type') != ct:
                raise Violation('send', 'headers for status %d and %r (%s): the client gets status %d and %r' % (st, m, op.decode(), s, hget(hs, b'Content-Type')), request=data.hex())
            if got != body:
                at = next((k for k in range(min(len(got), len(body))) if got[k] != body[k]), min(len(got), len(body)))
                raise Violation('send', 'a handler sends %d bytes in blocks of %d: the client gets %d, the first difference is at %d' % (len(body), step, len(got), at), request=data.hex())
            if int(e['n']) != len(head) + (4 if op == b'file' else 2):
                raise Violation('send', 'headers of %d bytes are counted as %s (%s)' % (len(head) + (4 if op == b'file' else 2), e['n'], op.decode()), request=data.hex())
            ctx.case(('send', tls, op, st, m, len(body), step))
            ctx.count('blocks_sent')
        parallel(send, range(500 * mult), 8)
        srv.check()
        srv.stop()
