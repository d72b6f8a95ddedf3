"""C21: the access log has exactly one accurate line per response."""
import calendar, datetime
from vlib import *
import gen, hostile, mp

ROUTES = [('dump', '-', 'GET:/d'), ('dump', '-', 'POST:/d'), ('dump', '-', 'PUT:/d'), ('dump', '-', 'DELETE:/d'), ('helper', '-', 'POST:/h'), ('dump', 'byq', 'GET:/f'), ('dump', 'slowq', 'GET:/fs'),
          ('dump', '-', 'GET:/p/{id}'), ('sleep', '-', 'GET:/s'), ('logs', '-', 'GET:/l')]
WWW = {'index.html': b'<html>index</html>', 'a.txt': b'text', 'd/b.bin': bytes(range(256)) * 300, 'd/index.html': b'folder', 'favicon.ico': b'ICO', 'empty.css': b'', 'big.zip': bytes(range(256)) * 8192}
OPS = ['ok', 'created', 'not_found', 'bad_request', 'forbidden', 'not_auth', 'too_many', 'ise', 'json', 'jsonst', 'cjson', 'text', 'stream', 'list', 'err', 'mime']
LINE = re.compile(rb'^(.*?) - - \[(\d\d/[A-Z][a-z][a-z]/\d{4}:\d\d:\d\d:\d\d) ([+-]\d{4})\] "(.*)" (\d+) (\d+) "(.*?)" "(.*?)"(.*)$', re.S)
MON = [b'Jan', b'Feb', b'Mar', b'Apr', b'May', b'Jun', b'Jul', b'Aug', b'Sep', b'Oct', b'Nov', b'Dec']


def stamp(t):
    x = re.fullmatch(rb'(\d\d)/(...)/(\d{4}):(\d\d):(\d\d):(\d\d)', t)
    return calendar.timegm((int(x[3]), MON.index(x[2]) + 1, int(x[1]), int(x[4]), int(x[5]), int(x[6])))


def run(ctx):
    ctx.rule = ('requests of every kind that gets a response, each with its own number in the request line and random referrer and agent; each received response (status, bytes) is joined with '
                'the lines of the access log; one at a time, many at once, with injected delays, in plain and TLS mode; non-trivial: distinct requests')
    r = ctx.rng
    mult = 1 if ctx.quick else 20
    uid = [0]
    VAL = bytes(c for c in range(33, 127) if c not in b'"') + b'   ;()/'

    def hv(n):
        v = gen.text(r, n, VAL).strip()
        if r.random() < 0.2:
            # quotes are not special in a header
            v = r.choice((v[:n // 2] + b'"' + v[n // 2 + 1:], b'"' + v[2:] + b'"', v[:-3] + b'" "'))[:n].strip()
        return v

    def mk(kinds):
        uid[0] += 1
        u = b'u=%d' % uid[0]
        k = r.choice(kinds)
        body, early, half = b'', False, False
        m = b'GET'
        hs = []
        if k == 'static':
            url = b'/' + r.choice([x.encode() for x in WWW] + [b'', b'd/', b'none', b'x/y']) + b'?' + u
        elif k == 'helper':
            m = b'POST'
            op = r.choice(OPS)
            st = r.choice((200, 201, 400, 401, 403, 404, 429, 500)) if op != 'list' else r.choice((0, 1, 30))
            body = gen.text(r, gen.size(r, 1, 6000), b'abc {}":,0\n').strip() or b'x'
            url = b'/api/h?op=%s&st=%d&' % (op.encode(), st) + u
        elif k == 'routed':
            m, p = r.choice(((b'GET', b'/api/d'), (b'POST', b'/api/d'), (b'PUT', b'/api/d'), (b'DELETE', b'/api/d'), (b'GET', b'/api/p/zz'), (b'GET', b'/api/l'), (b'GET', b'/api/none'), (b'PUT', b'/api')))
            url = p + b'?' + u
            body = gen.text(r, r.choice((0, 5, 500))) if m in (b'POST', b'PUT') else b''
        elif k == 'slow':
            url = r.choice((b'/api/s?ms=%d&' % r.randrange(0, 15), b'/api/fs?v=%d&us=%d&' % (r.randrange(2), r.randrange(5000)))) + u
        elif k == 'filter':
            url = b'/api/f?v=%d&' % r.randrange(2) + u
        elif k == 'method':
            m = r.choice((b'HEAD', b'OPTIONS', b'PATCH', b'FOO', b'X' * 200))
            url = r.choice((b'/', b'/api/d')) + b'?' + u
            early = half = True
        elif k == 'static-post':
            m = r.choice((b'POST', b'PUT', b'DELETE'))
            url = b'/a.txt?' + u
        elif k == 'dotdot':
            url = b'/../x?' + u
        elif k == 'limited':
            url = b'/api/lim?' + u
            early = half = True
        elif k == 'long':
            url = r.choice((b'/', b'/api/d', b'/a.txt')) + b'?' + u + b'&' + gen.text(r, gen.size(r, 0, 1300))
            early = half = True
        elif k == 'truncated':
            m, url, half = b'POST', b'/api/d?' + u, True
            hs.append(b'Content-Length: 500')
        elif k == 'upload':
            b, ps, body = mp.form(r, big=600)
            m, url = b'POST', b'/api/d?' + u
            hs.append(b'Content-Type: multipart/form-data; boundary="' + b + b'"')
        if body:
            hs.append(b'Content-Length: %d' % len(body))
        ref = hv(r.choice((1, 10, 60, 254, 255, 256, 300))) if r.random() < 0.6 else b''
        ua = hv(r.choice((1, 10, 60, 120, 254, 255, 256, 300))) if r.random() < 0.7 else b''
        ip = b''
        if ref:
            hs.append(r.choice((b'Referer', b'referer')) + b': ' + ref)
        if ua:
            hs.append(b'User-Agent: ' + ua)
        if r.random() < 0.2:
            ip = b'10.%d.%d.%d' % (r.randrange(256), r.randrange(256), r.randrange(256))
            hs.append(b'X-Real-IP: ' + ip)
        if r.random() < 0.2:
            hs.append(r.choice((b'Referer-Policy', b'User-Agent-Hint', b'Refere', b'User-Agen', b'X-Referer', b'XUser-Agent', b'Ref', b'User')) + b': ' + hv(20))
        for _ in range(r.choice((0, 0, 2, 8))):
            hs.append(b'X-%s: %s' % (gen.text(r, 5), hv(20)))
        if r.random() < 0.2:
            hs.append(b'X-Session: ' + gen.text(r, 20))
        r.shuffle(hs)
        line = m + b' ' + url + b' HTTP/1.1'
        src = '127.0.0.%d' % r.choice([x for x in range(1, 200) if x != 77])  # .77 is denied below
        return {'id': u, 'kind': k, 'line': line, 'data': line + b'\r\n' + b''.join(h + b'\r\n' for h in hs) + b'\r\n' + body, 'ref': ref.strip()[:255], 'ua': ua.strip()[:255], 'ip': ip, 'src': src.encode(),
                'early': early, 'half': half}

    def batch(srv, jobs, threads):
        before = srv.access()
        t0 = time.time()

        def one(j):
            x = srv.request(j['data'], half=j['half'], src=j['src'].decode())
            j['res'] = x
        parallel(one, jobs, threads)
        srv.idle()
        t1 = time.time()
        srv.check()
        new = srv.access()
        if not new.startswith(before):
            raise Violation('rewritten', 'earlier lines of the access log have changed')
        lines = new[len(before):].split(b'\n')
        if lines.pop() != b'':
            raise Violation('line', 'the access log ends within a line')
        by = {}
        for l in lines:
            m = LINE.match(l)
            if not m:
                raise Violation('line', 'not a line of an access log: %r' % short(l))
            i = re.search(rb'[?&](u=\d+)(?=[& ]|$)', m[4])
            if not i:
                raise Violation('line', 'a line for no request that was made: %r' % short(l))
            by.setdefault(i[1], []).append((m, l))
        for j in jobs:
            x = j['res']
            got = by.pop(j['id'], [])
            if srv.tls and not x.data:
                continue
            st = int(x.data[9:12]) if x.data.startswith(b'HTTP/1.1 ') else None
            if st is None:
                raise Violation('no-response', 'no response to %r' % short(j['data']))
            if len(got) != 1:
                raise Violation('count', '%d lines for one response to %r: %r' % (len(got), short(j['line']), [short(g[1], 150) for g in got]))
            m, l = got[0]
            want = j['line'][:1023]
            if m[4] != want:
                raise Violation('request-line', 'request line %r instead of %r' % (short(m[4]), short(want)))
            if int(m[5]) != st:
                raise Violation('status', 'the line says %s, the response %d: %r' % (m[5].decode(), st, short(l)))
            if int(m[6]) != len(x.data) and not (srv.tls and (x.reset or x.err)):
                raise Violation('bytes', 'the line says %s bytes, the response has %d: %r' % (m[6].decode(), len(x.data), short(l)), request=j['data'][:2000].hex())
            ips = (j['ip'] or j['src'], j['src']) if j['early'] else (j['ip'] or j['src'],)
            if m[1] not in ips:
                raise Violation('address', 'address %r instead of %r: %r' % (m[1], ips[0], short(l)))
            if b'"' in j['ref'] + j['ua']:
                if not l[m.end(6):].startswith(b' "%s" "%s"' % (j['ref'], j['ua'])) and not (j['early'] and l[m.end(6):].startswith(b' "" ""')):
                    raise Violation('header', 'the line of a request with the referrer %r and the agent %r is %r' % (j['ref'], j['ua'], short(l, 700)))
                ctx.count('values_with_quotes')
            else:
                for name, v, w in (('referrer', m[7], j['ref']), ('user agent', m[8], j['ua'])):
                    if v != w and not (j['early'] and v == b''):
                        raise Violation('header', '%s %r instead of %r: %r' % (name, v, w, short(j['data'])))
            ts = stamp(m[2])
            if m[3] != b'+0000' or not x.t0 - 1.5 <= ts <= x.t1 + 1.5:
                raise Violation('time', 'the time %s %s is %d s off' % (m[2].decode(), m[3].decode(), ts - x.t0))
            ctx.case((j['data'],), {'kind': j['kind'], 'line': short(l, 160)})
            ctx.count('kind_' + j['kind'])
            ctx.count('status_%d' % st)
        if by:
            raise Violation('ghost', 'lines for requests that were not made: %r' % [short(g[0][1]) for g in list(by.values())[:2]])
        ctx.count('lines_joined', len(lines))

    kinds = ['static', 'static', 'helper', 'helper', 'helper', 'routed', 'routed', 'filter', 'method', 'static-post', 'dotdot', 'limited', 'long', 'truncated', 'upload', 'slow']
    for tls, chaos, n in ((False, 0, 1500), (False, 30, 1000), (True, 0, 200)):
        srv = Server(ctx, routes=ROUTES, www=WWW, limits='/api/lim, 0, 0\n', tls=tls, chaos=chaos, cov=True)
        ks = kinds if not tls else [k for k in kinds if k not in ('limited', 'method')]
        batch(srv, [mk(ks) for _ in range(120)], 1)
        for t in (4, 16, 64):
            batch(srv, [mk(ks) for _ in range(n * mult)], t)
        srv.stop()
    srv = Server(ctx, routes=ROUTES, www={}, cov=True)
    batch(srv, [mk(['static']) for _ in range(200)], 8)
    # responses of many digits, from a file that takes no room on the disk
    srv.stop()
    srv = Server(ctx, routes=ROUTES, www=WWW, cov=True)
    for n in (999999, 1000000, 9999999 - 300, 9999999, 10000000, 16777216, 33000000):
        name = b'sparse-%d.bin' % n
        with open(srv.www.encode() + b'/' + name, 'wb') as f:
            f.truncate(n)
        j = mk(['static'])
        j['line'] = b'GET /' + name + b'?' + j['id'] + b' HTTP/1.1'
        j['data'] = j['line'] + j['data'][j['data'].index(b'\r\n'):]
        batch(srv, [j], 1)
        os.unlink(srv.www.encode() + b'/' + name)
    srv.stop()
    srv = Server(ctx, flavour='plain', routes=ROUTES, www=WWW)
    for n in (99999999, 4294967296 + 5) + (() if ctx.quick else (1000000000, 2147483647 - 200, 2147483648 - 60, 2147483648 + 5, 4000000000, 4294967295 - 300, 4294967296 - 60, 9999999999, 10000000000)):
        with open(srv.www + '/huge.bin', 'wb') as f:
            f.truncate(n)
        before = len(srv.access())
        s = connect(srv.port)
        s.sendall(b'GET /huge.bin?%d HTTP/1.1\r\n\r\n' % n)
        total, buf = 0, bytearray(1 << 20)
        while True:
            k = s.recv_into(buf)
            if not k:
                break
            total += k
        s.close()
        srv.idle()
        m = LINE.match(srv.access()[before:].rstrip(b'\n'))
        if not m or int(m[5]) != 200 or int(m[6]) != total:
            raise Violation('bytes', 'a response of %d bytes has the line %r' % (total, short(srv.access()[before:])))
        ctx.case(('huge', n), {'kind': 'huge', 'bytes': total})
    srv.stop()
    srv = Server(ctx, routes=ROUTES, www={}, cov=True)
    # without a response there is no line: denied and never-speaking clients under a deny list
    srv.stop()
    srv = Server(ctx, routes=ROUTES, www=WWW, deny='127.0.0.77\n', cov=True)
    batch(srv, [mk(['static', 'routed']) for _ in range(20)], 4)
    n = srv.access().count(b'\n')
    for i in range(40):
        srv.request(b'GET /a.txt HTTP/1.1\r\n\r\n', src='127.0.0.77')
    srv.idle()
    if srv.access().count(b'\n') != n:
        raise Violation('ghost', 'a line for a connection that was refused without a response')
    ctx.case(('denied',))
    srv.stop()
