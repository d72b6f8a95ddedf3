"""C26: the session and the client address are the ones the client presented."""
from vlib import *
import gen

ROUTES = [('dump', '-', 'GET:/d'), ('dump', '-', 'POST:/d'), ('dump', 'accept', 'PUT:/d')]
SES = (b'X-Session', b'Authorization')


def case(r, name):
    return r.choice((name, name, name.lower(), name.upper(), bytes(c ^ 32 if r.random() < 0.5 and 65 <= (c & ~32) <= 90 else c for c in name)))


def value(r, n, semi=True):
    v = gen.header_value(r, n)
    return v if semi else v.replace(b';', b'.').replace(b'\t', b'.')


def blanks(r):
    return r.choice((b'', b' ', b' ', b'  ', b'\t', b' \t ', b' ' * r.randrange(1, 90)))


def make(r, uid, peer):
    """Request bytes; the sessions and the addresses it may have."""
    static = r.random() < 0.35
    hs = []  # (line, kind, value)
    for _ in range(r.choice((0, 0, 1, 1, 1, 2, 3, 5))):
        k = r.random()
        if k < 0.5:
            n = r.choice((0, 1, 5, 20, 24, 31, 32, 40, 61, 62, 63, 64, 65, 66, 100, 127, 128, 200, 500, 800)) if r.random() < 0.7 else gen.size(r, 0, 800)
            v = value(r, n)
            if r.random() < 0.15:
                v = r.choice((b'Bearer ', b'Basic ', b'WSSESSION=', b'X-Session: ', b':', b'::1', b'%s%n%d', b'; ')) .lstrip() + v
                v = v.strip()
            hs.append((case(r, r.choice(SES)), 'ses', v))
        elif k < 0.75:
            n = r.choice((1, 5, 20, 40, 61, 62, 63, 64, 65, 100, 200)) if r.random() < 0.8 else gen.size(r, 1, 300)
            v = value(r, n, False)
            before = [gen.text(r, r.choice((1, 5, 9, 60, 200)), gen.TOKEN) + b'=' + value(r, r.choice((0, 1, 10, 64)), False) for _ in range(r.choice((0, 0, 1, 2, 4)))]
            before += r.choice(([], [], [b'XWSSESSION=no'], [b'WSSESSIONX=no'], [b'a=WSSESSION=no'], [b'wssession=no'], [b'WSSession=no'], [b'WSSESSIO=N=no']))
            after = [gen.text(r, 4, gen.TOKEN) + b'=' + value(r, r.choice((0, 3, 60)), False) for _ in range(r.choice((0, 0, 1, 3)))]
            sep = r.choice((b'; ', b'; ', b';', b';  '))
            have = r.random() < 0.8
            v2 = sep.join(before + ([b'WSSESSION=' + v] if have else []) + after) or b'x=y'
            hs.append((case(r, b'Cookie'), 'cookie', v2, v if have else None))
        else:
            ip = r.choice((b'10.1.2.3', b'255.255.255.255', b'1.1.1.1', b'2001:db8::1', b'fe80::1%eth0', b'::ffff:192.168.100.228', b'2001:0db8:85a3:0000:0000:8a2e:0370:7334', b'', b'unknown'))
            if r.random() < 0.4:
                ip = value(r, r.choice((1, 15, 16, 22, 23, 24, 25, 26, 27, 60, 300)))
            hs.append((case(r, b'X-Real-IP'), 'ip', ip))
    decoys = (b'X-SessionId: no', b'X-Sessio: no', b'XX-Session: no', b'Not-Authorization: no', b'Authorization-Info: no', b'Cookies: WSSESSION=no', b'Cookie2: WSSESSION=no',
              b'X-Real-IP-Old: 9.9.9.9', b'X-Real: 9.9.9.9', b'X-Forwarded-For: 9.9.9.9', b'Host: X-Session: no', b'Referer: /?X-Session:no', b'X-A: Authorization: no', b'X: Cookie: WSSESSION=no')
    lines = [(n + b':' + blanks(r) + h[0] + blanks(r), k) + tuple(h) for n, k, *h in hs]
    for _ in range(r.choice((0, 0, 1, 2, 4, 19, 22, 30))):
        d = r.choice(decoys) if r.random() < 0.6 else b'X-' + gen.text(r, 5) + b': ' + value(r, gen.size(r, 0, 900))
        lines.insert(r.randrange(len(lines) + 1), (d, 'other'))
    if any(len(l[0]) > 1000 for l in lines):
        return make(r, uid, peer)
    body = b''
    m = b'GET'
    if not static:
        m = r.choice((b'GET', b'POST', b'PUT'))
        if r.random() < 0.3:
            body = b'X-Session: no\r\nX-Real-IP: 8.8.8.8\r\n\r\n'
            lines.insert(r.randrange(len(lines) + 1), (b'Content-Length: %d' % len(body), 'other'))
    url = (b'/f.txt' if static else b'/api/d') + b'?u=%d' % uid + r.choice((b'', b'&X-Session:no', b'&WSSESSION=no'))
    data = m + b' ' + url + b' HTTP/1.1\r\n' + b''.join(l[0] + b'\r\n' for l in lines) + b'\r\n' + body
    # the reference
    ses = [l[2] for l in lines if l[1] == 'ses']
    cookies = [l[3] for l in lines if l[1] == 'cookie' and l[3] is not None and len(l[3].strip()) < 64]
    dropped = any(l[1] == 'cookie' and l[3] is not None and len(l[3].strip()) >= 64 for l in lines)
    want = set()
    if ses:
        v = ses[-1].strip()
        want |= {v[:63], v[:63].strip()}
        if not v:
            want |= set(cookies)  # whether an empty header hides the cookie is not stated
    elif cookies:
        want |= set(cookies)      # nor which of several cookies counts
        if dropped:
            want.add(b'')
    else:
        want.add(b'')
    ips = [l[2].strip() for l in lines if l[1] == 'ip' and l[2].strip()]
    wip = ips[-1][:24] if ips else peer.encode()
    return data, url, static, want, {wip, wip.strip()}, tuple((l[1], len(l[2]) if len(l) > 2 else 0) for l in lines)


def run(ctx):
    ctx.rule = ('requests with 0 to 5 X-Session, Authorization, Cookie and X-Real-IP headers (names in any case, values of 0 to 800 bytes, lines of up to 1000) among up to 30 others, to static '
                'files and handlers, from several addresses, one after another and 24 at once; non-trivial: distinct sequences of kinds and lengths of these headers')
    r = ctx.rng
    uid = [0]

    def batch(srv, n, threads, delays=False):
        todo = []
        start = len(srv.poll())
        for _ in range(n):
            uid[0] += 1
            peer = r.choice(('127.0.0.1', '127.0.0.1', '127.1.2.3', '127.100.100.100', '127.0.0.9'))
            todo.append((peer, make(r, uid[0], peer)))
        res = {}

        def one(t):
            peer, (data, url, *_) = t
            res[url] = srv.request(data, src=peer, parts=gen.parts(r, len(data)) if delays else None, delay=0.001)
        parallel(one, todo, threads)
        srv.check()
        by = {e['url']: e for e in srv.poll()[start:] if e['kind'] == 'H'}
        for peer, (data, url, static, want, wip, shape) in todo:
            def bad(key, msg):
                raise Violation(key, msg + ' for %r' % short(data, 700), request=data.hex(), peer=peer)
            try:
                st, hs, body = parse_response(res[url].data)
            except BadResponse as e:
                bad('response', 'the response %r is malformed (%s)' % (short(res[url].data), e))
            if st != 200:
                bad('status', 'status %d' % st)
            if static:
                xs = [v for n, v in hs if n.lower() == b'x-session']
                sc = [v for n, v in hs if n.lower() == b'set-cookie']
                if body != b'file':
                    bad('body', 'body %r' % short(body))
                if xs:
                    ok = len(xs) == 1 and xs[0] in want and len(sc) == 1 and sc[0] == b'WSSESSION=' + xs[0]
                else:
                    ok = b'' in want and not sc
                if not ok:
                    bad('echo', 'the session %r comes back as X-Session %r and Set-Cookie %r' % (sorted(want), xs, sc))
                ctx.count('echoes')
            else:
                e = by.get(url)
                if not e:
                    bad('no-handler', 'no handler ran')
                if e['session'] not in want:
                    bad('session', 'the session is %r instead of %r' % (e['session'], sorted(want)))
                if e['ip'] not in wip:
                    bad('address', 'the address is %r instead of %r' % (e['ip'], sorted(wip)))
                ctx.count('handler_views')
            if any(k != 'other' for k, _ in shape):
                ctx.case((static, shape), {'headers': [list(x) for x in shape if x[0] != 'other'], 'session': sorted(short(w) for w in want)[0]})
            else:
                ctx.case(None)

    mult = 1 if ctx.quick else 12
    for tls, chaos in ((False, 0), (False, 8), (True, 0)):
        srv = Server(ctx, routes=ROUTES, www={'f.txt': b'file', 'index.html': b'I'}, tls=tls, chaos=chaos, cov=True, level=r.choice((0, 4)))
        n = 2 if tls else 6
        for i in range(n * mult):
            batch(srv, 60, 1)
            batch(srv, 60, 8, True)
            batch(srv, 150, 24)
        srv.stop()
    # header sections that end in the middle of one of these lines
    srv = Server(ctx, routes=ROUTES, www={'f.txt': b'file'})
    heads = [case(r, n) + b':' + b for n in SES + (b'X-Real-IP', b'Cookie') for b in (b'', b' ', b' \t', b' abc', b' WSSESSION=', b' WSSESSION=a', b' WSSESSION', b' x=1;', b' x=1; ', b'\t\v\f ')]
    for h in heads:
        for pre in (b'', b'X-Session: first\r\n', b'Cookie: WSSESSION=ck\r\n', b'X-Real-IP: 5.6.7.8\r\n'):
            for path in (b'/f.txt', b'/api/d'):
                data = b'GET ' + path + b' HTTP/1.1\r\n' + pre + h
                start = len(srv.poll())
                res = srv.request(data, half=True)
                st, hs, body = parse_response(res.data)
                v = h.partition(b':')[2].strip()
                allow = {b'', b'first', b'ck', v, v.partition(b'=')[2]}
                got = hget(hs, b'X-Session') or b''
                if path == b'/api/d':
                    es = srv.find(lambda e: e['kind'] == 'H', start)
                    if es:
                        got = es[0]['session']
                        if es[0]['ip'] not in (b'127.0.0.1', b'5.6.7.8', v):
                            raise Violation('cut-address', '%r gives the address %r' % (data, es[0]['ip']), request=data.hex())
                if got not in allow:
                    raise Violation('cut-session', '%r gives the session %r' % (data, got), request=data.hex())
                ctx.case(('cut', h, pre, path))
    # line breaks never come through
    for sep in (b'\r', b'\v\r', b'\r\r', b'x\ry'):
        for n in SES + (b'X-Real-IP', b'Cookie'):
            for path in (b'/f.txt', b'/api/d'):
                v = (b'WSSESSION=' if n == b'Cookie' else b'') + b'a' + sep + b'Evil: 1'
                data = b'GET ' + path + b' HTTP/1.1\r\n' + n + b': ' + v + b'\r\n\r\n'
                start = len(srv.poll())
                try:
                    parse_response(srv.request(data).data)
                except BadResponse as e:
                    raise Violation('break', 'the response to %r is malformed: %s' % (data, e), request=data.hex())
                for e in srv.find(lambda e: e['kind'] == 'H', start):
                    if any(c in (e['session'] + e['ip']) for c in b'\r\n'):
                        raise Violation('break', 'line break in the session %r or address %r of %r' % (e['session'], e['ip'], data), request=data.hex())
                ctx.case(('break', sep, n, path))
    srv.stop()
