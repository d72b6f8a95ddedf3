"""C05: a body cut short never reaches a handler."""
import socket, ssl
from vlib import *
import gen, mp

ROUTES = [('dump', '-', 'POST:/d'), ('dump', '-', 'PUT:/d'), ('dump', 'accept', 'POST:/f'), ('dump', '-', 'POST:/p/{id}'), ('dump', '-', 'GET:/d'), ('dump', '-', 'DELETE:/d'),
          ('dump', 'refuse', 'POST:/r')]


def run(ctx):
    ctx.rule = ('announced lengths N and points k < N at which the stream ends (every k for small N; by half-close, close, reset, silent TLS end, in random segments and '
                'after the end of a header or part), and complete bodies followed by extra bytes; non-trivial: distinct (N, k, ending, mode, target)')
    r = ctx.rng
    uid = [0]
    lock = threading.Lock()
    mult = 1 if ctx.quick else 15

    def head(n, target, ct=None):
        with lock:
            uid[0] += 1
            u = uid[0]
        m = b'POST'
        if target == b'/d':
            m = r.choice((b'POST', b'PUT', b'POST', b'DELETE', b'GET'))
        url = b'/api' + target + (b'x' if target == b'/p/' else b'') + (b'?u=%d' if target == b'/p/' else b'?u=%d&raw=1') % u
        h = b'Content-Type: ' + ct + b'\r\n' if ct else b''
        if u % 5 == 0:
            # after as many headers as a browser behind proxies may send
            h = b''.join(b'X-H%d: %d\r\n' % (i, i) for i in range(r.choice((5, 18, 19, 20, 21, 25, 40)))) + h
        return url, m + b' ' + url + b' HTTP/1.1\r\n' + h + cl(n) + (b'X-After: 1\r\n' if u % 3 == 0 else b'') + b'\r\n'

    def cl(n):
        """The length as a client may well write it."""
        k = r.random()
        return (b'Content-Length: %d\r\n' if k < 0.6 else b'content-length:%d\r\n' if k < 0.7 else b'CONTENT-LENGTH:  %d \r\n' if k < 0.8 else b'Content-Length:\t%d\t\r\n' if k < 0.85
                else b'Content-Length: 0%d\r\n' if k < 0.95 else b'Content-Length: 0000000%d\r\n') % n

    def cut(srv, n, k, how, target, body=None, ct=None, fault=None):
        body = body if body is not None else gen.blob(r, n)
        url, h = head(n, target, ct)
        data = h + body[:k]
        ps = gen.parts(r, len(data), r.choice((0, 0, 1, 3)))
        out = None
        if how in ('half', 'fault'):
            res = srv.request(data, half=how == 'half', parts=ps, src='127.0.0.66' if how == 'fault' else None)
            out = res.data
            if srv.tls and not out:
                out = None
        else:
            try:
                s = connect(srv.port, srv.addr, tls=srv.tls)
                p = 0
                for c in ps + [len(data)]:
                    if c > p:
                        s.sendall(data[p:c])
                    p = c
                if how == 'rst':
                    if isinstance(s, ssl.SSLSocket):
                        s = socket.socket(fileno=s.detach())
                    rst(s)
                elif how == 'tls-bye' and isinstance(s, ssl.SSLSocket):
                    try:
                        s.settimeout(0.05)
                        s.unwrap()
                    except (OSError, ssl.SSLError):
                        pass
                    s.close()
                else:
                    s.close()
            except OSError:
                pass
        return (url, n, k, how, target, out, data)

    def judge(srv, jobs, start):
        srv.idle()
        srv.check()
        es = {}
        for e in srv.poll()[start:]:
            if e['kind'] in 'HF':
                es.setdefault(e['url'], []).append(e)
        for url, n, k, how, target, out, data in jobs:
            if es.get(url):
                e = es[url][0]
                raise Violation('truncated-handled', 'a body of %d bytes cut after %d (%s) reached the %s: %r' % (n, k, how, 'handler' if e['kind'] == 'H' else 'filter', short(data)),
                                request=data.hex(), form=repr(e.get('form')))
            if out is not None:
                try:
                    st, hs, b = parse_response(out)
                except BadResponse as x:
                    raise Violation('no-error', 'a body of %d bytes cut after %d (%s) is answered with %r (%s)' % (n, k, how, short(out), x), request=data.hex())
                if st < 400:
                    raise Violation('no-error', 'a body of %d bytes cut after %d (%s) is answered with status %d' % (n, k, how, st), request=data.hex())
                ctx.count('error_responses')
            ctx.case((n, k, how, target, srv.tls), {'announced': n, 'sent': k, 'ended_by': how, 'tls': srv.tls})
            ctx.count('cut_by_' + how)

    def full(srv, n, extra, target):
        body = gen.blob(r, n)
        url, h = head(n, target)
        if target == b'/p/' or b'X-H0: ' in h:
            # (of those with many headers the handler does not know the length)
            body = body.replace(b'\0', b'0')
        data = h + body + extra
        res = srv.request(data, parts=gen.parts(r, len(data), r.choice((0, 1, 4))), delay=r.choice((0, 0.002)))
        return url, n, body, extra, target, res, data

    def judge_full(srv, jobs, start):
        srv.check()
        es = {}
        for e in srv.poll()[start:]:
            if e['kind'] in 'HF':
                es.setdefault((e['url'], e['kind']), []).append(e)
        for url, n, body, extra, target, res, data in jobs:
            hs = es.get((url, 'H'), [])
            want = 0 if target == b'/r' else 1
            if len(hs) != want:
                raise Violation('full-count', 'a complete body of %d bytes ran the handler %d times' % (n, len(hs)), request=data.hex())
            for e in hs + es.get((url, 'F'), []):
                got = e['form']
                exp = body
                if target == b'/p/':
                    exp = body + b'&id=x' if body else b'id=x'
                if got != exp:
                    raise Violation('full-body', 'a body of %d bytes (followed by %d more) was delivered as %d bytes: %r' % (n, len(extra), len(got), short(got)), request=data.hex())
            ctx.case((n, 'full', len(extra), target, srv.tls), {'announced': n, 'sent': n, 'extra': len(extra)})
            ctx.count('complete_bodies')

    def rounds(srv, hows, nmax, rnd, extras):
        jobs = [(n, k, how, t) for n in range(1, nmax + 1) for k in range(n) for how in hows for t in (b'/d',)]
        for _ in range(rnd):
            n = max(1, gen.size(r, 1, 5000))
            k = r.choice((0, 1, n - 1, n // 2, r.randrange(n), r.randrange(n)))
            jobs.append((n, min(k, n - 1), r.choice(hows), r.choice((b'/d', b'/f', b'/p/', b'/r'))))
        for n in (16384, 16385, 32768, 65535, 65536, 65537, 100000, 131072, 131073) + ((300000, 1 << 20) if not ctx.quick else ()):
            jobs += [(n, n - 1, 'half', b'/d'), (n, n - r.choice((1, 2, 16, 1024)), r.choice(hows), b'/f'), (n, r.choice((65535, 65536, 4096, n - 4096)) % n, 'half', b'/d')]
        r.shuffle(jobs)
        for i in range(0, len(jobs), 200):
            start = len(srv.poll())
            done = []

            def one(j):
                done.append(cut(srv, *j))
            parallel(one, jobs[i:i + 200], 12)
            judge(srv, done, start)
        for i in range(extras):
            start = len(srv.poll())
            done = []

            def two(j):
                n = gen.size(r, 0, 5000)
                n = r.choice((n, r.randrange(1, 10)) + ((65536 + r.randrange(9000),) if j % 20 == 0 else ()))
                if n == 0:
                    n = 1
                done.append(full(srv, n, r.choice((b'', b'', b'x', b'\r\n', b'GET /api/d?ghost=1 HTTP/1.1\r\n\r\n', r.randbytes(300))), r.choice((b'/d', b'/d', b'/f', b'/p/', b'/r'))))
            parallel(two, range(40), 10)
            judge_full(srv, done, start)

    srv = Server(ctx, routes=ROUTES, cov=True)
    rounds(srv, ['half', 'close', 'rst'], 12 if ctx.quick else 40, 2500 * mult, 40 * mult)
    # multipart forms cut between any two bytes of the interesting places
    for _ in range(12 * mult):
        b, ps, body = mp.form(r, n=2, big=300)
        if len(body) < 10:
            continue
        pts = {0, 1, len(body) - 1, len(body) - 2, len(body) - 3}
        for t in (b'\r\n\r\n', b'--' + b, b'\r\n'):
            p = body.find(t)
            while p >= 0:
                pts |= {p, p + len(t)}
                p = body.find(t, p + 1)
        start = len(srv.poll())
        jobs = [k for k in sorted(pts) if 0 <= k < len(body)]
        done = []
        parallel(lambda k: done.append(cut(srv, len(body), k, 'half', r.choice((b'/d', b'/f')), body, b'multipart/form-data; boundary=' + b)), jobs, 8)
        judge(srv, done, start)
        ctx.count('multipart_cuts', len(jobs))
    # lengths beyond what can be sent here, also those that look small, zero or negative in fewer bits
    big = [1 << 31, (1 << 31) + 1, 3000000000, (1 << 32) - 1, 1 << 32, (1 << 32) + 1, (1 << 32) + 5, (1 << 32) + 70000, (1 << 33) + 7, 3 * (1 << 32) + 40, 10 ** 12, (1 << 48) + 3,
           (1 << 63) - 1, 1 << 63, (1 << 63) + 6, (1 << 64) - 1, 1 << 64, (1 << 64) + 9, 10 ** 25 + 3, 10 ** 60]
    for fl in ('asan', 'plain', 'tsan', 'msan'):
        srv2 = srv if fl == 'asan' else Server(ctx, routes=ROUTES, flavour=fl)
        for n in big:
            start = len(srv2.poll())
            ks = {0, 1, r.randrange(2, 300)} | {n % b for b in (1 << 31, 1 << 32) if 0 < n % b < 100000}
            done = [cut(srv2, n, k, 'half', r.choice((b'/d', b'/f', b'/p/')), gen.blob(r, k), r.choice((None, None, b'multipart/form-data; boundary=XX'))) for k in sorted(ks)]
            judge(srv2, done, start)
            ctx.count('huge_announcements', len(done))
        if srv2 is not srv:
            srv2.stop()
    # announcements of nothing: what follows belongs to no body, and is not waited for
    for v in (b'0', b'00', b'-0', b'-1', b'-5', b'-20', b'-2147483648', b'-4294967291', b'-99999999999999999999', b'', b' ', b'abc', b'x5', b'-', b'+', b'- 5', b'NaN', b'0x10', b'0x5', b'.5', b'0.9', b'#5', b',7'):
        for extra in (b'', b'hello', b'h' * 60):
            uid[0] += 1
            url = b'/api%s?u=%d&raw=1' % (r.choice((b'/d', b'/f')), uid[0])
            data = b'POST ' + url + b' HTTP/1.1\r\nContent-Length: ' + v + b'\r\n\r\n' + extra
            start = len(srv.poll())
            res = srv.request(data)
            judge_full(srv, [(url, 0, b'', extra, b'/d', res, data)], start)
            ctx.count('announcements_of_nothing')
    # receive errors in the middle of a body
    for err in (0, 104, 110, 113, 5):
        for i in range(12 * mult):
            n = max(2, gen.size(r, 2, 400))
            k = r.randrange(n)
            url, h = head(n, b'/d')
            uid[0] -= 1
            srv.fault(src=66, recv_after=len(h) + k, recv_err=err)
            start = len(srv.poll())
            body = gen.blob(r, n)
            data = h + body
            res = srv.request(data, src='127.0.0.66')
            uid[0] += 1
            judge(srv, [(url, n, k, 'fault-%d' % err, b'/d', res.data, data)], start)
            ctx.count('injected_receive_errors')
    srv.fault(src=0, recv_after=-1, recv_err=0)
    srv.stop()
    srv = Server(ctx, routes=ROUTES, tls=True, cov=True)
    rounds(srv, ['half', 'close', 'rst', 'tls-bye'], 4 if ctx.quick else 12, 200 * mult, 6 * mult)
    srv.stop()
