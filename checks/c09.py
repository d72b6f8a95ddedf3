"""C09: a handler runs only after its own filter has accepted the request."""
from vlib import *
import gen


def run(ctx):
    ctx.rule = ('requests with random verdicts to routes with filters of several kinds (instant, slow, constant) and without, from 1 to 60 clients at once, also with delays '
                'injected between the blocks of the server; the order of filter, verdict and handler events of each request; non-trivial: distinct (route, verdict, form, round)')
    r = ctx.rng
    mult = 1 if ctx.quick else 15
    kinds = ['accept', 'refuse', 'byq', 'slowq', 'slowq', 'byq', '-']
    routes, info = [], {}
    for i in range(24):
        k = kinds[i % len(kinds)]
        t = [b'GET:/r%d' % i, b'POST:/r%d' % i, b'GET:/q%d/{id}' % i, b'POST:/q%d/{id}' % i][i % 4]
        routes.append(('dump', k, t))
        info[i] = (k, t, i, i)
    # routes that share the handler or the filter of another one, before and after it
    for i in range(24, 60):
        a = r.randrange(i)
        a = info[a][2]
        mode = r.choice(('handler', 'handler', 'filter'))
        k = kinds[i % len(kinds)]
        t = [b'GET:/r%d' % i, b'POST:/r%d' % i, b'GET:/q%d/{id}' % i, b'PUT:/q%d/{id}' % i][r.randrange(4)]
        if mode == 'handler':
            routes.append(('=%d' % a, k, t))
            info[i] = (k, t, a, i)
        else:
            b = r.choice([x for x in range(i) if info[x][3] == x and info[x][0] != '-'])
            routes.append(('dump', '=%d' % b, t))
            info[i] = (info[b][0], t, i, b)
    uid = [0]

    def mk():
        uid[0] += 1
        i = r.randrange(len(info))
        k, t = info[i][:2]
        m, p = t.split(b':', 1)
        p = p.replace(b'{id}', gen.text(r, r.choice((1, 5, 60))))
        v = r.random() < 0.5
        ok = {'accept': True, 'refuse': False, '-': True}.get(k, v)
        us = r.choice((0, 0, 100, 1000, 4000))
        url = b'/api%s?u=%d&v=%d&us=%d' % (p, uid[0], v, us)
        body = gen.text(r, gen.size(r, 0, 300)) if m == b'POST' else b''
        data = m + b' ' + url + b' HTTP/1.1\r\nX-Id: %d\r\nContent-Length: %d\r\n\r\n' % (uid[0], len(body)) + body
        return i, k, ok, url, data

    FIELDS = ('method', 'url', 'path', 'qs', 'form', 'ct', 'ip', 'session', 'headers')

    def batch(srv, n, threads, rnd):
        jobs = [mk() for _ in range(n)]
        start = len(srv.poll())
        res = {}

        def one(j):
            res[j[3]] = srv.request(j[4])
        parallel(one, jobs, threads)
        srv.check()
        by_url, flow = {}, {}
        last = {}
        for e in srv.poll()[start:]:
            if e['kind'] in 'FH':
                by_url.setdefault(e['url'], []).append(e)
                last[(e['tid'], e['req'])] = e['url']
            elif e['kind'] == 'V':
                u = last.get((e['tid'], e['req']))
                by_url.setdefault(u, []).append(e)
        for i, k, ok, url, data in jobs:
            es = by_url.pop(url, [])
            seq = ''.join(e['kind'] for e in es)
            exp = ('FV' if k != '-' else '') + ('H' if ok else '')
            if seq != exp:
                raise Violation('order', 'route %d (filter %s, accepts: %s): events %s instead of %s for %r' % (i, k, ok, seq or 'none', exp, short(data)), request=data.hex())
            for e in es:
                if int(e['idx']) != info[i][2 if e['kind'] == 'H' else 3]:
                    raise Violation('wrong-route', 'the %s of route %s ran for a request of route %d: %r' % ('filter' if e['kind'] != 'H' else 'handler', e['idx'], i, short(data)))
                if e['kind'] == 'V' and (e['accept'] == '1') != ok:
                    raise HarnessError('verdict')
            fh = [e for e in es if e['kind'] in 'FH']
            if len(fh) == 2:
                for f in FIELDS:
                    if fh[0].get(f) != fh[1].get(f):
                        raise Violation('different-request', 'filter and handler of %r saw different %s: %r and %r' % (short(data), f, fh[0].get(f), fh[1].get(f)))
            st, hs, body = parse_response(res[url].data)
            if st != (200 if ok else 403):
                raise Violation('response', 'status %d for a request that was %s: %r' % (st, 'accepted' if ok else 'refused', short(data)), request=data.hex())
            if not ok and body.strip():
                raise Violation('response', 'more than the response of the filter was sent: %r' % short(res[url].data, 600))
            if ok and url.hex().encode() not in body:
                raise Violation('response', 'the response to %r is %r' % (short(data), short(body)))
            ctx.case((i, ok, rnd, len(data)), {'filter': k, 'accepted': ok, 'clients': threads, 'request': short(data, 90)})
            ctx.count('accepted' if ok else 'refused')
        if by_url:
            raise Violation('ghost', 'events of requests nobody sent: %r' % list(by_url)[:3])

    def same(srv, n, threads, rnd):
        """Requests that are all alike, with verdicts that do not depend on them: nothing about a verdict may be remembered."""
        m, p = r.choice(((b'GET', b'/alt'), (b'POST', b'/alt'), (b'GET', b'/altp/' + gen.text(r, 4)), (b'DELETE', b'/alt')))
        hs = r.choice((b'', b'X-Session: s%d\r\n' % r.randrange(3), b'Authorization: Bearer k\r\n', b'Cookie: WSSESSION=abc\r\n', b'X-Real-IP: 10.0.0.1\r\n',
                       b'X-Session: a\r\nX-Real-IP: 10.0.0.2\r\nUser-Agent: x\r\n'))
        body = gen.text(r, 20) if m == b'POST' else b''
        url = b'/api%s?k=%d' % (p, r.randrange(2))
        data = m + b' ' + url + b' HTTP/1.1\r\n' + hs + b'Content-Length: %d\r\n\r\n' % len(body) + body
        start = len(srv.poll())
        got = []

        def one(_):
            got.append(parse_response(srv.request(data).data)[0])
        parallel(one, range(n), threads)
        srv.check()
        es = [e for e in srv.poll()[start:] if e['kind'] in 'FVH']
        seqs, order = {}, []
        for e in es:
            k = (e['tid'], e['req'])
            if e['kind'] == 'F':
                seqs.setdefault(k, []).append([e])
                order.append(seqs[k][-1])
            elif k in seqs:
                seqs[k][-1].append(e)
            else:
                raise Violation('order', 'a handler ran for %r without any filter' % short(data), request=data.hex())
        for q in order:
            want = 'FV' + ('H' if len(q) > 1 and q[1].get('accept') == '1' else '')
            if ''.join(e['kind'] for e in q) != want:
                raise Violation('order', 'events %s instead of %s for one of %d equal requests %r' % (''.join(e['kind'] for e in q), want, n, short(data)), request=data.hex())
        acc = sum(1 for q in order if q[1]['accept'] == '1')
        if len(order) != n:
            raise Violation('order', 'the filter ran %d times for %d equal requests %r' % (len(order), n, short(data)), request=data.hex())
        if threads == 1:
            want = [200 if q[1]['accept'] == '1' else 403 for q in order]
        else:
            got.sort()
            want = [200] * acc + [403] * (n - acc)
        if got != want:
            raise Violation('response', 'statuses %r instead of %r for equal requests %r' % (got, want, short(data)), request=data.hex())
        for i in range(n):
            ctx.case((data, rnd, i))
        ctx.count('equal_requests', n)

    for m in (b'GET:/alt', b'POST:/alt', b'DELETE:/alt', b'GET:/altp/{id}'):
        routes.append(('dump', 'alt', m))
    for chaos, tls, rounds in ((0, False, 8 * mult), (20, False, 8 * mult), (60, False, 6 * mult), (0, True, 1 * mult)):
        srv = Server(ctx, routes=routes, chaos=chaos, tls=tls, cov=True)
        for rnd in range(rounds):
            batch(srv, 60, 1 if rnd == 0 else r.choice((4, 16, 60)), (chaos, rnd))
            batch(srv, 200 if not tls else 60, 60, (chaos, rnd, 'b'))
            same(srv, 30, 1, (chaos, rnd))
            same(srv, 60, r.choice((3, 20)), (chaos, rnd, 'm'))
        srv.stop()
