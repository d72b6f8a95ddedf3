"""C08: routing selects the first registered route that matches, and only that one."""
from unit import *
import gen

MAXR = 100


def limits():
    t = open(B.REPO + '/router.h').read()
    g = lambda n: int(re.search(r'#define\s+%s\s+(\d+)' % n, t).group(1))
    # (what is documented is at least kept)
    return max(g('MAX_ROUTES'), 128), max(g('MAX_ROUTE_PATH'), 256), max(g('MAX_PARAM_LENGTH'), 64)


class Table:
    def __init__(self):
        self.routes = []

    def add(self, t, i, filt, verdict):
        self.routes.append((t, i, filt, verdict))

    def expect(self, method, path, form):
        """The events of a request: (kind, index, form) in order."""
        key = method + b':' + path
        for t, i, filt, verdict in self.routes:
            b = t.find(b'{')
            f = None
            if b < 0:
                if t == key:
                    f = form
            else:
                pre, name = t[:b], t[b + 1:-1]
                if key.startswith(pre) and key != pre:
                    add = name + b'=' + key[len(pre):]
                    f = form + b'&' + add if form else add
            if f is None:
                continue
            if filt:
                if not verdict:
                    return [('F', i, f)]
                return [('F', i, f), ('H', i, f)]
            return [('H', i, f)]
        return []


M = [b'GET', b'POST', b'PUT', b'DELETE']


def run(ctx):
    ctx.rule = ('random route tables (overlapping templates, several methods, empty to full, filters) and requests next to their templates (case, prefix, suffix, length), '
                'the calls made by the router against a reference router; then the same end to end; non-trivial: distinct (table, request)')
    r = ctx.rng
    maxroutes, maxpath, maxparam = limits()
    maxroutes = min(maxroutes, 160)

    def template(pool):
        k = r.random()
        if pool and k < 0.45:
            base = r.choice(pool)
            b = base.find(b'{')
            base = base if b < 0 else base[:b]
            m, p = base.split(b':', 1)
            j = r.randrange(8)
            if j == 0:
                p = p + gen.text(r, r.choice((1, 2, 5)))
            elif j == 1:
                p = p[:max(1, len(p) - r.choice((1, 2)))]
            elif j == 2:
                m = r.choice(M)
            elif j == 3:
                p = p.swapcase()
            elif j == 4:
                p = p.rstrip(b'/') + b'/'
            elif j == 5:
                p = p + b'/' + gen.text(r, 2)
            elif j == 6:
                return base
            t = m + b':' + p
        else:
            n = r.choice((0, 1, 2, 3, 4, 10, 40, 150, maxpath - 7, maxpath - 6))
            p = b'/' + b'/'.join(gen.text(r, r.choice((1, 2, 4)), b'abc') for _ in range(r.choice((0, 1, 1, 2, 3)))) if n < 20 else b'/' + gen.text(r, n)
            t = r.choice(M) + b':' + p
        if r.random() < 0.4:
            name = gen.text(r, r.choice((1, 2, 5, 12, maxparam - 2, maxparam - 1)), gen.TOKEN)
            t = t + (b'/' if r.random() < 0.7 and not t.endswith(b'/') else b'') + b'{' + name + b'}'
        return t[:] if len(t) < maxpath else r.choice(M) + b':/s'

    def request(tab):
        k = r.random()
        form = r.choice((b'', b'', b'a=b', gen.text(r, gen.size(r, 1, 3000), gen.URLC + b'&'), b'{"x":1}', b'&'))
        if tab and k < 0.85:
            t = r.choice(tab)[0]
            b = t.find(b'{')
            base = t if b < 0 else t[:b]
            m, p = base.split(b':', 1)
            j = r.randrange(12)
            if j in (0, 1) or (b >= 0 and j < 6):
                p = p + gen.text(r, gen.size(r, 1, 900), gen.URLC + b'/:{}&=;#"\\\xe9') if b >= 0 else p
            elif j == 6:
                p += gen.text(r, r.choice((1, 2)))
            elif j == 7:
                p = p[:-1]
            elif j == 8:
                m = r.choice(M)
            elif j == 9:
                p = p.swapcase()
            elif j == 10:
                p = r.choice((p + b'/', b'/' + p, p.replace(b'/', b'//', 1)))
            elif j == 11:
                m = r.choice((m + b'S', m[:-1], m.lower()))
            return m, p, form
        return r.choice(M), r.choice((b'', b'/', b'/' + gen.text(r, gen.size(r, 0, 1000)), b'/none', b':', b'GET:/')), form

    u = Unit(ctx, again=[('pat', 170), ('fort', 85)])
    for rnd in range(6 if ctx.quick else 80):
        ops, want = [], []
        for _ in range(25):
            ops.append(('rinit',))
            want.append(None)
            tab = Table()
            n = r.choice((0, 1, 2, 3, 5, 10, 20, 50, 99, maxroutes))
            n = min(n, maxroutes)
            pool = []
            for i in range(n):
                if r.random() < 0.06:
                    # too long to be a route: ignored
                    p = b'/' + gen.text(r, r.choice((0, 1, 5)))
                    x = r.choice(M) + b':' + r.choice((p + gen.text(r, maxpath + r.choice((0, 1, 2, 7, 60, 900)) - len(p) - 4), p + b'{' + gen.text(r, maxparam + r.choice((0, 1, 2, 3, 60, 100))) + b'}',
                                                       p + gen.text(r, maxpath - 3 - len(p)) + b'/{id}', p + b'{' + gen.text(r, 1000) + b'}'))
                    ops.append(('radd', x, 150, r.randrange(2), 1))
                    want.append(None)
                    ctx.count('routes_too_long')
                t = template(pool)
                pool.append(t)
                f, v = r.random() < 0.3, r.random() < 0.5
                tab.add(t, i, f, v)
                ops.append(('radd', t, i, int(f), int(v)))
                want.append(None)
            if n == maxroutes and maxroutes < 155 and r.random() < 0.5:
                # one too many is ignored
                for i in range(3):
                    ops.append(('radd', b'GET:/too-many%d' % i, n + i, 0, 0))
                    want.append(None)
            for _ in range(40):
                q = request(tab.routes)
                ops.append(('rreq',) + q)
                want.append((list(tab.routes), tab.expect(*q)))
        res = u.run(ops)
        for op, w, got in zip(ops, want, res):
            if w is None:
                continue
            routes, exp = w
            calls, i = [], 0
            while i < len(got) and got[i] != '=':
                k = got[i]
                if isinstance(k, str) and k[0] == 'H':
                    calls.append(('H', int(k[1:]), got[i + 1]))
                    if got[i + 2] != op[2] or got[i + 3] != op[1]:
                        raise Violation('request-changed', 'the handler saw %r %r for %s' % (got[i + 3], got[i + 2], show(op)))
                    i += 4
                else:
                    calls.append(('F', int(k[1:]), got[i + 1]))
                    i += 2
            sent = got[i + 1]
            if calls != exp:
                raise Violation('routing', 'request %s: calls %s instead of %s' % (show(op), short(repr(calls)), short(repr(exp))), op=show(op, 3000),
                                table=[repr(t) for t in routes][:120])
            if not exp and not sent.startswith(b'HTTP/1.1 400 '):
                raise Violation('default', 'no route matches %s, but the response is %r' % (show(op), short(sent)))
            if exp and sent:
                raise Violation('extra', 'the router itself sent %r for %s' % (short(sent), show(op)))
            ctx.case((len(routes), op[1], op[2], exp[:1] if exp else None) if routes else None, show(op, 140))
            ctx.count('no_match' if not exp else 'refused' if exp[-1][0] == 'F' else 'handled')
    # end to end
    for rnd in range(3 if ctx.quick else 20):
        pool, tab, routes = [], Table(), []
        while len(routes) < r.choice((5, 20, 60, maxroutes if maxroutes < 140 else 140)):
            t = template(pool)
            if b'\xe9' in t or len(t) > 190:
                continue
            pool.append(t)
            f = r.choice(('-', '-', 'accept', 'refuse'))
            tab.add(t, len(routes), f != '-', f == 'accept')
            routes.append(('dump', f, t))
        srv = Server(ctx, routes=routes, cov=True)
        jobs = []
        for i in range(200):
            m, p, form = request(tab.routes)
            if len(p) > 880 or m not in M or any(c <= 32 for c in p) or b'?' in p:
                continue
            q = b'u=%d' % i
            jobs.append((m, p, q, form))
        start = len(srv.poll())

        def one(j):
            m, p, q, form = j
            data = m + b' /api' + p + b'?' + q + b' HTTP/1.1\r\nContent-Length: %d\r\n\r\n' % len(form) + form
            res = srv.request(data)
            st, hs, body = parse_response(res.data)
            exp = tab.expect(m, p, form)
            want = 400 if not exp else 403 if exp[-1][0] == 'F' else 200
            if st != want:
                raise Violation('routing-status', 'status %d instead of %d for %r' % (st, want, short(data)), request=data.hex())
        parallel(one, jobs, 8)
        srv.check()
        seen = {}
        for e in srv.poll()[start:]:
            if e['kind'] in 'HF':
                seen.setdefault(e['qs'], []).append((e['kind'], int(e['idx']), e['form']))
        for m, p, q, form in jobs:
            if seen.get(q, []) != tab.expect(m, p, form):
                raise Violation('routing', 'request %r %r: calls %s instead of %s' % (m, p, short(repr(seen.get(q))), short(repr(tab.expect(m, p, form)))))
            ctx.case((rnd, m, p, form), {'method': m.decode(), 'path': short(p, 80)})
            ctx.count('end_to_end')
        srv.stop()
