"""C11: connection limits are never exceeded."""
from hold import *
import gen

PATHS = [b'/api/a', b'/api/ab', b'/api/a/x', b'/api/b', b'/api/c/deep/er', b'/api/zz']
PREF = [b'/', b'/api', b'/api/', b'/api/a', b'/api/ab', b'/api/a/', b'/api/b', b'/api/c', b'/api/c/deep', b'/api/none', b'/static', b'/api/a?id', b'/api/zz?id=h']
ROUTES = [('hold', '-', b'GET:' + p[4:]) for p in PATHS] + [('hold', '-', b'GET:/long/{v}')]
LONG = [b'/api/long/' + (b'abcdefgh' * 80)[:n] for n in (100, 117, 118, 119, 245, 246, 400, 480, 501)] + [b'/api/long/' + b'abcdefgh' * 30 + b'X' * 100]
# also addresses that begin or end like others, and long ones
SRCS = ['127.0.0.1', '127.0.0.2', '127.0.0.10', '127.0.1.1']
MORE = ['127.0.0.1', '127.0.0.10', '127.0.0.100', '127.0.0.101', '127.10.0.1', '127.100.100.100', '127.100.100.10', '127.100.100.101', '127.2.0.0', '127.2.0.0']


MAX_RULES = 64


def rules_text(rules):
    return b''.join(b'%s, %d, %d%s\n' % (p, m, i, s) for p, m, i, s in rules)


def admitted(rules, live, url, src):
    for p, m, i, s in rules:
        if url.lower().startswith(p.lower()):
            tot = [h for h in live if h.url.lower().startswith(p.lower())]
            if len(tot) >= m or len([h for h in tot if h.src == src]) >= i:
                return False
    return True


def srv_wait(srv, n):
    """Waits until the server has no more than n open connections."""
    t = time.monotonic() + TIMEOUT
    while srv.nsock() > 1 + n:
        if time.monotonic() > t:
            raise Hang('a connection is not closed')
        time.sleep(0.001)


def run(ctx):
    ctx.rule = ('random rule sets; one after another, arrivals and departures of held connections compared with a counting model; at once, bursts of held connections whose '
                'number inside handlers must never exceed any rule; also with delays injected and descriptors reused at once; non-trivial: distinct (rules, history step)')
    r = ctx.rng
    mult = 1 if ctx.quick else 15

    def rand_rules(big=False):
        k = r.choice((1, 1, 2, 3, 5, 8))
        out = []
        for p in r.sample(PREF, k):
            m = r.choice((0, 1, 2, 3, 4, 6, 9, 1000))
            out.append((p, m, r.choice((m, m, 0, 1, 2, max(0, m - 1), 1000)), r.choice((b'', b', 30', b', 60'))))
        return out

    def long_rules():
        # (rules of long paths)
        return [(r.choice(LONG)[:r.choice((60, 127, 128, 129, 240, 255, 256, 300, 500, 511))], m, r.choice((m, 1, 100)), b'') for m in (1, 2, 3)]

    # one at a time: every decision is known
    for rnd in range(12 * mult):
        rules = rand_rules() if rnd % 4 != 3 else long_rules()
        if rnd % 6 in (2, 3):
            # as many rules as there can be, the last ones being those that matter
            rules = [(b'/filler%d' % i, 0, 0, b'') for i in range(MAX_RULES - len(rules))] + rules
        srv = Server(ctx, routes=ROUTES, limits=rules_text(rules), tls=rnd == 5, chaos=0, cov=True, www={'index.html': b'I'})
        live = []
        srcs = SRCS if rnd % 2 else r.sample(MORE, 4)
        delay = rnd % 3 == 1
        if delay:
            srv.fault(close_delay=4000)
        for step in range(80):
            if live and r.random() < 0.42:
                h = live.pop(r.randrange(len(live)))
                h.end(r.choice(('release', 'release', 'rst', 'close')))
                if h.s.fileno() == -1 and h.state == 'done' and not hasattr(h, 'response'):
                    # the server notices at its own time
                    srv.wait_event(lambda e: e['kind'] == 'EXIT' and e['id'] == h.id)
                    n = len(live)
                    t = time.monotonic() + TIMEOUT
                    while srv.nsock() > 1 + n:
                        if time.monotonic() > t:
                            raise Hang('a connection is not closed')
                        time.sleep(0.001)
                continue
            if r.random() < 0.3:
                # one that ends at once, also of exactly the URL a rule names
                url = r.choice([b'/static/none'] + [p for p in PREF if b'?' not in p] + [x[0] for x in rules] * 2)
                src = r.choice(srcs)
                data = srv.request((b'GET ' if url == b'/static/none' else b'DELETE ') + url + b' HTTP/1.1\r\n\r\n', src=src).data
                exp = admitted(rules, live, url, src)
                if (not is_429(data)) != exp:
                    raise Violation('static', 'a request of %r from %s was %s with %d active connections and rules %r' % (url, src, 'served' if not exp else 'refused', len(live), rules_text(rules)))
                ctx.case((rnd, step))
                continue
            p, src = r.choice(PATHS if rnd % 4 != 3 else LONG + PATHS[:1]), r.choice(srcs)
            exp = None
            if p.startswith(b'/api') and r.random() < 0.2:
                p = r.choice((b'/API', b'/Api')) + p[4:]
                ctx.count('other_spelling')
            h = Held(srv, p, src, r.choice((b'', b'X-Real-IP: 127.0.0.%d\r\n' % r.randrange(1, 250))))
            exp = admitted(rules, live, h.url, src)
            st = h.settle()
            if st == 'in' and not exp:
                raise Violation('exceeded', 'a connection to %r from %s was admitted although the rules %r and the active connections %r refuse it' %
                                (p, src, rules_text(rules), [(x.path, x.src) for x in live]))
            if st == 'refused':
                if exp or not is_429(h.response):
                    raise Violation('refused', 'a connection to %r from %s got %r although the rules %r and the active connections %r admit it' %
                                    (p, src, short(h.response), rules_text(rules), [(x.path, x.src) for x in live]))
            else:
                live.append(h)
                if delay:
                    time.sleep(0.006)
            ctx.case((rnd, step, exp), {'rules': rules_text(rules).decode(), 'active': len(live), 'arrives': p.decode(), 'from': src, 'admitted': exp})
            ctx.count('admitted' if exp else 'refused')
        for h in live:
            h.end()
        srv.check()
        bad = srv.find(lambda e: e['kind'] == 'H' and False)
        srv.stop()

    # related addresses, each of which has a share of its own, whatever the order in which they come
    def shares(q, tls):
        per = q.choice((1, 2))
        addrs = ['127.0.0.1', '127.0.0.10', '127.0.0.100', '127.0.0.101', '127.0.1.1', '127.10.0.1', '127.1.0.0', '127.1.0.1', '127.100.100.10', '127.100.100.100', '127.100.100.101',
                 '127.200.100.100', '127.0.0.11', '127.0.0.2', '127.0.0.25', '127.0.0.250', '127.0.10.1']
        if q.random() < 0.5:
            q.shuffle(addrs)
        else:
            addrs.sort(key=len, reverse=q.random() < 0.5)
        rules = [(q.choice((b'/', b'/api', b'/api/a')), 1000, per, b'')]
        srv = Server(ctx, routes=ROUTES, limits=rules_text(rules), tls=tls)
        live = []
        for k in range(len(addrs) * (per + 1)):
            src = addrs[k // (per + 1)]
            url_live = len([h for h in live if h.src == src])
            h = Held(srv, b'/api/a', src)
            if (h.settle() == 'in') != (url_live < per):
                raise Violation('share', 'with at most %d connections per address, a connection from %s, which has %d, is %s; active: %r' % (per, src, url_live, 'admitted' if h.state == 'in' else 'refused', sorted(x.src for x in live)))
            if h.state == 'in':
                live.append(h)
            elif not is_429(h.response):
                raise Violation('share', 'a refused connection got %r' % short(h.response))
            ctx.case(('share', per, tuple(sorted(x.src for x in live)), src))
            ctx.count('shares')
        # one address gives its share back, and only that one has it
        for _ in range(10):
            h = live.pop(q.randrange(len(live)))
            h.end()
            srv_wait(srv, len(live))
            o = q.choice([a for a in addrs if a != h.src])
            x = Held(srv, b'/api/a', o)
            if x.settle() == 'in':
                raise Violation('share', 'with at most %d per address, %s got one more as %s left' % (per, o, h.src))
            x = Held(srv, b'/api/a', h.src)
            if x.settle() != 'in':
                raise Violation('share', 'with at most %d per address, %s has %d and is refused' % (per, h.src, len([y for y in live if y.src == h.src])))
            live.append(x)
        for h in live:
            h.end()
        srv.check()
        srv.stop()

    for rnd in range(4 * mult):
        shares(random.Random(r.random()), rnd == 3)

    # at once
    def interval_check(srv, start, rules, srcs):
        """Replays handler entries and exits; the number inside is a lower bound of the number active."""
        inside = {}
        worst = {}
        for e in srv.poll()[start:]:
            if e['kind'] == 'H':
                i = e['url'].split(b'id=')[1].split(b'&')[0].decode()
                inside[i] = e['url'], srcs[i]
                for p, m, ip, s in rules:
                    t = [x for x in inside.values() if x[0].lower().startswith(p.lower())]
                    n = len(t)
                    k = max([len([x for x in t if x[1] == a]) for a in set(x[1] for x in t)] or [0])
                    worst[p] = max(worst.get(p, 0), n)
                    if n > m or k > ip:
                        raise Violation('exceeded', 'with the rule %r, %d connections were being handled at once (%d of one address)' % ((p, m, ip), n, k))
            elif e['kind'] == 'EXIT':
                inside.pop(e['id'], None)
        return worst

    for rnd in range(10 * mult):
        m = r.choice((1, 2, 3, 5, 8, 15))
        ip = r.choice((m, m, 1, max(1, m // 2), 100))
        rules = [(r.choice((b'/', b'/api', b'/api/a')), m, ip, b'')]
        if r.random() < 0.5:
            rules.append((b'/api/a', max(1, m - 1), 100, b''))
        chaos = r.choice((0, 30, 80))
        srv = Server(ctx, routes=ROUTES, limits=rules_text(rules), chaos=chaos, cov=True)
        srv.fault(close_delay=r.choice((0, 0, 3000)))
        for burst in range(4):
            start = len(srv.poll())
            hs = []

            def arrive(i):
                h = Held(srv, b'/api/a', SRCS[i % len(SRCS)])
                hs.append(h)
            parallel(arrive, range(3 * m + 12), 24)
            for h in hs:
                h.settle()
            srcs = {h.id: h.src for h in hs}
            interval_check(srv, start, rules, srcs)
            n_in = [h for h in hs if h.state == 'in']
            # the most that may be in: greedy per address
            cap = min(x[1] for x in rules)
            perip = min(x[2] for x in rules)
            exact = min(cap, sum(min(perip, len([h for h in hs if h.src == a])) for a in SRCS))
            if len(n_in) > exact:
                raise Violation('exceeded', '%d connections are being handled at once under %r' % (len(n_in), rules_text(rules)))
            for h in hs:
                if h.state == 'refused' and not is_429(h.response):
                    raise Violation('refusal', 'a refused connection got %r' % short(h.response))
            handled = {e['url'] for e in srv.find(lambda e: e['kind'] == 'H', start)}
            for h in hs:
                if h.state == 'refused' and h.url in handled:
                    raise Violation('handled', 'a connection that got a 429 reached a handler')
                ctx.case((rnd, burst, h.state, h.src), {'burst': len(hs), 'rules': rules_text(rules).decode(), 'inside': len(n_in)})
            ctx.count('burst_inside', len(n_in))
            ctx.count('burst_refused', len(hs) - len(n_in))
            if len(n_in) < exact:
                ctx.count('bursts_below_capacity')
            for h in n_in:
                h.end()
            srv.idle()
            # arrivals and departures mixed
            start = len(srv.poll())
            srcs = {}
            stop = time.monotonic() + (0.25 if ctx.quick else 0.6)

            def churn(i):
                q = random.Random('%s/%d/%d/%d' % (ctx.seed, rnd, burst, i))
                while time.monotonic() < stop:
                    h = Held(srv, b'/api/a', SRCS[q.randrange(len(SRCS))])
                    srcs[h.id] = h.src
                    if h.settle() == 'in':
                        time.sleep(q.choice((0, 0, 0.001, 0.003)))
                        h.end()
                    ctx.case(None)
            parallel(churn, range(12), 12)
            srv.check()
            w = interval_check(srv, start, rules, srcs)
            ctx.case((rnd, burst, 'churn', len(srcs), tuple(w.values())))
            ctx.count('churn_connections', len(srcs))
            srv.idle()
        srv.stop()
