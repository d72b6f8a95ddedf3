"""C10: only addresses permitted by the allow and deny lists are served."""
import os
from unit import *
import gen

BL = b' \t\r\n\v\f'


def model(allow, deny, ip):
    def has(data):
        return any(l.strip(BL) == ip for l in data.split(b'\n'))
    if deny is not None and has(deny):
        return False
    return allow is None or has(allow)


def addr(r, pool):
    if pool and r.random() < 0.7:
        return r.choice(pool)
    k = r.random()
    if k < 0.5:
        return b'127.%d.%d.%d' % (r.choice((0, 0, 1, 12, 255)), r.choice((0, 0, 1, 10, 100, 255)), r.choice((1, 2, 3, 10, 11, 12, 100, 101, 111, 254)))
    return b'%d.%d.%d.%d' % tuple(r.choice((0, 1, 2, 10, 12, 100, 101, 192, 255)) for _ in range(4))


def near(r, ip):
    """Text that resembles an address without being it."""
    k = r.randrange(14)
    return [ip + b'0', ip[:-1], ip[1:], b'1' + ip, ip + b'/32', ip + b' # comment', b'#' + ip, ip + b'.', ip.replace(b'.', b',', 1), ip.replace(b'.', b' .', 1), ip.rsplit(b'.', 1)[0] + b'.*',
            ip + b',' + ip, ip + b' ' + ip, ip.rsplit(b'.', 1)[0] + b'.0'][k]


def listing(r, pool):
    k = r.random()
    if k < 0.15:
        return None
    if k < 0.22:
        return r.choice((b'', b'\n', b'\r\n', b' ', b'\n\n\n'))
    n = r.choice((1, 1, 2, 3, 8, 30, 200, 2000)) if r.random() < 0.97 else 20000
    eol = r.choice((b'\n', b'\n', b'\r\n', b' \r\n', b'\n\n', b'\t\n'))
    out = []
    for _ in range(n):
        j = r.random()
        if n > 100 and j < 0.9:
            out.append(b'%d.%d.%d.%d' % (10, r.randrange(256), r.randrange(256), r.randrange(256)))
        elif j < 0.45:
            out.append(addr(r, pool))
        elif j < 0.75:
            out.append(near(r, addr(r, pool)))
        elif j < 0.8:
            out.append(b'')
        elif j < 0.85:
            m = r.choice((100, 254, 255, 256, 511, 512, 1022, 1023, 1024, 1025, 4095, 4096, 5000, 70000))
            a = addr(r, pool)
            # long lines that end, begin or are padded with an address
            out.append(r.choice((b'x' * m + a, a + b'x' * m, b' ' * m + a, a + b' ' * m, (a + b',') * (m // 10), b'#' * m, b'y' * (m - 1) + b' ' + a)))
        else:
            out.append(r.choice((b' ', b'\t', b'  ', b'')) + addr(r, pool) + r.choice((b' ', b'\t', b'', b'   ')))
    d = eol.join(out)
    return d + (eol if r.random() < 0.6 else b'')


def run(ctx):
    ctx.rule = ('allow and deny lists (missing, empty, one to 20000 lines, near-miss addresses, blanks, CRLF, very long lines) and addresses, the decision compared with a set '
                'model; by call and by connecting from many loopback addresses while lists are edited; non-trivial: distinct (allow, deny, address) with a list present')
    r = ctx.rng
    u = Unit(ctx)
    root = u.dir + '/root'
    os.makedirs(root + '/etc')
    fa, fd = root + '/etc/allow', root + '/etc/deny'
    mult = 1 if ctx.quick else 20
    ops, want = [('root', root)], [None]
    for _ in range(400 * mult):
        pool = [addr(r, []) for _ in range(r.choice((1, 2, 5)))]
        allow, deny = listing(r, pool), listing(r, pool) if r.random() < 0.8 else None
        for f, d in ((fa, allow), (fd, deny)):
            ops.append(('put', f, d) if d is not None else ('del', f))
            want.append(None)
        ips = set(pool) | {near(r, p) for p in pool[:1]} | {addr(r, pool) for _ in range(3)}
        for ip in ips:
            if re.fullmatch(rb'\d{1,3}(\.\d{1,3}){3}', ip):
                ops.append(('allowed', ip))
                want.append((allow, deny, ip))
    # edits that keep the length, at once after one another, and the same address asked again
    for _ in range(60 * mult):
        f = r.choice((fa, fd))
        other = fd if f == fa else fa
        ops.append(('del', other))
        want.append(None)
        x, y, z = [b'127.%d.%d.%d' % (r.randrange(1, 10), r.randrange(10), r.randrange(1, 10)) for _ in range(3)]
        for t in r.choices((x + b'\n', y + b'\n', z + b'\n', b' ' * len(x) + b'\n', x + b' ', b'#' + x), k=12):
            ops.append(('put', f, t))
            want.append(None)
            for ip in r.choice(((x,), (x, y), (x, x, y, x))):
                ops.append(('allowed', ip))
                want.append((t if f == fa else None, t if f == fd else None, ip))
    # lists longer than what a counter of 16 bits, or a buffer of a megabyte, can take
    for n in (65535, 65536, 65537, 140000) + (() if ctx.quick else (300000, 1100000)):
        f, other = (fa, fd) if r.random() < 0.5 else (fd, fa)
        ls = [b'10.%d.%d.%d' % (i >> 16 & 255, i >> 8 & 255, i & 255) for i in range(n)]
        for k in ((0, n // 2, n - 1), (1, min(n - 1, 65536), n - 2))[r.randrange(2)]:
            ls[k] = b'127.0.0.%d' % (k % 250 + 1)
        t = b'\n'.join(ls) + r.choice((b'', b'\n'))
        ops += [('del', other), ('put', f, t)]
        want += [None, None]
        for ip in {ls[0], ls[-1], ls[n // 2], ls[1], ls[-2], ls[min(n - 1, 65536)], ls[r.randrange(n)], b'127.1.1.1', b'10.255.255.255', b'127.0.0.1'}:
            ops.append(('allowed', ip))
            want.append((t if f == fa else None, t if f == fd else None, ip))
            ctx.count('asked_of_very_long_lists')
    res = u.run(ops)
    for op, w, got in zip(ops, want, res):
        if w is None:
            continue
        allow, deny, ip = w
        exp = model(allow, deny, ip)
        if got != [int(exp)]:
            raise Violation('decision', 'address %r is %s with allow list %r and deny list %r' % (ip, 'served' if got[0] else 'refused', short(allow or b'(none)'), short(deny or b'(none)')),
                            allow=repr(allow)[:3000], deny=repr(deny)[:3000])
        ctx.case((allow, deny, ip) if allow is not None or deny is not None else None,
                 {'address': ip.decode(), 'allow': short(allow, 60) if allow is not None else None, 'deny': short(deny, 60) if deny is not None else None, 'served': exp})
        ctx.count('calls_served' if exp else 'calls_refused')
    # end to end: edits of the same length, each followed by connections of the same address
    srv = Server(ctx, routes=[('dump', '-', 'GET:/d')], www={'index.html': b'INDEX'}, cov=True)
    for i in range(60 * mult):
        name = r.choice(('allow', 'deny'))
        t = r.choice((b'127.0.0.1\n', b'127.0.0.2\n', b'127.0.0.3\n', b'127.0.0.1 ', b'         \n'))
        for n in ('allow', 'deny'):
            p = srv.root + '/etc/' + n
            if n == name:
                if r.random() < 0.5:
                    open(p, 'r+b' if os.path.exists(p) else 'wb').write(t)  # (in place)
                else:
                    open(p + '.new', 'wb').write(t)
                    os.rename(p + '.new', p)
            elif os.path.exists(p):
                os.unlink(p)
        for s in r.choices(('127.0.0.1', '127.0.0.2', '127.0.0.1'), k=2):
            try:
                got = srv.request(b'GET / HTTP/1.1\r\n\r\n', src=s).data
            except OSError:
                got = b''
            exp = model(t if name == 'allow' else None, t if name == 'deny' else None, s.encode())
            if got.startswith(b'HTTP/1.1 200') != exp or (got and not exp):
                raise Violation('edit', 'right after the %s list has become %r, the address %s gets %r' % (name, t, s, short(got)))
            ctx.case(('edit', i, s))
            ctx.count('connections_after_an_edit')
    srv.stop()
    # no descriptor left with which the lists could be read
    for name in ('deny', 'allow'):
        srv = Server(ctx, routes=[('dump', '-', 'GET:/d')], www={'index.html': b'INDEX'}, cov=True)
        open(srv.root + '/etc/' + name, 'wb').write(b'127.0.0.2\n' if name == 'deny' else b'127.0.0.1\n')
        for i in range(25 * mult):
            srv.request(b'GET / HTTP/1.1\r\n\r\n', src='127.0.0.1')
            srv.idle()
            spare = i % 5
            url = b'/api/d?none=%d%s' % (i, name.encode())
            srv.ctl('nofile %d' % (int(srv.ctl('stats x')['fds']) + spare))
            s = connect(srv.port, src='127.0.0.2')
            got = b''
            try:
                s.sendall(b'GET ' + url + b' HTTP/1.1\r\n\r\n')
                time.sleep(r.choice((0.003, 0.02)))
                srv.ctl('nofile 20000')
                while True:
                    b = s.recv(4096)
                    if not b:
                        break
                    got += b
            except (ConnectionResetError, BrokenPipeError):
                srv.ctl('nofile 20000')
            s.close()
            srv.idle()
            srv.check()
            if got or srv.find(lambda e: e['kind'] == 'H' and e['url'] == url):
                raise Violation('served', 'with %d descriptors left, the address 127.0.0.2, which is not permitted by the %s list, got %r' % (spare, name, short(got)))
            if not srv.request(b'GET /api/d HTTP/1.1\r\n\r\n', src='127.0.0.1').data.startswith(b'HTTP/1.1 200'):
                raise Violation('refused', 'the permitted address is not served any more after a lack of descriptors')
            ctx.case(('no descriptors', name, i), {'from': '127.0.0.2', 'descriptors left': spare, 'list': name, 'served': False} if i < 3 else None)
            ctx.count('connections_without_descriptors_for_the_lists')
        srv.stop()
    # end to end
    for tls in (False, True):
        srv = Server(ctx, routes=[('dump', '-', 'GET:/d')], www={'index.html': b'INDEX'}, tls=tls, cov=True)
        srcs = ['127.0.0.1', '127.0.0.2', '127.0.0.12', '127.0.0.21', '127.0.1.2', '127.10.0.2', '127.0.0.100', '127.255.255.254', '127.1.2.3', '127.0.0.10']
        uid = 0
        for rnd in range((25 if not tls else 4) * mult):
            pool = [x.encode() for x in r.sample(srcs, 3)]
            allow, deny = listing(r, pool), listing(r, pool) if r.random() < 0.7 else None
            for f, d in (('allow', allow), ('deny', deny)):
                p = srv.root + '/etc/' + f
                if d is None:
                    if os.path.exists(p):
                        os.unlink(p)
                elif rnd % 4 == 3:
                    # the list is kept elsewhere
                    open(srv.root + '/%s-%d' % (f, rnd), 'wb').write(d)
                    os.symlink(srv.root + '/%s-%d' % (f, rnd), p + '.new')
                    os.rename(p + '.new', p)
                    ctx.count('linked_lists')
                else:
                    open(p + '.new', 'wb').write(d)
                    os.rename(p + '.new', p)
            start = len(srv.poll())
            before = len(srv.access())
            jobs = []
            for s in r.sample(srcs, 6) * 2:
                uid += 1
                jobs.append((s, b'/api/d?u=%d' % uid if r.random() < 0.6 else b'/?u=%d' % uid))
            res = {}

            def one(j):
                s, url = j
                hdr = b'X-Real-IP: %s\r\nX-Forwarded-For: %s\r\n' % (r.choice(pool), r.choice(pool)) if r.random() < 0.3 else b''
                try:
                    res[url] = srv.request(b'GET ' + url + b' HTTP/1.1\r\n' + hdr + b'\r\n', src=s).data
                except (ConnectionResetError, BrokenPipeError, OSError) as e:
                    res[url] = b''
            parallel(one, jobs, 6)
            srv.idle()
            srv.check()
            handled = {e['url'] for e in srv.find(lambda e: e['kind'] == 'H', start)}
            log = srv.access()[before:]
            for s, url in jobs:
                exp = model(allow, deny, s.encode())
                got = res[url]
                if exp and not got.startswith(b'HTTP/1.1 200'):
                    raise Violation('refused', 'the permitted address %s got %r' % (s, short(got)), allow=repr(allow)[:2000], deny=repr(deny)[:2000])
                if not exp and got:
                    raise Violation('served', 'the address %s, which is not permitted, got %r' % (s, short(got)), allow=repr(allow)[:2000], deny=repr(deny)[:2000])
                if not exp and (url in handled or b'GET ' + url + b' ' in log):
                    raise Violation('handled', 'a request of the address %s, which is not permitted, was handled' % s, allow=repr(allow)[:2000], deny=repr(deny)[:2000])
                if exp and url.startswith(b'/api') and url not in handled:
                    raise Violation('refused', 'the request of the permitted address %s was not handled' % s)
                ctx.case((allow, deny, s, 'net'), {'from': s, 'served': exp, 'tls': tls})
                ctx.count('connections_served' if exp else 'connections_refused')
        srv.stop()
