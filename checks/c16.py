"""C16: response helpers frame exactly the payload they are given."""
from unit import *
import gen
import hashlib
import re

STAT = [200, 201, 400, 401, 403, 404, 429, 500]
FIXED = {'ok': 200, 'created': 201, 'not_found': 404, 'bad_request': 400, 'forbidden': 403, 'not_auth': 401, 'too_many': 429, 'ise': 500}
MIME = [b'text/html', b'image/png', b'image/jpeg', b'application/zip', b'text/css', b'text/plain', b'text/csv', b'text/yaml']
EDGES = [0, 1, 2, 3, 100, 255, 256, 257, 900, 990, 1000, 1018, 1019, 1020, 1021, 1022, 1023, 1024, 1025, 1026, 2043, 2044, 2045, 2046, 2047, 2048, 4095, 4096, 4097, 65535, 65536, 65537, 200000]


def payload(r):
    n = r.choice(EDGES) if r.random() < 0.5 else gen.size(r, 0, 5000)
    k = r.random()
    if k < 0.5:
        return gen.text(r, n)
    if k < 0.7:
        return gen.text(r, n, b'ab\r\n {}"\\')
    if k < 0.85:
        return bytes(r.randrange(1, 256) for _ in range(n if n < 5000 else 700))
    return r.choice((b'%s%n%d' * (n // 6), b'\r\n' * (n // 2), b'HTTP/1.1 200 OK\r\nContent-Length: 5\r\n\r\n' * (n // 40), b'\r\n\r\n' + b'x' * n, b'\n' * n))


def judge(what, data, length, status, body, json_type):
    """data must be exactly one response with this status and body."""
    if status is None:
        if data:
            raise Violation('unsupported', '%s sends %r' % (what, short(data)))
        return
    try:
        st, hs, b = parse_response(data)
    except BadResponse as e:
        raise Violation('framing', '%s: %s: %r' % (what, e, short(data, 500)), data=data[:4000].hex())
    if st != status:
        raise Violation('status', '%s sends status %d' % (what, st))
    if body == b'':
        ok = b in (b'', b'\r\n')
    else:
        ok = b == body + b'\r\n'
    if not ok:
        i = next((i for i, (x, y) in enumerate(zip(b, body + b'\r\n')) if x != y), min(len(b), len(body) + 2))
        raise Violation('body', '%s: the body has %d bytes instead of %d, the first difference is at %d (%r)' % (what, len(b), len(body) + 2, i, short(b[max(0, i - 20):i + 40])))
    cl = hget(hs, b'Content-Length')
    if cl is not None and int(cl) != (len(b) if body else int(cl)):
        raise Violation('length', '%s declares %s bytes and sends %d' % (what, cl.decode(), len(b)))
    if cl is not None and not body and int(cl) not in (0, 2):
        raise Violation('length', '%s without a payload declares %s bytes' % (what, cl.decode()))
    if json_type and hget(hs, b'Content-Type') != b'application/json':
        raise Violation('type', '%s declares the type %r' % (what, hget(hs, b'Content-Type')))
    if length != len(data):
        raise Violation('recorded', '%s sends %d bytes and records %d' % (what, len(data), length))


def mk(r):
    """(call, status, body, is json)"""
    k = r.random()
    if k < 0.25:
        p = payload(r)
        st = r.choice(STAT)
        return ('send', 'status', st, p, b''), st, p, False
    if k < 0.32:
        st = r.choice((0, 1, -1, 100, 199, 202, 204, 301, 302, 304, 399, 402, 405, 418, 428, 430, 499, 501, 502, 503, 999, 2000, 20, 4, r.randrange(-5, 1200)))
        if st in STAT:
            st = 777
        return ('send', 'status', st, payload(r), b''), None, b'', False
    if k < 0.42:
        h = r.choice(list(FIXED))
        return ('send', h, 0, b'', b''), FIXED[h], b'', False
    if k < 0.75:
        p = payload(r)
        h = r.choice(('json', 'jsonst', 'jsonst', 'cjson'))
        st = r.choice(STAT)
        return ('send', h, st, p, b''), {'json': 200, 'cjson': 201}.get(h, st), p, True
    if k < 0.9:
        p = payload(r)
        # lines next to the size of a buffer
        if r.random() < 0.5:
            p = b''.join(gen.text(r, r.choice((0, 1, 500, 1021, 1022, 1023, 1024, 1025, 2046))) + b'\n' for _ in range(r.randrange(1, 6)))[:r.choice((10 ** 6, 10 ** 6, 1022, 1023, 1024))]
        st = r.choice(STAT)
        return ('send', 'stream', st, p, b''), st, p, True
    if k < 0.97:
        h = r.choice(('err400', 'err403', 'err500'))
        code = gen.text(r, r.choice((1, 5, 62, 63)))
        msg = r.choice((gen.text(r, gen.size(r, 0, 1023), gen.TOKEN + b' "\\\t\n'), gen.text(r, r.choice((0, 1, 254, 1022, 1023)))))
        return ('send', h, 0, msg, code), int(h[3:]), (code, msg), True
    n = r.choice((1, 2, 10, 49))
    l = [b'%d' % r.randrange(10 ** 6) for _ in range(n)]
    return ('send', 'list', 0, b','.join(l), b''), 200, [int(x) for x in l], True


def run(ctx):
    ctx.rule = ('every helper, with every status and payloads of edge and random lengths and contents; the bytes that leave are parsed and compared with the payload, the recorded '
                'length with their number; also through a serving process in plain and TLS mode; non-trivial: distinct calls with a payload')
    r = ctx.rng
    u = Unit(ctx)
    total = 5000 if ctx.quick else 100000
    while total > 0:
        n = min(1000, total)
        total -= n
        calls = [mk(r) for _ in range(n)]
        for (c, st, body, js), (data, length) in zip(calls, u.run([c[0] for c in calls])):
            what = show(c, 160)
            if isinstance(body, (tuple, list)):
                b = data.partition(b'\r\n\r\n')[2]
                try:
                    v = json.loads(b)
                except ValueError:
                    raise Violation('body', '%s: the body is no JSON: %r' % (what, short(b)))
                exp = body if isinstance(body, list) else {'code': body[0].decode(), 'message': body[1].decode()}
                if isinstance(body, list):
                    v = [int(x) for x in v] if isinstance(v, list) else v
                if v != exp:
                    raise Violation('body', '%s: the body is %r' % (what, short(b)))
                judge(what, data, length, st, b[:-2] if b.endswith(b'\r\n') else b, js)
            else:
                judge(what, data, length, st, body, js)
            ctx.case(c if body else None, show(c, 90))
            ctx.count('helper_' + c[1])
            ctx.count('bytes_compared', len(data))
    # texts of more bytes than an int can count
    big = [((1 << 32) + r.randrange(5, 10 ** 6), r.choice(('status', 'jsonst', 'stream')))] if ctx.quick else [
        (n, h) for h in ('status', 'jsonst', 'stream') for n in ((1 << 31) - 20, (1 << 31) + 12345, (1 << 32) - 200, (1 << 32) + 12345)]
    up = Unit(ctx, flavour='plain')
    for n, h in [(5 << 20, 'status'), (4097 * 1000, 'jsonst'), (7654321, 'stream')] + big:
        m = hashlib.md5()
        for t in big_text(n):
            m.update(t)
        m.update(b'\r\n')
        head, total, got, length = up.run([('bigsend', h, 200, n)], timeout=600)[0]
        st, hs, b = parse_response(re.sub(rb'(?i)\r\ncontent-length:[^\r]*', b'', head))
        cl = (re.search(rb'(?i)\r\ncontent-length: *(\d+)\r\n', head) or [None, None])[1]
        if st != 200 or b or total != len(head) + n + 2 or got.decode() != m.hexdigest() or (cl is not None and int(cl) != n + 2) or length != total:
            raise Violation('big', '%s with a text of %d bytes sends %d bytes after headers of %d (%r), the digest of what follows is %s instead of %s, and records %d' % (
                h, n, total - len(head), len(head), short(head), got.decode(), m.hexdigest(), length))
        ctx.case(('big', n, h), {h: n})
        ctx.count('big_texts')
        ctx.count('bytes_compared', total)
    # headers for a media type
    calls = [('send', 'mime', st, m, b'') for st in STAT for m in MIME + [b'application/x-none', b'']]
    for c, (data, length) in zip(calls, u.run(calls)):
        st, hs, b = parse_response(data)
        want = c[3] if c[3] in MIME else b'application/octet-stream'
        if st != c[2] or hget(hs, b'Content-Type') != want or b or length != len(data):
            raise Violation('mime', 'headers for %r with status %d: %r, recorded length %d of %d' % (c[3], c[2], short(data), length, len(data)))
        ctx.case(c)
    # from a serving process
    for tls in (False, True):
        srv = Server(ctx, routes=[('helper', '-', 'POST:/h')], tls=tls, cov=True)
        jobs = []
        for i in range((250 if not tls else 120) * (1 if ctx.quick else 10)):
            op = r.choice(('json', 'jsonst', 'cjson', 'text', 'stream'))
            st = r.choice(STAT)
            p = payload(r).replace(b'\0', b'0')
            if op == 'stream' and not p:
                p = b'x'
            jobs.append((i, op, {'json': 200, 'cjson': 201}.get(op, st), st, p))
        start = len(srv.poll())
        sizes = {}

        def one(j):
            i, op, st, q, p = j
            u = b'/api/h?op=%s&st=%d&u=%d' % (op.encode(), q, i)
            x = srv.request(b'POST ' + u + b' HTTP/1.1\r\nContent-Length: %d\r\n\r\n' % len(p) + p)
            judge('%s (%s mode, payload of %d bytes)' % (op, 'TLS' if tls else 'plain', len(p)), x.data, len(x.data), st, p, op != 'text')
            sizes[u] = len(x.data), op
            ctx.case(('srv', tls, op, p))
        parallel(one, jobs, 8)
        srv.check()
        for e in srv.find(lambda e: e['kind'] == 'LEN', start):
            n, op = sizes.pop(e['url'])
            if int(e['len']) != n:
                raise Violation('recorded', '%s sends %d bytes and records %s' % (op, n, e['len']))
        if sizes:
            raise HarnessError('no record for some requests')
        srv.stop()
    # texts of more bytes than an int can count, in TLS mode too
    G = 1 << 31
    for tls in (True, False):
        srv = Server(ctx, flavour='plain', routes=[('helper', '-', 'POST:/h')], tls=tls)
        for n, op in [(1234567, 'bigtext'), (2345678, 'bigjson'), (3456789, 'bigstream')] + (
                ([(G + r.randrange(5, 10 ** 6), r.choice(('bigtext', 'bigjson')))] if tls else []) if ctx.quick else [(G - 1, 'bigtext'), (G + 77, 'bigtext'), (2 * G + 8, 'bigjson'), (2 * G + 9, 'bigstream')]):
            s = connect(srv.port, tls=tls, timeout=240)
            s.sendall(b'POST /api/h?op=%s&st=%d&u=%d HTTP/1.1\r\nContent-Length: 0\r\n\r\n' % (op.encode(), n, n))
            buf = bytearray(1 << 20)
            view = memoryview(buf)
            head, total, m = b'', 0, hashlib.md5()
            while True:
                try:
                    k = s.recv_into(buf)
                except (ssl.SSLError, ConnectionError):
                    k = 0
                if not k:
                    break
                d = view[:k]
                if b'\r\n\r\n' not in head:
                    head += bytes(d)
                    a, b, c = head.partition(b'\r\n\r\n')
                    if not b:
                        continue
                    head, d = a + b, c
                total += len(d)
                m.update(d)
            s.close()
            srv.idle()
            e = hashlib.md5()
            for t in big_text(n):
                e.update(t)
            e.update(b'\r\n')
            what = '%s in %s mode with a text of %d bytes' % (op, 'TLS' if tls else 'plain', n)
            if total != n + 2 or m.hexdigest() != e.hexdigest():
                raise Violation('big', '%s: %d bytes follow the headers (%r), or they are others' % (what, total, short(head)))
            cl = re.search(rb'(?i)\r\ncontent-length: *(\d+)\r\n', head)
            if cl and int(cl[1]) != n + 2:
                raise Violation('length', '%s declares %s bytes' % (what, cl[1].decode()))
            log = [l for l in srv.access().split(b'\n') if b'&u=%d ' % n in l]
            if len(log) != 1 or b' 200 %d "' % (len(head) + total) not in log[0]:
                raise Violation('recorded', '%s: the access log has %r for %d bytes' % (what, log, len(head) + total))
            ctx.case(('big', tls, op, n), {op: n, 'tls': tls})
            ctx.count('big_texts')
        srv.stop()
