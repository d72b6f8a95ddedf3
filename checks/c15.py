"""C15: uploads are written only inside the upload folder, under server-chosen names."""
import errno, os
from vlib import *
import gen, hostile, mp
from hold import Held

ROUTES = [('dump', '-', 'POST:/d'), ('dump', '-', 'PUT:/d'), ('dump', 'accept', 'POST:/f'), ('dump', 'refuse', 'POST:/no'), ('helper', '-', 'POST:/h'), ('hold', '-', 'GET:/hold')]
EVIL = [b'../../etc/x', b'/etc/cron.d/x', b'..', b'.', b'/', b'../', b'a/../../b', b'..\\..\\x', b'/dev/shm/evil', b'../log/app.log', b'../root/www/index.html', b'../cfg', b'%2e%2e/x',
        b'x;y', b'|sh', b'$(id)', b'`id`', b'-rf', b'x\0y', b'/tmp/wayuu/../z', b'~/x', b'...', b'../events', b'a/b', b'CON', b'../../../../../../../../tmp/evil', b'file:///x', b'%s%n%d']


def tree(top, skip):
    out = {}
    for d, ds, fs in os.walk(top):
        ds[:] = [x for x in ds if os.path.join(d, x) not in skip]
        for x in ds:
            out[os.path.join(d, x)] = None
        for f in fs:
            p = os.path.join(d, f)
            if p not in skip:
                try:
                    out[p] = open(p, 'rb').read()
                except OSError:
                    out[p] = 'unreadable'
    return out


def evil_form(r):
    """A well-formed form whose names try to get out."""
    while True:
        b, ps, body = mp.form(r, big=800)
        out = []
        for isf, name, fn, extra, data in ps:
            if r.random() < 0.7 and isf:
                fn = r.choice(EVIL)
                if r.random() < 0.3:
                    fn = b'../' * r.randrange(1, 90) + fn
                fn = fn.replace(b'\0', b'')[:255] if r.random() < 0.9 else fn
            if r.random() < 0.4:
                name = r.choice(EVIL).replace(b'\0', b'')
            if r.random() < 0.15:
                name += b'&tmpfile=../../x'
            out.append((isf, name, fn, extra, data))
        body = mp.encode(r, b, out)
        if all(b'--' + b not in (x[1] + b' ' + (x[2] or b'')) for x in out):
            return b, out, body


def run(ctx):
    ctx.rule = ('uploads with hostile field names, file names and contents, well-formed and mutated, also with the upload folder missing; every path opened for writing, created or '
                'deleted is recorded and the whole tree around the upload folder compared before and after; non-trivial: distinct bodies')
    r = ctx.rng
    mult = 1 if ctx.quick else 20
    uid = [0]
    for rnd, (chaos, tls) in enumerate([(0, False), (0, False), (30, False), (0, True)] if ctx.quick else [(0, False), (0, True), (30, False), (60, False)] * 3):
        mark = r.randbytes(8).hex().encode()
        srv = Server(ctx, routes=ROUTES, www={'index.html': mark, 'x': mark, 'etc/x': mark}, record=True, cov=True, chaos=chaos, tls=tls, level=r.choice((4, 4, 1)))
        # files an escaping name would reach
        for p in ('x', 'evil', 'z', 'b', 'root/x', 'etc/x'):
            os.makedirs(os.path.dirname(srv.dir + '/' + p), exist_ok=True)
            open(srv.dir + '/' + p, 'wb').write(mark)
        up = srv.dir + '/upload'
        skip = {up, srv.dir + '/log', srv.dir + '/san', srv.dir + '/events', srv.dir + '/out', srv.dir + '/cov'}
        before = tree(srv.dir, skip)
        start = len(srv.poll())
        saved = {}
        lk = threading.Lock()

        def verify(t, data, req, when):
            try:
                d = open(up + '/' + t.decode('latin-1'), 'rb').read()
            except (OSError, ValueError):
                d = None
            if d != data:
                raise Violation('content', 'the file %r of a finished upload holds %s %s instead of what was uploaded (%d bytes)' %
                                (t, 'nothing' if d is None else '%d other bytes' % len(d), when, len(data)), request=req.hex())

        def one(i):
            q = random.Random('%s/%s/%d/%d' % (ctx.seed, ctx.tier, rnd, i))
            b, ps, body = evil_form(q)
            good = q.random() < 0.6
            if not good:
                for _ in range(q.choice((1, 2, 5))):
                    body = hostile.mutate(q, body, [b'--' + b, b'\r\n', b'"', b'; filename="', b'form-data; name="', b'../'])
            with lk:
                uid[0] += 1
                u = b'/api/d?u=%d' % uid[0]
            data = b'POST ' + u + b' HTTP/1.1\r\nContent-Type: multipart/form-data; boundary="' + b + b'"\r\nContent-Length: %d\r\n\r\n' % len(body) + body
            srv.request(data)
            ctx.case((body,), {'names': [short(p[2], 40) for p in ps if p[0]][:4], 'well_formed': good})
            return u, good, ps, data

        def work(i):
            u, good, ps, data = one(i)
            es = srv.find(lambda e: e['kind'] == 'H' and e['url'] == u, start)
            for e in es:
                f = e['form'] or b''
                if good and all(b'\0' not in x[1] + (x[2] or b"") and len(x[2] or b"") <= 255 and b"&tmpfile=" not in x[1] for x in ps):
                    err, names = mp.match(f, ps)
                    if err:
                        raise Violation('form', 'wrong form: %s; %r' % (err, short(data, 500)), request=data.hex())
                    for t, d in names:
                        if not re.fullmatch(rb'[0-9a-f-]+', t):
                            raise Violation('name', 'an upload was saved under the name %r' % t, request=data.hex())
                        verify(t, d, data, 'when the handler ran')
                        with lk:
                            saved[t] = d, data
                        ctx.count('saved_files')

        n = (1500 if not tls else 150) * mult
        for lo in range(0, n, max(1, n // 4)):
            parallel(work, range(lo, min(n, lo + n // 4)), 12)
            srv.check()
            # nothing that was uploaded before has changed
            for t, (d, req) in list(saved.items()):
                verify(t, d, req, 'after later uploads')
        now = tree(srv.dir, skip)
        if now != before:
            diff = [p for p in set(now) | set(before) if now.get(p, 'absent') != before.get(p, 'absent')]
            raise Violation('outside', 'uploads changed files outside the upload folder: %r' % sorted(diff)[:5])
        for f in os.listdir(up):
            if not re.fullmatch(r'[0-9a-f-]+', f):
                raise Violation('name', 'the upload folder contains the entry %r' % f)
            if os.path.isdir(up + '/' + f):
                raise Violation('name', 'the upload folder contains a new folder %r' % f)
        for e in srv.poll()[start:]:
            if e['kind'] in ('W', 'D', 'M'):
                p = e['norm'].decode('latin-1')
                ctx.count('writes_observed')
                if p.startswith('/tmp/wayuu/') and re.fullmatch(r'[0-9a-f-]+', p[11:]) and b'..' not in e['path']:
                    continue
                if p == '/tmp/wayuu' and e['kind'] == 'M':
                    continue
                if p in ('/var/log/wayuu-access.log', '/var/log/wayuu.log', '/var/log/app.log') and e['kind'] == 'W':
                    continue
                if p == '/dev/null':
                    continue
                raise Violation('outside', 'serving uploads %s %r' % ({'W': 'writes to', 'D': 'deletes', 'M': 'creates'}[e['kind']], e['path']))
            if e['kind'] == 'X':
                raise Violation('outside', 'serving uploads runs %r' % e.get('cmd'))
        srv.stop()

    # the same content, names and threads again: what a finished upload refers to stays
    srv = Server(ctx, routes=ROUTES, record=True, cov=True)
    saved = []
    lk = threading.Lock()
    contents = [b'', b'a', b'b' * 100, r.randbytes(500), b'c' * 33, b'c' * 32 + b'd']

    alike = [r.randbytes(n) for n in (1024, 4096, 5000, 16384, 65536, 70000)]

    def near(q):
        """A content that shares all but one or two bytes with many others."""
        d = bytearray(q.choice(alike[:3] if q.random() < 0.6 else alike))
        for at in q.sample((0, 1, len(d) // 2, len(d) - 1, len(d) - 2), q.choice((0, 1, 1, 2))):
            d[at] = q.randrange(256)
        return bytes(d)[:len(d) - q.choice((0, 0, 0, 1))] + b'x' * q.choice((0, 0, 0, 1))

    def again(i):
        q = random.Random('%s/%d' % (ctx.seed, i))
        ps = [(True, b'f%d' % k, b'same.txt', [], (near(q) if q.random() < 0.4 else q.choice(contents) if q.random() < 0.5 else b'same start ' * 20 + b'%d' % q.randrange(10 ** 6))) for k in range(q.choice((1, 2, 4, 9)))]
        body = mp.encode(q, b'BOUNDARY', ps)
        u = b'/api/d?again=%d' % i
        data = b'POST ' + u + b' HTTP/1.1\r\nContent-Type: multipart/form-data; boundary=BOUNDARY\r\nContent-Length: %d\r\n\r\n' % len(body) + body
        srv.request(data)
        e = srv.find(lambda e: e['kind'] == 'H' and e['url'] == u)
        if len(e) != 1:
            raise Violation('delivered', 'an upload was not delivered')
        err, names = mp.match(e[0]['form'] or b'', ps)
        if err:
            raise Violation('form', 'wrong form: %s' % err, request=data.hex())
        with lk:
            saved.extend(names)
        ctx.case((body, i))
    for k in range(4):
        parallel(again, range(k * 100, k * 100 + 100), 16)
        for t, d in saved:
            try:
                got = open(srv.dir + '/upload/' + t.decode(), 'rb').read()
            except OSError:
                got = None
            if got != d:
                raise Violation('content', 'a later upload changed the content of the finished upload %r' % t)
        ctx.count('rechecked_files', len(saved))
    srv.check()

    # uploads of the same contents that are refused, fail or are never finished leave the finished ones alone
    def recheck(when):
        for t, d in saved:
            try:
                got = open(srv.dir + '/upload/' + t.decode(), 'rb').read()
            except OSError:
                got = None
            if got != d:
                raise Violation('content', '%s, the finished upload %r holds %s instead of what was uploaded' % (when, t, 'nothing' if got is None else 'something else'))
        ctx.count('rechecked_files', len(saved))
    n0 = len(saved)

    def few(i):
        ps = [(True, b'f', b'same.txt', [], d) for d in contents[:4]]
        body = mp.encode(random.Random(i), b'BOUNDARY', ps)
        u = b'/api/d?few=%d' % i
        data = b'POST ' + u + b' HTTP/1.1\r\nContent-Type: multipart/form-data; boundary=BOUNDARY\r\nContent-Length: %d\r\n\r\n' % len(body) + body
        srv.request(data)
        e = srv.find(lambda e: e['kind'] == 'H' and e['url'] == u)
        err, names = mp.match(e[0]['form'] or b'', ps) if len(e) == 1 else ('not delivered', [])
        if err:
            raise Violation('form', 'wrong form: %s' % err, request=data.hex())
        with lk:
            saved.extend(names)
    parallel(few, range(600), 8)
    ways = {'unmatched': (b'POST /api/none', 0), 'refused': (b'POST /api/no', 0), 'failing': (b'POST /api/h?op=ise', 0), 'wrong method': (b'DELETE /api/d', 0), 'static': (b'POST /a', 0),
            'unfinished': (b'POST /api/d', 7), 'hardly begun': (b'POST /api/d', -1), 'without field name': (b'POST /api/d', 0)}
    for way, (line, cut) in ways.items():
        def other(i):
            q = random.Random('%s/%s/%d' % (ctx.seed, way, i))
            ps = [(True, b'' if way == 'without field name' else b'f', b'same.txt', [], d) for d in q.sample(contents[:4], q.choice((1, 1, 2)))]
            body = mp.encode(q, b'BOUNDARY', ps)
            head = line + b' HTTP/1.1\r\nContent-Type: multipart/form-data; boundary=BOUNDARY\r\nContent-Length: %d\r\n\r\n' % (len(body) + (9 if cut else 0))
            try:
                srv.request(head + (body if cut >= 0 else body[:40]), half=bool(cut))
            except ConnectionError:
                pass
            ctx.case((way, body, i))
        parallel(other, range(400 * mult), 8)
        srv.check()
        recheck('after uploads of the same content that were ' + way)
        ctx.count('rechecked_after_' + way.replace(' ', '_'))
    # somebody still reads the file of a finished upload while the same worker gets the same content again
    workers = int([e for e in srv.events if e['kind'] == 'START'][0]['workers'])
    held = [Held(srv, b'/api/hold', '127.0.0.9') for _ in range(workers - 1)]
    for h in held:
        if h.settle() != 'in':
            raise HarnessError('not admitted')
    for n in (3, 5000, 300000, 1500000):
        ps = [(True, b'f', b'same.txt', [], bytes(r.randrange(1, 256) for _ in range(min(n, 5000))) * (n // min(n, 5000)))]
        body = mp.encode(r, b'BOUNDARY', ps)
        name, bad, reads, stop = [None], [], [0], [False]

        def reader():
            while not stop[0] and not bad:
                if not name[0]:
                    time.sleep(0.001)
                    continue
                try:
                    d = open(srv.dir + '/upload/' + name[0], 'rb').read()
                except OSError:
                    d = None
                reads[0] += 1
                if d != ps[0][4]:
                    bad.append('nothing' if d is None else '%d of %d bytes' % (len(d), len(ps[0][4])))
        t = threading.Thread(target=reader)
        t.start()
        try:
            for i in range(60 if ctx.quick else 400):
                u = b'/api/d?reread=%d.%d' % (n, i)
                before = len(srv.poll())
                srv.request(b'POST ' + u + b' HTTP/1.1\r\nContent-Type: multipart/form-data; boundary=BOUNDARY\r\nContent-Length: %d\r\n\r\n' % len(body) + body)
                e = srv.find(lambda e: e['kind'] == 'H' and e['url'] == u, before)
                err, names = mp.match(e[0]['form'] or b'', ps) if len(e) == 1 else ('not delivered', [])
                if err:
                    raise Violation('form', 'wrong form: %s' % err)
                if not name[0]:
                    name[0] = names[0][0].decode()
                elif i % 10 == 0:
                    # reads are spread over the time that uploads take
                    time.sleep(0.002)
                ctx.case(('reread', n, i))
                if bad or ctx.quick and n > 10 ** 5 and i > 5 * 10 ** 6 // n:
                    break
        finally:
            stop[0] = True
            t.join()
        ctx.count('reads_during_uploads', reads[0])
        if bad:
            raise Violation('content', 'while another upload of the same content is saved, the finished upload %r holds %s' % (name[0], bad[0]))
    # the same content again, which cannot be stored this time: the finished upload keeps its own
    for n in (0, 1, 4096, 70000):
        ps = [(True, b'f', b'same.txt', [], r.randbytes(n)) for _ in range(2)]
        body = mp.encode(r, b'BOUNDARY', ps)

        def up(tag):
            u = b'/api/d?fault=%d.%s' % (n, tag)
            before = len(srv.poll())
            srv.request(b'POST ' + u + b' HTTP/1.1\r\nContent-Type: multipart/form-data; boundary=BOUNDARY\r\nContent-Length: %d\r\n\r\n' % len(body) + body, half=True)
            return srv.find(lambda e: e['kind'] == 'H' and e['url'] == u, before)
        e = up(b'first')
        err, names = mp.match(e[0]['form'] or b'', ps) if len(e) == 1 else ('not delivered', [])
        if err:
            raise Violation('form', 'wrong form: %s' % err)
        for fault in ('write_err', 'upload_err'):
            for no in (errno.ENOSPC, errno.EIO) + ((errno.EMFILE, errno.EACCES) if fault == 'upload_err' else ()):
                srv.fault(**{fault: no})
                for k in range(3):
                    up(b'%s.%d.%d' % (fault.encode(), no, k))
                srv.fault(**{fault: 0})
                for t, d in names:
                    try:
                        got = open(srv.dir + '/upload/' + t.decode(), 'rb').read()
                    except OSError:
                        got = None
                    if got != d:
                        raise Violation('content', 'as the same content was uploaded again and could not be stored (%s of %s), the finished upload %r holds %s' %
                                        (errno.errorcode[no], 'writes' if fault == 'write_err' else 'opening', t, 'nothing' if got is None else '%d other bytes' % len(got)))
                ctx.case(('fault', n, fault, no))
                ctx.count('rechecked_after_faults', len(names))
        srv.check()
    for h in held:
        h.end('close')
    srv.check()
    # the folder goes away and comes back
    for k in range(5):
        shutil.rmtree(srv.dir + '/upload')
        again(1000 + k)
        t, d = saved[-1]
        if open(srv.dir + '/upload/' + t.decode(), 'rb').read() != d:
            raise Violation('content', 'an upload after the folder was removed is not stored')
    srv.stop()
