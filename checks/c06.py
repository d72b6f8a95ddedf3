"""C06: static GETs return the exact file bytes with the right content type."""
import os
from vlib import *
import gen

TYPES = {'html': b'text/html', 'js': b'text/html', 'png': b'image/png', 'jpg': b'image/jpeg', 'jpeg': b'image/jpeg', 'zip': b'application/zip', 'css': b'text/css',
         'svg': b'image/svg+xml', 'ico': b'image/vnd.microsoft.icon', 'txt': b'text/plain', 'csv': b'text/csv', 'yaml': b'text/yaml'}
OTHER = ['bin', 'pdf', 'htm', 'json', 'HTML', 'pngx', 'ht', 'gz', 'woff2', 'md', 'xml', 'x', 'cssx', 'svgz', 'jsx', 'jso', 'htmlx', 'xhtml', 'txt2', 'icon', 'icons', 'zipx', '7zip', 'csvs', 'tcsv', 'yamlx', 'yml',
         'jpgx', 'jpegs', 'jp', 'jpe', 'png8',
         'apng', 'scss', 'mjs', 'cs', 'c', 'tx', 'ic', 'js1', 'csshtml', 'html5', 'svg2', 'j', 'ya']
BLOCKS = [b * k for b in (1024, 4096, 8192, 16384, 65536) for k in (1, 2, 3, 17)]


def ctype(name):
    base = name.rsplit('/', 1)[-1]
    if '.' not in base:
        return b'text/html'
    return TYPES.get(base.rsplit('.', 1)[1], b'application/octet-stream')


def content(r, n):
    k = r.random()
    if k < 0.2:
        return (b'HTTP/1.1 200 OK\r\n\r\n' * (n // 10 + 1))[:n]
    if k < 0.4:
        return bytes(range(256)) * (n // 256) + bytes(range(n % 256))
    return gen.blob(r, n)


def tree(r, nfiles, bigs):
    t = {}
    dirs = ['', 'a/', 'a/b/', 'img/', 'v1.2/', 'deep/' * 6, gen.text(r, 200).decode() + '/', 'x.html/', 'd-_~()/']
    for i in range(nfiles):
        d = r.choice(dirs)
        stem = gen.text(r, r.choice((1, 3, 8, 20, 100))).decode() + str(i)
        k = r.random()
        if k < 0.7:
            ext = '.' + r.choice(list(TYPES))
        elif k < 0.85:
            ext = '.' + r.choice(OTHER)
        else:
            ext = ''
        if r.random() < 0.15 and ext:
            stem += '.' + r.choice(('min', 'tar', 'html', 'png', 'v2'))
        if (d + stem).lower().startswith('api'):
            stem = 'q' + stem
        t[d + stem + ext] = content(r, gen.size(r, 0, 40000))
    for e in list(TYPES) + OTHER:
        t['t.' + e] = content(r, r.randrange(0, 50))
    for n in r.sample(BLOCKS, 4) + [65536 + r.choice((1024, 4096, 8192))]:
        n += r.choice((-1, 0, 0, 1))
        t['blk%d.bin' % n] = r.randbytes(n)
    for n in ('INDEX.HTML', 'Index.html', 'index.htm', 'index.html.txt', 'xindex.html', 'FAVICON.ICO', 'favicon.icon', 'favicon.ic', 'a/favicon.ico', 'deep/index.html.css', 'a/b/index.htmlx'):
        t[n] = b'not the special ' + n.encode()
    for n in ('.hidden', '..a.txt', 'a..b.css', '...', '...x/y.txt', '..x/..y..', 'x../z.html', '.well-known/acme', 'a/....csv', 'c++.txt', 'a+b/c+d.css', 'a;b.txt', 'a;b/c;d', 'k=v.txt', 'a&b=c.png', 'a,b.csv', 'user@host.html',
              'wow!.txt', "it's.txt", 'st*r.js', 'a:b.txt', 'C:x', '$(x).txt', '`x`', '[x].css', '{id}', '{id}.txt', '~user/i.html', 'a|b', 'x^y', 'apix/y.txt'[3:], 'back\\slash.txt', '-rf', '%s%n.txt', '%', '<x>.html'):
        t[n] = b'the file named ' + n.encode() + b'\n' + gen.blob(r, 20)
    t['noext'] = b'plain'
    t['v1.2/noext'] = b'plain2'
    for n in bigs:
        t['big%d.zip' % n] = r.randbytes(n)
    return t


def run(ctx):
    ctx.rule = ('generated trees (file types, sizes from 0 to several MB, contents with every byte), every file requested with and without query string, from up to 16 '
                'clients at once, with files rewritten in between; missing paths, folders, configured index and icon; non-trivial: distinct (tree, path, mode)')
    r = ctx.rng
    mult = 1 if ctx.quick else 10

    def ask(srv, label, path, want, ct, q=b'', hdr=b'', ps=None):
        data = b'GET ' + path + q + b' HTTP/1.%d\r\nHost: x\r\n' % (len(path) % 5 != 1) + hdr + b'\r\n'
        res = srv.request(data, parts=ps)
        try:
            st, hs, body = parse_response(res.data)
        except BadResponse as e:
            srv.check()
            raise Violation('malformed', '%r gives %r: %s' % (short(data), short(res.data), e), request=data.hex())
        if want is None:
            if st != 404:
                raise Violation('status', '%r names nothing and there is no index, but the status is %d' % (short(data), st), request=data.hex())
        else:
            if st != 200:
                raise Violation('status', '%r gives status %d' % (short(data), st), request=data.hex())
            if body != want:
                i = next((i for i in range(min(len(body), len(want))) if body[i] != want[i]), min(len(body), len(want)))
                raise Violation('bytes', '%r returns %d bytes of %d, differing at %d: %r instead of %r' %
                                (short(data), len(body), len(want), i, body[i:i + 40], want[i:i + 40]), request=data.hex())
            if hget(hs, b'Content-Type') != ct:
                raise Violation('type', '%r has the type %r instead of %r' % (short(data), hget(hs, b'Content-Type'), ct), request=data.hex())
            ctx.count('bytes_compared', len(body))
        ctx.case((label, path, q[:4], srv.tls), {'path': short(path, 100), 'bytes': len(want or b''), 'type': (ct or b'').decode()})

    def site(label, tls, index, favicon, bigs, nfiles=60):
        t = tree(r, nfiles, bigs)
        ix = index.lstrip('/')
        have_index = r.random() < 0.85 or label == 0
        if have_index:
            t[ix] = b'<html>the index ' + gen.text(r, r.randrange(0, 5000))
        else:
            t.pop(ix, None)
        fav = favicon.lstrip('/')
        if r.random() < 0.8:
            t[fav] = content(r, 300)
        if ix != 'index.html' and r.random() < 0.7:
            t['index.html'] = b'not the configured index'
        if fav != 'favicon.ico' and r.random() < 0.7:
            t['favicon.ico'] = b'not the configured icon'
        t['a/index.html'] = b'folder a'
        t['v1.2/index.html'] = b'folder v'
        t = {k: v for k, v in t.items() if k == k}
        srv = Server(ctx, www=t, tls=tls, index=index, favicon=favicon, cov=True)
        # links to what is also in the folder
        links = {'link.css': content(r, gen.size(r, 0, 9000)), 'lnk/index.html': b'folder a'}
        open(srv.www + '/zz-target.bin', 'wb').write(links['link.css'])
        os.symlink('zz-target.bin', srv.www + '/link.css')
        os.symlink('a', srv.www + '/lnk')
        t.update(links)
        idx = t.get(ix)
        fallback = (idx, ctype(ix)) if idx is not None else (None, None)

        def expect(path):
            if path in ('', 'index.html'):
                return fallback
            if path == 'favicon.ico':
                return (t[fav], ctype(fav)) if fav in t else fallback
            if path.endswith('/'):
                path += 'index.html'
            if path in t:
                return t[path], ctype(path)
            return fallback

        def q():
            k = r.random()
            if k < 0.5:
                return b''
            return r.choice((b'?', b'?x=1', b'?v=1.css', b'?/../a', b'?a/', b'?' + gen.text(r, 300, gen.URLC)))
        for rnd in range(3 if ctx.quick else 8):
            paths = list(t) + ['', 'index.html', 'favicon.ico', 'a/', 'v1.2/', 'a', 'img', 'img/', 'none', 'none/', 'a/none.png', 'a/none/', 'noext.', 't.', 'T.HTML', 'big',
                               gen.text(r, 250).decode(), gen.text(r, 260).decode(), gen.text(r, 900).decode(), 'a/b', '//', 'a//', 'a///', 'v1.2//', '/t.txt', 'a//b//', 'deep//', '/a/', 'a//index.html', './t.txt', 'a/./index.html', 't.txt/']
            r.shuffle(paths)
            jobs = []
            for p in paths:
                if p == './t.txt':
                    w, c = expect('t.txt')
                elif p in ('a//index.html', 'a/./index.html'):
                    w, c = t['a/index.html'], ctype('a/index.html')
                elif p == '//' or p == '':
                    w, c = expect(p) if p == '' else (t['index.html'], ctype('index.html')) if 'index.html' in t else fallback
                elif '//' in p or p[:1] == '/':
                    w, c = expect(re.sub('//+', '/', p).lstrip('/'))
                else:
                    w, c = expect(p)
                h = b'X-Session: s1\r\n' if r.random() < 0.2 else b''
                if r.random() < 0.4:
                    h += gen.lines(gen.common(r))
                jobs.append((label * 10 + rnd, b'/' + p.encode(), w, c, q() if len(p) < 600 else b'', h))
            parallel(lambda j: ask(srv, *j), jobs, 1 if rnd == 0 else 16)
            for p in r.sample(sorted(t), 6):
                m = r.choice((b'POST', b'PUT', b'DELETE', b'POST', b'HEAD', b'OPTIONS', b'PATCH', b'GETX'))
                data = m + b' /' + p.encode() + b' HTTP/1.1\r\nContent-Length: 0\r\n\r\n'
                st, hs, body = parse_response(srv.request(data).data)
                if st != 400:
                    raise Violation('method', '%r gives status %d instead of 400' % (short(data), st))
                ctx.case((label, m, p))
                ctx.count('other_methods')
            # rewrite and remove some
            for p in r.sample(sorted(t), 15):
                if p == ix or p.endswith('index.html') or p in links:
                    continue
                full = os.path.join(srv.www, p)
                if r.random() < 0.25:
                    os.unlink(full)
                    del t[p]
                else:
                    t[p] = content(r, gen.size(r, 0, 9000))
                    open(full, 'wb').write(t[p])
            if idx is not None:
                t[ix] = b'<html>index %d' % rnd
                open(os.path.join(srv.www, ix), 'wb').write(t[ix])
                fallback = (t[ix], ctype(ix))
                idx = t[ix]
        srv.stop()
    M = 1 << 20
    site(0, False, '/index.html', '/favicon.ico', [65535, 65536, 65537, 5 * M + 13], 120)
    site(1, True, '/home.html', '/img/icon.png', [16383, 16384, 16385, 32768, 3 * M + 1], 20)
    for i in range(4 * mult):
        site(2 + i, r.random() < 0.2, r.choice(('/index.html', '/home.html', '/a/start.html', '/t.txt', '/main.css', 'rel.html', '/' + 'i' * 200 + '.html')),
             r.choice(('/favicon.ico', '/icon.ico', '/img/fav.svg', 'f.png')), [r.choice((65536, M, 2 * M + 7))], 40)
    # clients that send more than the server reads, and take their time
    for tls in (False, True):
        t = {'big.bin': content(r, 6 * M + 5), 'index.html': b'I'}
        srv = Server(ctx, www=t, tls=tls)
        for i, extra in enumerate((b'Content-Length: 5\r\n\r\nhello', b'\r\nGET / HTTP/1.1\r\n\r\n', b'Content-Length: 9000\r\n\r\n' + b'z' * 9000, b'Content-Length: 40000\r\n\r\n' + b'z' * 40000, b'\r\n\r\n')):
            s = connect(srv.port, tls=tls)
            s.sendall(b'GET /big.bin HTTP/1.1\r\n' + extra)
            time.sleep(0.05)
            res = read_all(s, Result())
            s.close()
            st, hs, body = parse_response(res.data)
            if st != 200 or body != t['big.bin']:
                raise Violation('cut', 'a GET with %d bytes after its headers gets %d of %d bytes of the file' % (len(extra), len(body), len(t['big.bin'])))
            ctx.case(('unread', tls, i), {'unread bytes': len(extra), 'file': len(t['big.bin'])})
        srv.stop()
    # files beyond what an int can count, mostly holes
    G = 1 << 30
    for size in ([2 * G + 4097] if ctx.quick else [2 * G - 1, 2 * G, 2 * G + 4097, 4 * G - 1, 4 * G + 11]):
        srv = Server(ctx, www={'index.html': b'I'}, flavour='plain')
        marks = {0: b'START', G - 3: b'middle', size - 5: b'THEND', 65534: b'block'}
        with open(srv.www + '/huge.bin', 'wb') as f:
            f.truncate(size)
            for at, m in marks.items():
                f.seek(at)
                f.write(m)
        s = connect(srv.port)
        s.settimeout(60)
        s.sendall(b'GET /huge.bin HTTP/1.1\r\n\r\n')
        head = b''
        while b'\r\n\r\n' not in head:
            d = s.recv(1 << 20)
            if not d:
                break
            head += d
        head, _, first = head.partition(b'\r\n\r\n')
        pos, ok = 0, head.startswith(b'HTTP/1.1 200 ')
        buf = bytearray(1 << 20)
        view = memoryview(buf)
        zero = bytes(1 << 20)
        buf[:len(first)] = first
        n = len(first) or s.recv_into(buf)
        while n and ok:
            want = zero[:n]
            for at, m in marks.items():
                if at < pos + n and at + len(m) > pos:
                    w = bytearray(want)
                    for i, c in enumerate(m):
                        if pos <= at + i < pos + n:
                            w[at + i - pos] = c
                    want = bytes(w)
            if view[:n] != want:
                raise Violation('bytes', 'a file of %d bytes comes back with wrong bytes at %d' % (size, pos))
            pos += n
            n = s.recv_into(buf)
        s.close()
        if pos != size:
            raise Violation('huge', 'of a file of %d bytes, %d are sent (%r)' % (size, pos, short(head)))
        ctx.case(('huge', size), {'file of': size})
        ctx.count('bytes_compared', pos)
        srv.stop()
