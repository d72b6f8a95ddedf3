"""C30: limit rules are loaded exactly as the limits file states them."""
from unit import *
import gen

PATHC = b"abcdefghijklmnopqrstuvwxyz0123456789-._~%!$'()*+;:@/?=&"


def number(r):
    return r.choice((0, 1, 2, 3, 10, 20, 100, 1023, 1024, 1025, 65535, 99999, 2147483647, r.randrange(1000), r.randrange(1 << 31), -1, -r.randrange(1, 1 << 31)))


def num_text(r, n):
    t = b'%d' % n
    k = r.random()
    if k < 0.1 and n >= 0:
        t = b'0' * r.randrange(1, 8) + t
    elif k < 0.15 and n >= 0:
        t = b'+' + t
    return r.choice((b'', b' ', b' ', b'  ', b'\t')) + t + r.choice((b'', b'', b'', b' ', b'\t', b'   '))


def path(r, used):
    while True:
        n = r.choice((1, 2, 4, 15, 16, 100, 127, 128, 255, 256, 500, 509, 510, 511)) if r.random() < 0.6 else r.randrange(1, 60)
        p = b'/' + gen.text(r, n - 1, PATHC)
        if r.random() < 0.3:
            p = (b'/api/' + p[1:])[:511]
        if n > 8 and r.random() < 0.1:
            # blanks within
            i = r.randrange(3, n - 3)
            p = p[:i] + r.choice((b' ', b'  ', b'\t', b'#', b'"', b' #'))[:n - 3 - i] + p[i:]
            p = p[:n - 1] + b'x'
        if p not in used or n == 1:
            used.add(p)
            return p


def make(r):
    """The text of a limits file, and its rules."""
    out, rules = [], []
    used = set()
    total = r.choice((0, 1, 2, 3, 5, 10, 30, 62, 63, 64, 65, 66, 80, 150))
    n = 0
    while n < total or r.random() < 0.5:
        k = r.random()
        if k < 0.6 and n < total:
            p = path(r, used)
            v = [number(r) for _ in range(r.choice((2, 2, 3, 3, 3, 4, 6)))]
            l = b','.join([p] + [num_text(r, x) for x in v])
            rules.append([p, v[0], v[1], v[2] if len(v) > 2 else 0])
            n += 1
        elif k < 0.68:
            l = path(r, set()) + (b',' + num_text(r, number(r)) if r.random() < 0.6 else b'')    # too few numbers
        elif k < 0.73:
            l = b'/' + gen.text(r, r.choice((511, 512, 513, 600, 1023, 1024, 5000)), PATHC) + b', %d, %d, 9' % (number(r), number(r))  # path too long
            l = l if len(l.split(b',')[0]) > 511 else b'#'
        elif k < 0.8:
            l = b''
        elif k < 0.9:
            l = r.choice((b'#', b' ', b'\t', b'api', b'# /api', b';', b',', b',,', b'\\', b'*')) + path(r, set()) + b', %d, %d, %d' % (number(r), number(r), number(r))
        else:
            l = r.choice((b'#', b' ', b'a', b'\x01', b'\xff')) + gen.text(r, gen.size(r, 0, 9000), bytes(c for c in range(1, 256) if c not in b'\n'))
        out.append(l)
    eol = b'\r\n' if r.random() < 0.15 else b'\n'
    if eol == b'\r\n':
        # a line without numbers would have the \r in its path, which is not a rule anyway
        pass
    t = eol.join(out)
    if r.random() < 0.7:
        t += eol
    return t, rules[:64]


def run(ctx):
    ctx.rule = ('generated limits files (0 to 150 rules among comments, blank, short, overlong and partial lines) loaded by the real parser and compared with the rules they were generated from, '
                'repeated with other contents of fresh memory; and decisions of a server under such a file; non-trivial: distinct files with a rule, distinct (file, request)')
    r = ctx.rng
    mult = 1 if ctx.quick else 25
    u = Unit(ctx, again=[('pat', 170), ('fort', 85)])
    for rnd in range(4 * mult):
        ops, exps, texts = [], [], []
        for i in range(40):
            root = os.path.join(u.w, 'r%d_%d' % (rnd, i))
            os.makedirs(root + '/etc')
            k = r.random()
            if k < 0.04:
                t, rules = None, []
            else:
                t, rules = make(r) if k > 0.08 else (b'', [])
                open(root + '/etc/limits', 'wb').write(t)
            ops.append(('root', root))
            ops.append(('limits',))
            exps.append(rules)
            texts.append(t)
        res = u.run(ops)
        for t, want, got in zip(texts, exps, res[1::2]):
            g = [got[1 + 4 * i:5 + 4 * i] for i in range(got[0])]
            if g != want:
                i = next((i for i in range(min(len(g), len(want))) if g[i] != want[i]), min(len(g), len(want)))
                raise Violation('rules', 'rule %d of %d is %s, the file says %s (of %d)' % (i, len(g), short(repr(g[i]), 300) if i < len(g) else 'missing',
                                short(repr(want[i]), 300) if i < len(want) else 'nothing', len(want)), file=(t or b'').hex()[:20000])
            ctx.case(t if want else None, {'rules': len(want), 'bytes': len(t or b''), 'first': short(repr(want[:1]), 120)})
            ctx.count('rules_compared', len(want))
        for i in range(40):
            shutil.rmtree(os.path.join(u.w, 'r%d_%d' % (rnd, i)))
    # what a server does under such a file: paths are either closed (a limit of 0) or open
    for rnd in range(3 * mult):
        t, rules = make(r)
        t = b'/first,0,5\n/second, 5, 0, 7\n/api/third,9,9\n' + t
        rules = ([[b'/first', 0, 5, 0], [b'/second', 5, 0, 7], [b'/api/third', 9, 9, 0]] + rules)[:64]
        # a rule for everything with a 0 would hide the others
        if any(len(p) < 3 and (a <= 0 or b <= 0) for p, a, b, c in rules):
            t = re.sub(rb'(?m)^/.?,.*\n', b'', t)
            rules = [x for x in ([[b'/first', 0, 5, 0], [b'/second', 5, 0, 7], [b'/api/third', 9, 9, 0]] + [y for y in rules[3:] if len(y[0]) >= 3])][:64]
            t = b''.join(b'%s,%d,%d,%d\n' % tuple(x) for x in rules)
        srv = Server(ctx, limits=t, www={'index.html': b'I'}, cov=True)
        urls = [b'/first', b'/second', b'/second/x', b'/api/third', b'/fir', b'/q', b'/']
        for p, a, b, c in rules:
            if len(p) < 480 and not set(p) & set(b'? \t'):
                urls += [p, p + b'x', p[:-1] or b'/']
        r.shuffle(urls)
        for url in urls[:60]:
            if r.random() < 0.1:
                url = url.replace(b'/', b'//', 1)
            closed = [x for x in rules if url.lower().startswith(x[0].lower()) and (x[1] <= 0 or x[2] <= 0)]
            st, hs, body = parse_response(srv.request(b'GET ' + url + b' HTTP/1.1\r\n\r\n').data)
            if (st == 429) != bool(closed):
                raise Violation('decision', 'status %d for %r, under the rules %s' % (st, short(url), short(repr(closed), 200)), file=t.hex()[:20000], url=url.hex())
            ctx.case((rnd, url))
            ctx.count('decisions_closed' if closed else 'decisions_open')
        srv.stop()
