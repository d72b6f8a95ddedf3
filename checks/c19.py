"""C19: configuration parsing is safe and selective on any file."""
from unit import *
import gen, hostile
from confmodel import *


def afile(r):
    """A file, and whether its meaning is defined for every line."""
    pool = [key(r) for _ in range(r.choice((1, 3, 6, 12)))]
    pool += [k + r.choice((b'x', b'.', b'')) for k in pool[:2]] + [k[:-1] for k in pool[:2] if len(k) > 1] + [k.swapcase() for k in pool[:1]]
    out = []
    exact = True
    for _ in range(r.choice((0, 1, 2, 5, 20, 100))):
        j = r.random()
        k = r.choice(pool)
        if j < 0.55:
            b1, b2, b3, b4 = [r.choice((b'', b'', b'', b' ', b'\t', b'  ')) for _ in range(4)]
            room = 505 - len(k) - 9
            v = value(r, max(0, min(room, r.choice((0, 1, 5, 20, 100, 255, 490, room)))))
            l = b1 + k + b2 + b'=' + b3 + v + b4
        elif j < 0.8:
            n = r.choice((0, 1, 2, 5, 19, 20, 21, 22, 30, 100, 240))
            l = k + b'=' + r.choice((b',', b', ', b',,')).join(r.choice((b'a', b'bc', b'd e', b'f' * r.randrange(1, 12))) for _ in range(n))
            if r.random() < 0.2:
                l += r.choice((b',', b',,,'))
        elif j < 0.86:
            l = r.choice((b'=', b'==', b'=x', b' = ', k + b'=', k + b'==', k + b' = =', b'=' + k, b',=,', k + b'=,', k + b'=,,,,', b'=' * 100))
        elif j < 0.88:
            l = r.choice((b'', b' ', k, b'# comment', b'[section]', b'\r', b'\t\t'))
        elif j < 0.95:
            l = k + b'=' + gen.text(r, r.choice((480, 500, 505, 506, 507, 508, 509, 510, 511)) - len(k) - 1 if len(k) < 200 else 5)
        else:
            n = r.choice((511, 512, 513, 514, 600, 1021, 1022, 1023, 1024, 1025, 1200, 5000))
            l = r.choice((k + b'=' + gen.text(r, n), gen.text(r, n, b'=,'), gen.text(r, n), b' ' * n, k + b'=' + b',' * n, k + b'=' + b'a,' * n))
            exact = False
        out.append(l)
    d = r.choice((b'\n', b'\n', b'\n', b'\r\n')).join(out)
    if out and r.random() < 0.8:
        d += b'\n'
    if r.random() < 0.15:
        for _ in range(r.choice((1, 3, 10))):
            d = hostile.mutate(r, d)
    if r.random() < 0.04:
        d = gen.blob(r, gen.size(r, 0, 3000))
    if b'\0' in d or any(len(l) > 510 for l in d.split(b'\n')):
        exact = False
    # parts that consist of blanks only are a matter of taste
    if any(x and not x.strip(BL) for l in d.split(b'\n') if b'=' in l for x in l.split(b'=', 1)[1].strip(BL).split(b',')):
        exact = False
    return d, pool, exact


def run(ctx):
    ctx.rule = ('random files: assignments with blanks, many values, missing keys, values or equals signs, long lines, line ends of both kinds, binary and mutated content; the calls of the '
                'handler compared with an independent reading, and every access and allocation checked; missing files and odd paths; non-trivial: distinct (file, requested keys)')
    r = ctx.rng
    u = Unit(ctx, again=[('pat', 170), ('fort', 85)])
    total = 5000 if ctx.quick else 100000
    while total > 0:
        n = min(500, total)
        total -= n
        ops, exp = [], []
        for i in range(n):
            d, pool, exact = afile(r)
            p = '%s/f%d' % (u.w, i)
            ops.append(('put', p, d))
            exp.append(None)
            keys = list(dict((k, r.random() < 0.4) for k in r.sample(pool, min(len(pool), r.choice((0, 1, 2, 5, 10))))).items())
            f = ['conf_parse', p, len(keys)]
            for k, m in keys:
                f += [k, int(m)]
            ops.append(tuple(f))
            exp.append((d, keys, exact))
            for l in d.split(b'\n')[:4]:
                if b'\0' in l:
                    continue
                m = r.random() < 0.5
                ops.append(('conf_line', l, int(m)))
                exp.append((l, m))
        for o, e, got in zip(ops, exp, u.run(ops)):
            if e is None:
                continue
            if o[0] == 'conf_line':
                l, m = e
                it = parse_line(l, m)
                if m and it and any(x and not x.strip(BL) for x in it[1].split(b',')):
                    continue
                want = [None, l] if it is None else [it[0], it[1], len(it[2])] + it[2] + [l]
                if got != want:
                    raise Violation('line', 'the line %r is read as %r instead of %r' % (l, got[:6], want[:6]))
                ctx.case((l, m))
                continue
            d, keys, exact = e
            ctx.count('handler_calls', got.count('|'))
            if not exact:
                ctx.count('safety_only_files')
                ctx.case((d, tuple(keys)))
                continue
            want = []
            its, ok = parse(d, keys)
            for k, v, mv in its:
                want += ['|', k, v, len(mv)] + mv
            tail = got.index('=')
            if got[:tail] != want:
                i = next((i for i, (a, b) in enumerate(zip(got, want)) if a != b), min(tail, len(want)))
                raise Violation('delivered', 'wrong deliveries for the keys %r: %r instead of %r, in the file %r' % (keys[:4], got[max(0, i - 3):i + 3], want[max(0, i - 3):i + 3], short(d)), file=d[:5000].hex(), keys=repr(keys))
            if (got[tail + 1] == 0) != ok:
                raise Violation('status', 'status %r for a file that is %svalid: %r' % (got[tail + 1], '' if ok else 'in', short(d)), file=d[:5000].hex())
            ctx.case((d, tuple(keys)) if d else None, {'file': short(d, 100), 'keys': [short(k, 20) for k, m in keys][:4], 'delivered': len(its), 'valid': ok})
            ctx.count('valid_files' if ok else 'invalid_files')
    # paths that cannot be read
    ops = [('conf_parse', p, 1, b'k', 0) for p in [u.w + '/none', '', u.w + '/' + 'x' * 200, u.w + '/' + 'y' * 300, '/' + 'z/' * 400, u.w + '/none%s%n%d', u.w + '/' + 'p' * 90, u.w + '/' + 'q' * 100,
                                                   'a' * 93, 'a' * 94, 'a' * 98, 'a' * 99, 'a' * 100, 'a' * 101, 'a' * 119, 'a' * 120, 'a' * 121, 'a' * 4000]]
    for o, got in zip(ops, u.run(ops)):
        if got[-1] == 0 or '|' in got:
            raise Violation('missing', 'a missing file gives %r' % got)
        ctx.case(o)
    # an invalid file under a long name
    ops = []
    for n in (10, 60, 80, 90, 100, 120, 200, 250):
        p = u.w + '/' + 'v' * n
        ops += [('put', p, b'a=1\nbroken\na=2\n'), ('conf_parse', p, 1, b'a', 0)]
    for o, got in zip(ops, u.run(ops)):
        if o[0] == 'conf_parse' and (got[:-1] != ['|', b'a', b'1', 0, '='] or got[-1] == 0):
            raise Violation('invalid', 'an invalid file gives %r' % got)
        ctx.case(o)
