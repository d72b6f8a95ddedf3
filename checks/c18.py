"""C18: configuration written out reads back unchanged."""
from unit import *
import gen
from confmodel import *


def items(r):
    pool = [(key(r), r.random() < 0.4) for _ in range(r.choice((1, 2, 5, 10)))]
    pool = list({k: m for k, m in pool}.items())
    out = []
    for _ in range(r.choice((0, 1, 1, 2, 3, 8, 19, 20))):
        k, m = r.choice(pool)
        if m:
            n = r.choice((1, 2, 3, 10, 19, 20))
            mv = [value(r, r.choice((1, 1, 2, 8, 20, 49, 50, 51)), True) for _ in range(n)]
            while len(k) + 1 + sum(len(x) + 1 for x in mv) > 510:
                mv = mv[:-1] if len(mv) > 1 and r.random() < 0.5 else [x[:max(1, len(x) // 2)].strip(BL) or b'x' for x in mv]
                if all(len(x) == 1 for x in mv) and len(k) + 2 * len(mv) > 508:
                    mv = mv[:-1]
            mv = [x.strip(BL) or b'x' for x in mv]
            out.append((k, b'', mv))
        else:
            room = 510 - len(k) - 1
            n = r.choice((0, 1, 2, 10, 50, 100, 119, 120, 121, 253, 254, 255, 256, room, room - 1, room - 2))
            out.append((k, value(r, max(0, min(n, room))), []))
    return pool, out


def run(ctx):
    ctx.rule = ('random lists of items (counts up to the documented ones, values of edge lengths with equals signs, blanks and all characters inside) written by one call and parsed by '
                'another; the delivered sequence is compared with the list; non-trivial: distinct non-empty lists')
    r = ctx.rng
    u = Unit(ctx, again=[('pat', 170), ('fort', 85)])
    total = 4000 if ctx.quick else 80000
    while total > 0:
        n = min(500, total)
        total -= n
        ops, exp = [], []
        for i in range(n):
            pool, its = items(r)
            p = '%s/c%d' % (u.w, i % 7)
            w = ['conf_write', p, len(its)]
            for k, v, mv in its:
                w += [k, v, len(mv)] + mv
            ops.append(tuple(w))
            exp.append(('w', its, pool))
            order = pool[:]
            r.shuffle(order)
            f = ['conf_parse', p, len(order)]
            for k, m in order:
                f += [k, int(m)]
            ops.append(tuple(f))
            exp.append(('p', its, pool))
            # the text of each item is its line, and that of the list names them all
            if i % 3 == 0:
                flat = [len(its)]
                for k, v, mv in its:
                    flat += [k, v, len(mv)] + mv
                ops += [tuple(['item_str'] + flat), tuple(['ser_str', p] + flat)]
                exp += [('i', its, p), ('s', its, p)]
            # and a second time, over what was there
        for o, (what, its, pool), got in zip(ops, exp, u.run(ops)):
            if what == 'w':
                if got != [0]:
                    raise Violation('write', 'writing %r reports %r' % (its[:3], got))
                continue
            if what in 'is':
                lines = [k + b'=' + (b','.join(mv) if mv else v) for k, v, mv in its]
                want = lines if what == 'i' else [b'[path=%s,n_items=%d' % (pool.encode(), len(its)) + b''.join(b',' + x for x in lines) + b']']
                if got != want:
                    raise Violation('text', '%s is described as %r instead of %r' % ('an item' if what == 'i' else 'a list of %d items' % len(its), short(repr(got), 600), short(repr(want), 600)))
                ctx.count('texts_compared', len(want))
                continue
            tail = got.index('=')
            t, flat = [], got[:tail]
            want = []
            for k, v, mv in its:
                want += ['|', k, b','.join(mv) if mv else v, len(mv)] + mv
            if got[tail + 1:] != [0] or flat != want:
                i = next((i for i, (a, b) in enumerate(zip(flat, want)) if a != b), min(len(flat), len(want)))
                raise Violation('round-trip', 'a list of %d items reads back differently: %r instead of %r (status %r)' %
                                (len(its), flat[i:i + 3], want[i:i + 3], got[tail + 1:]), items=repr(its)[:3000], pool=repr(pool)[:500])
            ctx.case(its or None, {'items': [(short(k, 20), short(v, 30), len(mv)) for k, v, mv in its][:4]})
            ctx.count('items_compared', len(its))
    # no room for the whole file: the caller is told
    for i in range(300 if ctx.quick else 4000):
        pool, its = items(r)
        text = b''.join(k + b'=' + (b','.join(mv) if mv else v) + b'\n' for k, v, mv in its)
        if not text:
            continue
        p = '%s/room%d' % (u.w, i)
        flat = []
        for k, v, mv in its:
            flat += [k, v, len(mv)] + mv
        room = r.choice((0, 1, max(0, len(text) - 4096), len(text) - 1, len(text) - 1, r.randrange(len(text)), len(text), len(text) + 1))
        got = u.run([('conf_write_room', room, p, len(its)) + tuple(flat)])[0]
        there = open(p, 'rb').read()
        if (got == [0]) != (room >= len(text)) or got == [0] and there != text:
            raise Violation('short-write', 'writing %d items of %d bytes in all with room for %d reports %r, and the file holds %d bytes' % (len(its), len(text), room, got, len(there)))
        os.unlink(p)
        ctx.case(('room', room, text), {'items': len(its), 'bytes': len(text), 'room': room, 'reported': got})
        ctx.count('writes_without_room' if room < len(text) else 'writes_with_just_the_room')
    for p in ('none/x', '.', 'x' * 300):
        got = u.run([('conf_write', '%s/%s' % (u.w, p), 1, b'k', b'v', 0)])[0]
        if got == [0]:
            raise Violation('open', 'writing %r reports success' % p)
