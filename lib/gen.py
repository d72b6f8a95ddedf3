"""Generators: request pieces biased to the sizes at which fixed buffers end."""
import glob, os, re
import build as B

EDGE = [0, 1, 2, 15, 16, 17, 19, 20, 21, 22, 23, 24, 25, 26, 31, 32, 33, 49, 50, 51, 62, 63, 64, 65, 99, 100, 101, 126, 127, 128, 129,
        253, 254, 255, 256, 257, 263, 264, 265, 510, 511, 512, 513, 767, 1000, 1020, 1021, 1022, 1023, 1024, 1025, 1026, 2046, 2047, 2048, 2049,
        4094, 4095, 4096, 4097]
TOKEN = b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_"
URLC = b"abcdefghijklmnopqrstuvwxyz0123456789-._~%!$'()*+,;:@ABCDEFXYZ"


_dict = None


def dictionary():
    """String and number constants of the code under test, as they are now."""
    global _dict
    if _dict is None:
        strs, nums = set(), set()
        for f in sorted(glob.glob(B.REPO + '/*.[ch]')):
            t = re.sub(r'/\*.*?\*/|//[^\n]*', '', open(f, errors='replace').read(), flags=re.S)
            for s in re.findall(r'"((?:[^"\\\n]|\\.)*)"', t):
                try:
                    b = s.encode('latin-1', 'replace').decode('unicode_escape').encode('latin-1', 'replace')
                except Exception:
                    continue
                if 0 < len(b) <= 40 and b'\0' not in b and not b.startswith(b'%') and b.count(b'%') == 0:
                    strs.add(b)
            for n in re.findall(r'(?<![\w.])(\d{1,6})(?![\w.])', t):
                nums.add(int(n))
        _dict = sorted(strs), sorted(n for n in nums if n <= 100000)
    return _dict


def size(r, lo=0, hi=1100):
    """A length, often next to a constant of the code or a power of two."""
    k = r.random()
    if k < 0.45:
        n = r.choice(EDGE)
    elif k < 0.6:
        n = r.choice(dictionary()[1]) + r.choice((-1, 0, 1))
    elif k < 0.85:
        n = r.randrange(lo, min(hi, lo + 40) + 1)
    else:
        n = r.randrange(lo, hi + 1)
    return n if lo <= n <= hi else r.randrange(lo, min(hi, lo + 60) + 1)


def text(r, n, alpha=TOKEN):
    return bytes(r.choice(alpha) for _ in range(n)) if n < 5000 else (bytes(r.choice(alpha) for _ in range(997)) * (n // 997 + 1))[:n]


def blob(r, n):
    k = r.random()
    if k < 0.5:
        return r.randbytes(n)
    if k < 0.58:
        return bytes(n)
    if k < 0.64:
        return b'\xff' * n
    if k < 0.84 and n:
        # one odd byte among others that are alike
        i = r.choice((n - 1, n // 2, r.randrange(n), r.randrange(n)))
        return r.choice((b'x', b'z', b' ', b'\n')) * i + r.choice((b'\0', b'\0', b'\n', b'\r', b'\xff', b'\x1a', b'%', b'-')) + b'y' * (n - 1 - i)
    return text(r, n, b'ab\r\n-=&: "\0')


def header_value(r, n):
    """A value without line ends, not starting or ending in a blank."""
    if n == 0:
        return b''
    alpha = bytes(c for c in range(33, 256) if c != 127)
    mid = alpha + b'    \t:;=,'
    v = bytearray(r.choice(mid) for _ in range(n))
    v[0], v[-1] = r.choice(alpha), r.choice(alpha)
    return bytes(v)


# headers as clients send them, that change nothing about how a request is served here
COMMON = [(b'Host', (b'example.com', b'127.0.0.1:8080', b'[::1]:80')), (b'User-Agent', (b'curl/8.5.0', b'Mozilla/5.0 (X11; Linux x86_64) AppleWebKit/537.36 (KHTML, like Gecko)')),
          (b'Accept', (b'*/*', b'text/html,application/xhtml+xml;q=0.9,*/*;q=0.8', b'application/json', b'image/png')), (b'Accept-Encoding', (b'gzip, deflate, br', b'identity;q=0', b'gzip')),
          (b'Accept-Language', (b'de-DE,de;q=0.8',)), (b'Accept-Charset', (b'utf-8',)), (b'Connection', (b'keep-alive', b'close', b'Upgrade, HTTP2-Settings', b'Keep-Alive, TE')), (b'Keep-Alive', (b'timeout=5, max=1000',)),
          (b'Expect', (b'100-continue', b'100-Continue')), (b'Range', (b'bytes=0-0', b'bytes=2-', b'bytes=-3', b'bytes=0-1,3-4', b'bytes=999999999-')), (b'If-Range', (b'"x"',)),
          (b'If-Modified-Since', (b'Thu, 01 Jan 2099 00:00:00 GMT', b'Sat, 29 Oct 1994 19:43:31 GMT')), (b'If-Unmodified-Since', (b'Thu, 01 Jan 1970 00:00:00 GMT',)),
          (b'If-None-Match', (b'*', b'"0"', b'W/"1-2"')), (b'If-Match', (b'"none"', b'*')), (b'Cache-Control', (b'no-cache', b'only-if-cached', b'max-age=0')), (b'Pragma', (b'no-cache',)),
          (b'X-HTTP-Method-Override', (b'DELETE', b'POST', b'HEAD')), (b'X-Method-Override', (b'GET',)), (b'X-Forwarded-For', (b'10.9.8.7', b'1.2.3.4, 5.6.7.8')), (b'X-Forwarded-Proto', (b'https',)),
          (b'X-Forwarded-Host', (b'other.example',)), (b'Forwarded', (b'for=10.9.8.7;proto=https',)), (b'X-Forwarded-Prefix', (b'/api',)), (b'X-Original-URL', (b'/api/other', b'/index.html')), (b'X-Rewrite-URL', (b'/none',)),
          (b'Upgrade', (b'websocket', b'h2c', b'TLS/1.0')), (b'Upgrade-Insecure-Requests', (b'1',)), (b'Origin', (b'null', b'http://evil.example')), (b'Referer', (b'http://example.com/?a=b',)),
          (b'TE', (b'trailers', b'chunked')), (b'Trailer', (b'X-T',)), (b'Content-Encoding', (b'gzip', b'identity', b'deflate')), (b'Content-Language', (b'en',)), (b'Content-MD5', (b'Q2hlY2sgSW50ZWdyaXR5IQ==',)),
          (b'Max-Forwards', (b'0', b'10')), (b'Via', (b'1.0 fred, 1.1 p.example.net',)), (b'Date', (b'Tue, 15 Nov 1994 08:12:31 GMT',)), (b'DNT', (b'1',)), (b'Sec-Fetch-Mode', (b'navigate',)),
          (b'Content-Disposition', (b'form-data; name="x"; filename="y"',)), (b'Proxy-Authorization', (b'Basic QWxhZGRpbjpvcGVu',)), (b'X-Requested-With', (b'XMLHttpRequest',)),
          (b'Access-Control-Request-Method', (b'DELETE',)), (b'Access-Control-Request-Headers', (b'X-A, X-B',)), (b'Content-Location', (b'/other',)), (b'Content-Range', (b'bytes 0-4/10',)),
          (b'Transfer-Encoding', (b'identity',)), (b'MIME-Version', (b'1.0',)), (b'From', (b'a@b.example',)), (b'Warning', (b'199 x "y"',)), (b'X-Request-Id', (b'0f3a',)), (b'Timeout', (b'1',)), (b'Prefer', (b'respond-async, wait=1',))]


def common(r, k=None):
    """Some of them: (name, value), names in any case."""
    out = []
    for n, vs in r.sample(COMMON, k if k is not None else r.choice((0, 1, 2, 4, 8))):
        out.append((r.choice((n, n, n.lower(), n.upper())), r.choice(vs)))
    return out


def lines(hs):
    return b''.join(n + b': ' + v + b'\r\n' for n, v in hs)


def parts(r, n, k=None):
    k = k if k is not None else r.choice((0, 0, 1, 2, 5))
    return sorted(r.randrange(0, n + 1) for _ in range(k)) if n else []
