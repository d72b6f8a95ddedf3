"""Builds the code under test from /repo's working tree with the harnesses, in one flavour per sanitizer."""
import glob, hashlib, os, subprocess, sys, fcntl, shutil
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
OUT = os.path.join(HERE, 'build')
WRAPS = ('malloc calloc realloc fopen fopen64 freopen open open64 openat creat stat stat64 lstat access mkdir remove unlink rename rmdir '
         'truncate chmod link symlink mkstemp mkostemp mkdtemp system popen fwrite fclose fflush listen inet_ntoa getpeername accept accept4 recv recvfrom read send sendto write '
         'time gettimeofday clock_gettime nanosleep clock_nanosleep usleep sleep alarm setitimer timer_settime timerfd_settime poll ppoll select pselect epoll_wait '
         'setsockopt pthread_cond_timedwait '
         'close flockfile funlockfile strtok gmtime localtime asctime ctime MD5 MD5_Final EVP_MD_CTX_new EVP_MD_CTX_free EVP_DigestInit '
         'EVP_DigestInit_ex EVP_DigestUpdate EVP_DigestFinal EVP_DigestFinal_ex EVP_Digest EVP_Q_digest SSL_CTX_new SSL_CTX_use_certificate_file '
         'SSL_CTX_use_certificate_chain_file SSL_CTX_use_PrivateKey_file SSL_new SSL_set_fd SSL_accept SSL_read SSL_read_ex SSL_write SSL_shutdown SSL_free').split()
BASE = ['-g', '-fPIC', '-std=gnu99', '-DWAYUU_DIST', '-fno-omit-frame-pointer', '-w']
COV = ['-fsanitize-coverage=trace-pc-guard']
UB = ['-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-fno-sanitize=function,nonnull-attribute,alignment']
FLAVOURS = {
    # name: (compiler, flags for all, extra flags for the code under test)
    'asan': ('clang', ['-O1'] + UB + ['-DHAS_ASAN=1'], COV),
    'tsan': ('clang', ['-O1', '-fsanitize=thread'], COV),
    'msan': ('clang', ['-O1', '-fsanitize=memory', '-fsanitize-recover=memory', '-fsanitize-memory-track-origins=1'], []),
    'plain': ('gcc', ['-O1'], []),
    # what the C library itself detects in a hardened build
    'fort': ('gcc', ['-O2', '-U_FORTIFY_SOURCE', '-D_FORTIFY_SOURCE=3', '-fstack-protector-strong'], []),
    'pat': ('clang', ['-O1', '-ftrivial-auto-var-init=pattern'], []),
    'zero': ('clang', ['-O1', '-ftrivial-auto-var-init=zero'], []),
    'chaos': ('clang', ['-O1'], COV),
}
HOSTS = {
    'apphost': (['apphost.c', 'shim.c', 'cov.c'], False),
    'unithost': (['unithost.c', 'shim.c', 'cov.c'], False),
    'standalone': (['shim.c', 'cov.c'], True),
}


class BuildError(Exception):
    pass


def _run(cmd):
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        raise BuildError(' '.join(cmd) + '\n' + r.stdout + r.stderr)


def _key(cc):
    h = hashlib.sha256()
    for f in sorted(glob.glob(REPO + '/*.[ch]') + glob.glob(HERE + '/harness/*.[ch]')) + [os.path.abspath(__file__)]:
        h.update(os.path.basename(f).encode() + b'\0')
        h.update(open(f, 'rb').read())
    return h.hexdigest()[:16]


def build(host, flavour):
    """Returns the path of the binary, building it if the sources changed."""
    os.makedirs(OUT, exist_ok=True)
    key = _key(flavour)
    d = os.path.join(OUT, key)
    exe = os.path.join(d, '%s-%s' % (host, flavour))
    with open(os.path.join(OUT, 'lock.%s' % flavour), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(exe):
            return exe
        os.makedirs(d, exist_ok=True)
        cc, flags, extra = FLAVOURS[flavour]
        srcs, with_main = HOSTS[host]
        od = os.path.join(d, 'o-' + flavour)
        os.makedirs(od, exist_ok=True)
        jobs, objs = [], []
        repo_srcs = sorted(glob.glob(REPO + '/*.c'))
        for s in repo_srcs:
            if os.path.basename(s) == 'main.c' and not with_main:
                continue
            o = os.path.join(od, 'r_' + os.path.basename(s)[:-2] + '.o')
            objs.append(o)
            if not os.path.exists(o):
                jobs.append([cc] + BASE + flags + extra + ['-I' + REPO, '-c', s, '-o', o])
        for s in srcs:
            o = os.path.join(od, 'h_' + s[:-2] + '.o')
            objs.append(o)
            if not os.path.exists(o):
                jobs.append([cc] + BASE + flags + ['-std=gnu11', '-I' + REPO, '-I' + HERE + '/harness', '-c',
                                                   HERE + '/harness/' + s, '-o', o])
        with ThreadPoolExecutor(8) as ex:
            list(ex.map(_run, jobs))
        tmp = exe + '.tmp%d' % os.getpid()
        _run([cc] + flags + objs + ['-Wl,--wrap=' + w for w in WRAPS] +
             ['-o', tmp, '-lpthread', '-lssl', '-lcrypto', '-lm'])
        os.rename(tmp, exe)
        return exe


def clean_old():
    """Forgets binaries of other source states."""
    key = _key('')
    for d in glob.glob(OUT + '/????????????????'):
        if os.path.basename(d) != key:
            shutil.rmtree(d, ignore_errors=True)


if __name__ == '__main__':
    clean_old()
    todo = [(h, f) for h, f in (('apphost', 'asan'), ('apphost', 'tsan'), ('unithost', 'asan'), ('standalone', 'asan'),
                                ('apphost', 'msan'), ('apphost', 'pat'), ('apphost', 'zero'), ('unithost', 'tsan'))]
    if len(sys.argv) > 2:
        todo = [(sys.argv[1], sys.argv[2])]
    for h, f in todo:
        print(build(h, f))
