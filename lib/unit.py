"""Runs scripts of library calls in the unit host."""
import os, subprocess
from vlib import *


def enc(x):
    if x is None:
        return '!'
    if isinstance(x, bool):
        return str(int(x))
    if isinstance(x, int):
        return str(x)
    if isinstance(x, str):
        x = x.encode()
    return 'x' + x.hex()


def dec(t):
    if t == '!':
        return None
    if t[0] == 'x':
        return bytes.fromhex(t[1:])
    try:
        return int(t)
    except ValueError:
        return t


class Unit:
    def __init__(self, ctx, flavour='asan', leaks=True, again=()):
        self.again = again  # (flavour, value of fresh memory) of further runs, which have to give the same results
        self.ctx, self.flavour, self.leaks = ctx, flavour, leaks
        self.exe = B.build('unithost', flavour)
        self.dir = ctx.scratch('unit')
        for d in ('log', 'upload', 'san', 'w'):
            os.makedirs(self.dir + '/' + d)
        self.w = self.dir + '/w'

    def run(self, ops, env=None, timeout=300, expect_exit=False):
        res = self.run1(ops, env, timeout, expect_exit)
        for fl, fill in self.again:
            keep = self.exe
            self.exe = B.build('unithost', fl)
            try:
                other = self.run1(ops, dict(env or {}, MALLOC_PERTURB_=str(fill)), timeout, expect_exit)
            finally:
                self.exe = keep
            for o, a, b in zip(ops, res, other):
                if a != b:
                    raise Violation('unstable', 'call %s gives %s, and with other contents of unused memory %s' % (show(o), short(repr(a), 200), short(repr(b), 200)), op=show(o, 4000))
            self.ctx.count('calls_repeated_with_other_fillings', len(ops))
        return res

    def run1(self, ops, env=None, timeout=300, expect_exit=False):
        """ops: list of (name, args...). Returns the decoded results; a crash is a violation."""
        inp, outp = self.dir + '/in', self.dir + '/out'
        with open(inp, 'w') as f:
            for o in ops:
                f.write(' '.join([o[0]] + [enc(x) for x in o[1:]]) + '\n')
        for f in os.listdir(self.dir + '/san'):
            os.unlink(self.dir + '/san/' + f)
        san = self.dir + '/san/r'
        e = {'PATH': os.environ.get('PATH', ''), 'LC_ALL': 'C', 'TZ': 'XST-7:45', 'VSHIM_DIR': self.dir,
             'ASAN_OPTIONS': 'exitcode=99:detect_leaks=%d:log_path=%s:strict_string_checks=1:detect_stack_use_after_return=1:'
                             'allocator_may_return_null=1:max_allocation_size_mb=3000' % (self.leaks, san),
             'LSAN_OPTIONS': 'log_path=%s:exitcode=99:max_leaks=6' % san,
             'UBSAN_OPTIONS': 'print_stacktrace=1:log_path=%s' % san,
             'TSAN_OPTIONS': 'log_path=%s:exitcode=0:allocator_may_return_null=1:max_allocation_size_mb=1500:suppressions=%s/harness/tsan.supp' % (san, HERE),
             'MSAN_OPTIONS': 'exitcode=99:allocator_may_return_null=1:max_allocation_size_mb=1500:log_path=%s' % san,
             'ASAN_SYMBOLIZER_PATH': shutil.which('llvm-symbolizer') or shutil.which('llvm-symbolizer-18') or ''}
        e.update(env or {})
        if os.path.exists(outp):
            os.unlink(outp)
        with open(self.dir + '/stdio', 'wb') as so:
            try:
                p = subprocess.run([self.exe, inp, outp], stdout=so, stderr=so, env=e, cwd=self.w, timeout=timeout, stdin=subprocess.DEVNULL)
            except subprocess.TimeoutExpired:
                raise Hang('library call did not return')
        self.rc = p.returncode
        self.stdio = open(self.dir + '/stdio', 'rb').read()
        lines = open(outp, errors='replace').read().split('\n') if os.path.exists(outp) else ['']
        ended = 'END' in lines
        res = []
        for l in lines:
            t = l.split(' ')
            if not t[0].isdigit():
                break
            res.append([dec(x) for x in t[1:]])
        rep = ''
        for f in sorted(os.listdir(self.dir + '/san')):
            rep += open(self.dir + '/san/' + f, errors='replace').read()
        # the line of a call that did not end is incomplete
        done = len(res) if ended else max(0, len(lines) - 1)
        if rep:
            op = ops[done] if not ended and done < len(ops) else None
            raise Violation('sanitizer', 'sanitizer report%s: %s' % (' in call %s' % show(op) if op else '', report_summary(rep)),
                            op=show(op, 4000) if op else None, report=rep[:5000])
        for l in lines:
            if l.startswith('FD '):
                op = ops[int(l[3:])]
                raise Violation('descriptor', 'the call %s leaves a descriptor open' % show(op), op=show(op, 4000))
        if expect_exit:
            return res
        if not ended or p.returncode:
            op = ops[done] if done < len(ops) else None
            raise Violation('crash', 'the process ended (status %d) in call %s' % (p.returncode, show(op)), op=show(op, 4000),
                            out=self.stdio[-800:])
        return res


def show(op, n=300):
    if op is None:
        return ''
    return ('%s(%s)' % (op[0], ', '.join(repr(x) for x in op[1:])))[:n]


def big_text(n):
    """the text that the unit host calls big_text, in blocks"""
    block = bytes(10 if i % 4093 == 4092 else 97 + i % 23 for i in range(23 * 4093))
    while n > 0:
        yield block[:n]
        n -= len(block)
