#!/usr/bin/env python3
"""Systematic small changes of the sources, to find what the checks miss (development aid; no check uses it).
mutate.py OUT [file ...]: for every change that still compiles, runs the checks until one reports it."""
import os, re, subprocess, sys, shutil, tempfile, hashlib
from concurrent.futures import ThreadPoolExecutor, as_completed
import time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = '/repo/src'
BUF = 'C02 C03 C04 C05 C01 C06 C07 C09 C08 C12 C13 C14 C15 C11 C16 C17 C36 C37 C10 C39 C38'.split()
RD = 'C12 C14 C15 C13 C11 C16 C17 C37 C36 C39 C38'.split()
FM = 'C18 C25 C26 C27 C24 C23 C28 C20 C19 C11 C22 C21 C36 C39 C38'.split()
CHECKS = {'circularbuffer.h': BUF, 'atomic_compat.h': 'C06 C07 C10 C09 C08 C05 C04 C02 C01 C15 C12 C13 C37 C36 C39 C38'.split(),
          'writer.h': 'C06 C07 C08 C10 C09 C01 C05 C36 C39 C38'.split(), 'reader.h': RD,
          'rmtld3/reader.h': 'C16 C17 C13 C11 C37 C18 C20 C25 C26 C27 C28 C23 C24 C36 C39 C38'.split(),
          'rmtld3/formulas.h': FM, 'rmtld3/terms.h': 'C28 C18 C20 C19 C11 C22 C36 C39 C38'.split(), 'rmtld3/rmtld3.h': 'C21 C22 C25 C26 C27 C28 C23 C24 C39 C38'.split(),
          'event.h': 'C29 C02 C06 C07 C12 C36 C39 C38'.split(), 'time_compat.h': 'C30 C08 C35 C36 C39 C38'.split(),
          'task_compat.h': 'C33 C34 C44 C31 C32 C35 C45 C36 C39 C38'.split(), 'periodicmonitor.h': 'C45 C33 C44 C31 C34 C32 C35 C36 C39 C38'.split()}
# the parts compiled here
PARTS = {'atomic_compat.h': [(158, 300)], 'task_compat.h': [(76, 100), (140, 282)], 'time_compat.h': [(160, 226)]}
OPS = [(r' < ', [' <= ', ' > ']), (r' > ', [' >= ', ' < ']), (r' <= ', [' < ']), (r' >= ', [' > ', ' == ']), (r'>=b', ['>b']), (r' == ', [' != ']), (r' != ', [' == ']),
       (r' && ', [' || ']), (r' \|\| ', [' && ']), (r' \+ ', [' - ']), (r' - ', [' + ']), (r'\+\+', ['--']), (r'--(?=\w)', ['++']), (r' \|= ', [' = ', ' &= ']), (r' \+= ', [' = ', ' -= ']),
       (r' -= ', [' += ']), (r' \* ', [' + ']), (r' / ', [' * ']), (r' % ', [' / ']),
       (r'\b0\b', ['1']), (r'\b1\b', ['0', '2']), (r'\btrue\b', ['false']), (r'\bfalse\b', ['true']), (r'!(?=[\w(])', ['']),
       (r'\btop\b', ['bottom']), (r'\bbottom\b', ['top']), (r'\bb\b', ['t']), (r'\bt\b', ['b']), (r'\bts\b', ['ts_t']), (r'\bts_t\b', ['ts']), (r'\bc_time\b', ['t']), (r'\bt1\b', ['t2']), (r'\bt2\b', ['t1']), (r'\bcursor\b', ['R::bottom', 'R::top']),
       (r'T_TRUE', ['T_FALSE', 'T_UNKNOWN']), (r'T_FALSE', ['T_TRUE', 'T_UNKNOWN']), (r'T_UNKNOWN', ['T_FALSE', 'T_TRUE']),
       (r'\bGAP\b', ['NO_GAP']), (r'NO_GAP', ['GAP']), (r'\bAVAILABLE', ['UNAVAILABLE']), (r'\bUNAVAILABLE', ['AVAILABLE']), (r'\bOK\b', ['EMPTY']), (r'UNSAFE', ['OK']), (r'BUFFER_OVERFLOW', ['OK']), (r'READER_OVERFLOW', ['AVAILABLE']), (r'EMPTY', ['OK']), (r'OUT_OF_BOUND', ['OK']),
       (r'eval_phi1', ['eval_phi2']), (r'eval_phi2', ['eval_phi1']), (r'increment_', ['decrement_']), (r'decrement_', ['increment_']), (r'\bfirst\b', ['second']), (r'\bsecond\b', ['first']), (r'\blhs\b', ['rhs']), (r'\brhs\b', ['lhs']),
       (r'\bc_time_prev\b', ['c_time']), (r'ABORTED', ['ABORT', 'UNACTIVATE']), (r'\bABORT\b', ['ABORTED', 'RUNNING']), (r'RUNNING', ['ACTIVATE']), (r'\bACTIVATE\b', ['RUNNING', 'ABORT']), (r'UNACTIVATE', ['ACTIVATE', 'RUNNING']), (r'size_util', ['size']), (r'\bsize\b', ['size_util']),
       (r'\bmin\b', ['max']), (r'\bmax\b', ['min']), (r'state_swap', ['state']), (r'&now', ['&next']), (r'&next', ['&now', '&tmp']), (r'&tmp', ['&now']), (r'break;', ['', 'continue;']), (r'continue;', ['break;', '']), (r'std::atomic_load\(&(\w+(\.\w+)?)\)', [r'\1.load(std::memory_order_relaxed)']), (r'tv_sec', ['tv_nsec']), (r'tv_nsec', ['tv_sec']),
       (r'1000000000', ['1000000']), (r'1000000L', ['1000000000L']), (r'\bdelta = 1', ['delta = 0'])]


def lines(f):
    return open(os.path.join(SRC, f)).read().split('\n')


def mutants(f):
    L = lines(f)
    out = []
    comment = False
    debug = 0
    for n, l in enumerate(L, 1):
        if f in PARTS and not any(a <= n <= b for a, b in PARTS[f]):
            continue
        s = l.strip()
        if s.startswith('/*'):
            comment = True
        if comment:
            if '*/' in s:
                comment = False
            continue
        if debug or re.match(r'DEBUG|ASSERT_|#if|#el|#endif|#include|template|typename B::error_t$|//', s) or not s or s.startswith('#define DEBUG'):
            if re.match(r'DEBUG', s) or debug:
                debug = 0 if s.endswith(';') or s.endswith('; \\') or s.endswith(');') else 1
                if s.rstrip('\\ ').endswith(';'):
                    debug = 0
            continue
        code = l.split('//')[0]
        for rx, reps in OPS:
            for m in re.finditer(rx, code):
                for r in reps:
                    new = code[:m.start()] + m.expand(r) + code[m.end():]
                    out.append((f, n, l, new))
        # drop a statement
        if re.match(r'[\w:>*().\[\]-]+.*;(\s*\\)?$', s) and not re.match(r'(return|typedef|using|size_t|bool|auto|typename|const|int|struct|timespan|static|case|do|page_t|four_|three_|duration|class)\b', s) and not re.search(r'\bdefault:', s):
            out.append((f, n, l, re.match(r'\s*', l).group(0) + ('; \\' if s.endswith('\\') else ';')))
        if re.match(r'if \(.*\)( \{)?(\s*\\)?$', s):
            out.append((f, n, l, re.sub(r'if \((.*)\)', r'if ((\1) && 0)', code)))
            out.append((f, n, l, re.sub(r'if \((.*)\)', r'if ((\1) || 1)', code)))
    seen = set()
    res = []
    for m in out:
        if m[1:] in seen or m[2] == m[3]:
            continue
        seen.add(m[1:])
        res.append(m)
    return res


ALL = '#include "periodicmonitor.h"\n#include "reader.h"\n#include "writer.h"\n#include "rmtld3/reader.h"\n#include "rmtld3/formulas.h"\n'


def one(m):
    f, n, old, new = m
    d = tempfile.mkdtemp(prefix='vf-mut-')
    try:
        shutil.copytree(SRC, d + '/src')
        p = os.path.join(d, 'src', f)
        L = open(p).read().split('\n')
        L[n - 1] = new
        open(p, 'w').write('\n'.join(L))
        open(d + '/a.cpp', 'w').write('#include "all.h"\n#include "%s/harness/all.cpp"\n' % V)
        r = subprocess.run(['/usr/lib/llvm-18/bin/clang++', '-std=c++11', '-mcx16', '-w', '-fsyntax-only', '-I', d + '/src', '-I', V + '/harness', V + '/harness/all.cpp'], capture_output=True)
        if r.returncode:
            return m, 'nocompile', ''
        env = dict(os.environ, VF_REPO=d, VF_EVID=d + '/ev')
        os.mkdir(d + '/ev')
        und = []
        for c in CHECKS[f]:
            try:
                r = subprocess.run(['python3', V + '/engine/check.py', c, 'quick'], env=env, capture_output=True, text=True, timeout=300)
            except subprocess.TimeoutExpired:
                und.append(c + ':timeout')
                continue
            if r.returncode == 1:
                return m, 'killed', c + (' after undecided ' + ','.join(und) if und else '')
            if r.returncode:
                und.append(c + ':' + r.stdout.split('UNDECIDED')[-1][:120].replace('\n', ' '))
        return m, 'SURVIVED', ' '.join(und)
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == '__main__':
    out = open(sys.argv[1], 'a')
    fs = sys.argv[2:] or list(CHECKS)
    ms = [m for f in fs for m in mutants(f)]
    import random
    if os.environ.get('SKIP'):  # the report of an earlier run
        done = set(l.split(' | ')[0].split(' ')[1] + l.split(' | ')[2] for l in open(os.environ['SKIP']) if l.count(' | ') >= 3)
        ms = [m for m in ms if '%s:%d' % m[:2] + m[3].strip() not in done]
    random.Random(1).shuffle(ms)
    print(len(ms), 'changes')
    if os.environ.get('COUNT'):
        sys.exit()
    with ThreadPoolExecutor(int(os.environ.get('JOBS', '4'))) as ex:
        t0 = time.time()
        for fu in as_completed([ex.submit(one, m) for m in ms]):
            m, st, w = fu.result()
            out.write('%s %s:%d | %s | %s | %s\n' % (st, m[0], m[1], m[2].strip(), m[3].strip(), w))
            out.flush()
