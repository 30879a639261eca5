"""Structural rules over the IR and the compiler."""
import os, re, subprocess, itertools, random
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get('VF_REPO', '/repo')
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BIN = '/usr/lib/llvm-18/bin/'
FLAGS = ['-std=c++11', '-w', '-mcx16', '-I' + REPO + '/src', '-I' + ROOT + '/harness']


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


# ------------------------------------------------------------ call graph
def all_module(tmp, defs=()):
    from llvmir import Module
    out = os.path.join(tmp, 'all%d.bc' % len(os.listdir(tmp)))
    r = sh([BIN + 'clang++'] + FLAGS + ['-g', '-O0', '-emit-llvm', '-c', ROOT + '/harness/all.cpp', '-o', out] + list(defs))
    if r.returncode:
        return None, 'the library does not compile as a whole:\n' + r.stdout[-2000:]
    return Module(out), None


def callees(m, fn):
    """(kind, name, site) of everything a function calls or takes the address of in a call position"""
    out = []
    for b in m.body(fn):
        for i in b.ins:
            if i.op in ('call', 'invoke'):
                c = i.x[0]
                if c[0] == 'g':
                    out.append(('fn', c[1], (i.file, i.line)))
                elif c[0] == 'r':
                    out.append(('indirect', '', (i.file, i.line)))
                else:
                    out.append(('asm', '', (i.file, i.line)))
    return out


def reach(m, roots):
    """callee -> (caller, site), breadth first"""
    par = {r: None for r in roots}
    todo = list(roots)
    ext, odd, edges, sites = {}, [], {}, 0
    while todo:
        n = todo.pop(0)
        fn = m.fns[n]
        for kind, c, site in callees(m, fn):
            sites += 1
            if kind != 'fn':
                odd.append((kind, n, site))
                continue
            edges.setdefault(n, set()).add(c)
            f = m.fns.get(c)
            if f is None or f.decl:
                ext.setdefault(c, (n, site))
            elif c not in par:
                par[c] = (n, site)
                todo.append(c)
    return par, ext, odd, edges, sites


def chain(m, par, n):
    out = []
    while n is not None:
        p = par.get(n)
        out.append((p[1][0] if p else m.fns[n].file, p[1][1] if p else m.fns[n].line, m.fns[n].dem))
        n = p[0] if p else None
    return out


QUIET = re.compile(r'llvm\.|memcpy$|memmove$|memset$|memcmp$|strlen$|clock_gettime$|sched_yield$|__cxa_begin_catch$|_ZSt9terminatev$|__gxx_personality|_Unwind_Resume$')


def path_functions(m, classes=r'RTML_buffer|RTML_reader|RTML_writer|RMTLD3_reader|Event'):
    """every function of the data path defined in the library"""
    src = REPO + '/src/'
    return [n for n, f in m.fns.items() if not f.decl and (f.file or '').startswith(src)]


def viol(msg, site, fn, stack, entry, kind='effect'):
    return dict(kind=kind, msg=msg, label=msg, site=(site[0], site[1], fn), stack=stack, entry=entry)


def datapath(tmp, tier):
    from llvmir import demangle
    V, P = [], []
    m, err = all_module(tmp)
    if err:
        return dict(violations=[], problems=[err])
    roots = path_functions(m)
    par, ext, odd, edges, sites = reach(m, roots)
    for c, (n, site) in sorted(ext.items()):
        if QUIET.match(c):
            continue
        V.append(viol('the data path reaches %s' % demangle(c), site, m.fns[n].dem, [(site[0], site[1], m.fns[n].dem)] + chain(m, par, n)[1:], 'datapath'))
    for kind, n, site in odd:
        if kind == 'asm':
            V.append(viol('inline assembly in the data path', site, m.fns[n].dem, chain(m, par, n), 'datapath'))
        else:
            P.append('%s:%s in %s: a call through a pointer' % (site[0], site[1], m.fns[n].dem))
    # a dynamically sized stack object is an allocation too
    for n in par:
        for b in m.body(m.fns[n]):
            for i in b.ins:
                if i.op == 'alloca' and i.ops and i.ops[0][0] != 'c':
                    V.append(viol('a stack object of run-time size in the data path', (i.file, i.line), m.fns[n].dem, chain(m, par, n), 'datapath'))
    if len(roots) < 80:
        P.append('only %d functions of the library found' % len(roots))
    return dict(violations=V, problems=P, coverage=dict(
        obligations=sites, functions_of_the_library=len(roots), functions_reached=len(par), call_sites=sites,
        external_functions=sorted(ext), rule='every external function reached from any function defined in src/ (with debugging off) is one that neither allocates, locks, throws, blocks nor writes output'))


def acyclic(tmp, tier):
    """no recursion, no yielding, in anything reached from buffer, reader and cursor operations"""
    V, P = [], []
    m, err = all_module(tmp)
    if err:
        return dict(violations=[], problems=[err])
    roots = [n for n in path_functions(m) if re.match(r'(void |bool )?(RTML_buffer|RTML_reader|RMTLD3_reader|Event)<', re.sub(r'^[\w: ]+ (?=RT|RM|Ev)', '', m.fns[n].dem))]
    par, ext, odd, edges, sites = reach(m, roots)
    for c, (n, site) in sorted(ext.items()):
        if not re.match(r'llvm\.|mem', c) and not QUIET.match(c) or c == 'sched_yield':
            V.append(viol('a buffer or reader operation calls %s' % c, site, m.fns[n].dem, chain(m, par, n), 'acyclic'))
    # cycles
    state = {}
    for r in par:
        st = [(r, iter(sorted(edges.get(r, ()))))]
        if r in state:
            continue
        state[r] = 1
        while st:
            n, it = st[-1]
            for c in it:
                if c not in par:
                    continue
                if state.get(c) == 1:
                    V.append(viol('recursion', (m.fns[n].file, m.fns[n].line), m.fns[n].dem, [(m.fns[x[0]].file, m.fns[x[0]].line, m.fns[x[0]].dem) for x in reversed(st)], 'acyclic', 'recursion'))
                elif c not in state:
                    state[c] = 1
                    st.append((c, iter(sorted(edges.get(c, ())))))
                    break
            else:
                state[n] = 2
                st.pop()
    if len(roots) < 40:
        P.append('only %d operations found' % len(roots))
    return dict(violations=V, problems=P, coverage=dict(obligations=sites, operations=len(roots), functions_reached=len(par), rule='the call graph of buffer, reader and cursor operations has no cycle and does not reach sched_yield'))


# ------------------------------------------------------------ headers
def headers(tmp, tier):
    src = REPO + '/src'
    hs = sorted(os.path.relpath(os.path.join(d, f), src) for d, _, fs in os.walk(src) for f in fs if f.endswith('.h'))
    conf = {'off': [], 'debug1': ['-DRTMLIB_DEBUG=1'], 'debug2': ['-DRTMLIB_DEBUG=2'], 'debug3': ['-DRTMLIB_DEBUG=3'],
            'formulas': ['-DRTMLIB_ENABLE_DEBUG_RMTLD3'], 'formulasv': ['-DRTMLIB_ENABLE_DEBUGV_RMTLD3'],
            'all': ['-DRTMLIB_DEBUG=3', '-DRTMLIB_ENABLE_DEBUG_RMTLD3', '-DRTMLIB_ENABLE_DEBUGV_RMTLD3']}
    main = ['off', 'debug3', 'all']
    units = []     # (name, includes, configuration, use everything)
    for h in hs:
        for c in (conf if tier == 'thorough' else main):
            units.append(('%s alone' % h, [h], c, ''))
        units.append(('%s twice' % h, [h, h], 'off', ''))
        # a header first and last among all
        rest = [x for x in hs if x != h]
        units.append(('%s first' % h, [h] + rest, 'all', ''))
        units.append(('%s last' % h, rest[::-1] + [h], 'off', ''))
    if tier == 'thorough':
        for a, b in itertools.permutations(hs, 2):
            units.append(('%s before %s' % (a, b), [a, b], 'off', ''))
        rnd = random.Random(1)
        for k in range(30):
            p = hs[:]
            rnd.shuffle(p)
            units.append(('order %d' % k, p, 'debug3', 'use'))
    for c in conf:
        units.append(('everything used', hs, c, 'use'))
        units.append(('everything used, other order', hs[::-1], c, 'use'))
    units.append(('everything used', hs, 'off', 'g++'))
    units.append(('everything used', hs, 'all', 'g++'))
    if tier == 'thorough':
        units += [('%s alone' % h, [h], 'off', 'g++h') for h in hs]
    V, P = [], []

    def one(k):
        name, inc, c, use = units[k]
        p = os.path.join(tmp, 'h%d.cpp' % k)
        open(p, 'w').write(''.join('#include "%s"\n' % i for i in inc) + ('#include "all.h"\nvoid vf_use() { use_ring(); }\n' if use in ('use', 'g++') else ''))
        cc = ['g++'] if use.startswith('g++') else [BIN + 'clang++']
        return sh(cc + FLAGS + conf[c] + ['-fsyntax-only', p])
    with ThreadPoolExecutor(8) as ex:
        for k, r in enumerate(ex.map(one, range(len(units)))):
            if r.returncode:
                name, inc, c, use = units[k]
                e = re.search(r'^(\S*?):(\d+):\d+: (?:fatal )?error: (.*)$', r.stdout, re.M)
                site = (e.group(1), int(e.group(2)), ' '.join(inc)) if e else (inc[0], 0, '')
                V.append(dict(kind='compile', msg='%s [%s]: does not compile: %s' % (name, c, e.group(3) if e else r.stdout[-300:]), label=name, site=site, stack=[], entry='headers'))
    # several translation units with everything in them link together
    objs = []

    def obj(k):
        p = os.path.join(tmp, 'l%d.cpp' % k)
        order = hs if k % 2 == 0 else hs[::-1]
        body = '#include <cstddef>\n' + ''.join('#include "%s"\n' % i for i in order) + '#include "all.h"\nvoid vf_use%d() { use_ring(); }\n' % k
        if k < 2:
            body += 'class M%d : public RTML_monitor<\'a\'> { void run() {} public: M%d() : RTML_monitor(1000) {} };\nvoid vf_mon%d() { M%d m; m.enable(); m.disable(); m.join(); }\n' % (k, k, k, k)
        if k == 0:
            body += 'int count_until_iterations;\nvoid vf_use1();\nint main() { vf_use0(); vf_use1(); }\n'
        open(p, 'w').write(body)
        o = os.path.join(tmp, 'l%d.o' % k)
        return o, sh([BIN + 'clang++'] + FLAGS + ['-O0', '-c', p, '-o', o] + (conf['all'] if lconf == 'all' else []))
    n = 0
    for lconf in ('off', 'all'):
        with ThreadPoolExecutor(2) as ex:
            rs = list(ex.map(obj, range(2)))
        n += 1
        if any(r.returncode for _, r in rs):
            for _, r in rs:
                if r.returncode:
                    e = re.search(r'^(\S*?):(\d+):\d+: (?:fatal )?error: (.*)$', r.stdout, re.M)
                    V.append(dict(kind='compile', msg='the whole library in one unit [%s]: %s' % (lconf, e.group(3) if e else r.stdout[-300:]), label='link', site=(e.group(1), int(e.group(2)), '') if e else None, stack=[], entry='headers'))
                    break
            continue
        r = sh([BIN + 'clang++', rs[0][0], rs[1][0], '-o', os.path.join(tmp, 'linked'), '-pthread', '-latomic'])
        if r.returncode:
            e = re.search(r'(multiple definition of|undefined reference to) .*', r.stdout)
            V.append(dict(kind='link', msg='two units do not link together [%s]: %s' % (lconf, e.group(0) if e else r.stdout[-300:]), label='link', site=None, stack=[], entry='headers'))
    return dict(violations=V, problems=P, coverage=dict(obligations=len(units) + n, headers=hs, units=len(units), link_units=2 * n, configurations=list(conf),
                                                      rule='the compiler accepts every listed unit and the linker accepts two units that each use the whole library'))


def platforms(tmp, tier):
    """everything instantiated, as the other configurations of the library see it"""
    src = REPO + '/src'
    plat = os.path.join(ROOT, 'harness', 'plat')
    hs = sorted(os.path.relpath(os.path.join(d, f), src) for d, _, fs in os.walk(src) for f in fs if f.endswith('.h'))
    rv = ['-include', plat + '/riscv.h', '-I' + plat]
    cfg = {'host': [], 'riscv nuttx': rv + ['-D__NUTTX__'], 'riscv rtems': rv + ['-D__rtems__'], 'riscv freertos': rv + ['-D__FREERTOS__']}
    if os.path.isdir('/usr/include/c++/13') and os.path.isdir('/usr/include/x86_64-linux-gnu/c++/13'):
        m32 = ['-m32', '-isystem', '/usr/include/c++/13', '-isystem', '/usr/include/x86_64-linux-gnu/c++/13', '-isystem', '/usr/include/x86_64-linux-gnu', '-I' + plat + '/m32']
        cfg['x86'] = m32 + ['-D__x86__']
        arm = m32 + ['-DCORTEX_M3', '-include', plat + '/arm.h', '-I' + plat, '-I' + plat + '/arm']
        cfg.update({'arm nuttx': arm + ['-D__NUTTX__'], 'arm freertos': arm + ['-D__FREERTOS__']})
    lev = {'off': [], 'debug3': ['-DRTMLIB_DEBUG=3']}
    units = [(o, c, l) for c in cfg for l in lev for o in ('sorted', 'reversed')]

    def one(k):
        o, c, l = units[k]
        p = os.path.join(tmp, 'p%d.cpp' % k)
        open(p, 'w').write(''.join('#include "%s"\n' % i for i in (hs if o == 'sorted' else hs[::-1])) + '#include "all.h"\nvoid vf_use() { use_ring(); }\n'
                           + "class M : public RTML_monitor<'a'> { void run() {} public: M() : RTML_monitor(1000) {} };\nvoid vf_mon() { M m; m.enable(); m.disable(); m.join(); }\n")
        return sh([BIN + 'clang++'] + FLAGS + cfg[c] + lev[l] + ['-fsyntax-only', p])
    V, n = [], 0
    with ThreadPoolExecutor(8) as ex:
        rs = dict(zip(units, ex.map(one, range(len(units)))))
    for (o, c, l), r in rs.items():
        n += 1
        # what does not compile on the host either is no difference between platforms
        if not r.returncode or c == 'host' or rs[(o, 'host', l)].returncode:
            continue
        e = re.search(r'^(\S*?):(\d+):\d+: (?:fatal )?error: (.*)$', r.stdout, re.M)
        V.append(dict(kind='compile', msg='everything used [%s, %s]: does not compile: %s' % (c, l, e.group(3) if e else r.stdout[-300:]), label=c,
                      site=(e.group(1), int(e.group(2)), c) if e else None, stack=[], entry='platforms'))
    return dict(violations=V, coverage=dict(rule='everything the library offers compiles on every platform it has a configuration for that can be seen here', obligations=n, units=['%s, %s, %s' % u for u in units]))


MISUSE = """#include "periodicmonitor.h"
#include "all.h"
typedef Event<char> OEv;
typedef RTML_buffer<OEv, 3> OBuf;
typedef RTML_buffer<AEv, 4> LBuf;
class Mon : public RTML_monitor<'a'> {
  void run() {}

public:
  Mon() : RTML_monitor(1000) {}
};
void use(ABuf &b, const ABuf &cb, ARd &r, const ARd &cr, AWr &w, const AWr &cw, ATr &tr, const ATr &ctr, AEv &e, const AEv &ce, OEv &oe, OBuf &ob,
         const OBuf &cob, LBuf &lb, size_t &n, timespan &t, timespanw &tw, int &d, Mon &m, const Mon &cm) {
  %s;
}
"""


def misuse(tmp, tier):
    """programs that must not compile, each beside one that must"""
    W, g = [], ''
    for l in open(os.path.join(ROOT, 'harness', 'misuse.txt')):
        l = l.strip()
        if l.startswith('['):
            g = l[1:-1]
        elif l and l[0] in '+-':
            W.append((g, l[0] == '+', l[2:]))
    V, P = [], []

    def one(k):
        p = os.path.join(tmp, 'm%d.cpp' % k)
        open(p, 'w').write(MISUSE % (W[k][2] if k >= 0 else ''))
        return sh([BIN + 'clang++'] + FLAGS + ['-fsyntax-only', p])
    r = one(-1)
    if r.returncode:
        # C38 says so; nothing can be told from a program that does not compile anyway
        return dict(problems=['the witnesses do not compile even when they do nothing: ' + r.stdout[-400:]])
    with ThreadPoolExecutor(8) as ex:
        for k, r in enumerate(ex.map(one, range(len(W)))):
            g, good, stmt = W[k]
            if good and r.returncode:
                e = re.search(r'error: (.*)$', r.stdout, re.M)
                V.append(dict(kind='misuse', msg='"%s" does not compile any more: %s' % (stmt, e.group(1) if e else ''), label=g, site=None, stack=[], entry='misuse'))
            elif not good and not r.returncode:
                V.append(dict(kind='misuse', msg='%s: "%s" compiles' % (g, stmt), label=g, site=None, stack=[], entry='misuse'))
    return dict(violations=V, coverage=dict(rule='each program that misuses the library fails to compile; each one beside it that does not compiles', obligations=len(W),
                                            programs=['%s %s' % ('+' if a else '-', b) for _, a, b in W]))


def formats(tmp, tier):
    """what debug messages read is what they are given"""
    body = """#include "periodicmonitor.h"
#include "rmtld3/rmtld3.h"
#undef DEBUGV_RMTLD3
#undef DEBUG_RMTLD3
#define DEBUGV_RMTLD3(...) ::printf(__VA_ARGS__)
#define DEBUG_RMTLD3(...) ::printf(__VA_ARGS__)
#include "all.h"
void vf_use() { use_ring(); START_MEASURE() COUNT_CYCLE() STOP_MEASURE() }
class M : public RTML_monitor<'a'> { void run() {} public: M() : RTML_monitor(1000) {} };
void vf_mon() { M m; m.enable(); m.disable(); m.join(); }
"""
    p = os.path.join(tmp, 'fmt.cpp')
    open(p, 'w').write(body)
    V, P, n, seen = [], [], 0, set()
    conf = {'off': [], '1': ['-DRTMLIB_DEBUG=1'], '2': ['-DRTMLIB_DEBUG=2'], '3': ['-DRTMLIB_DEBUG=3']}

    def size(t):
        a = re.search(r"aka '([^']*)'", t)
        t = (a.group(1) if a else re.sub(r"^'|'$", '', t.strip())).replace('const ', '').strip()
        if t.endswith('*') or t.endswith(']'):
            return ('pointer', 8) if not re.match(r'(unsigned |signed )?char', t) else ('string', 8)
        if t in ('float', 'double'):
            return ('float', 8)
        if t == 'long double':
            return ('long float', 16)
        w = {'bool': 4, 'char': 4, 'signed char': 4, 'unsigned char': 4, 'short': 4, 'unsigned short': 4, 'int': 4, 'unsigned int': 4, 'long': 8, 'unsigned long': 8, 'long long': 8, 'unsigned long long': 8,
             '__int128': 16, 'unsigned __int128': 16}
        return ('integer', w[t]) if t in w else ('integer', 4) if t.isidentifier() else ('other', 0)
    for c in conf:
        r = sh([BIN + 'clang++', '-std=c++11', '-mcx16', '-I' + REPO + '/src', '-I' + ROOT + '/harness', '-Wno-everything', '-Wformat', '-Wformat-security', '-Wformat-insufficient-args', '-Wformat-invalid-specifier',
                '-fno-caret-diagnostics', '-fno-diagnostics-fixit-info', '-fsyntax-only', p] + conf[c])
        if r.returncode:
            P.append('debug level %s: does not compile: %s' % (c, r.stdout[-300:]))
            continue
        n += 1
        for m in re.finditer(r'^(\S+?):(\d+):\d+: warning: (.*?) \[-W(\S+)\]$', r.stdout, re.M):
            f, l, w = m.group(1), int(m.group(2)), m.group(3)
            t = re.match(r"format specifies type (.*) but the argument has (?:underlying )?type (.*)$", w)
            if t:
                a, b = size(t.group(1)), size(t.group(2))
                # what is read must be there: the same kind of thing, and no wider than it
                if (a[0] == b[0] and a[1] <= b[1]) or (a[0] == 'pointer' and b[0] == 'string'):
                    continue
                w = 'the message reads %s and is given %s' % (t.group(1), t.group(2))
            elif not re.search(r"more '%' conversions|invalid conversion|not a string literal|incomplete format", w):
                continue
            if (f, l, w) not in seen:
                seen.add((f, l, w))
                V.append(dict(kind='format', msg=w, label='debug messages read only what they are given', site=(f, l, 'debug level %s' % c), stack=[], entry='formats'))
    k = sum(open(os.path.join(d, f), errors='replace').read().count('DEBUG') for d, _, fs in os.walk(REPO + '/src') for f in fs if f.endswith('.h'))
    return dict(violations=V, problems=P, coverage=dict(rule='every conversion of every debug message has an argument of its kind, at least as wide', obligations=n, configurations=list(conf), mentions_of_debug_macros=k))
