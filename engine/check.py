"""Driver: decides one property of /repo's current sources.

  check.py PROPERTY [quick|thorough]

exit 0: holds (KNOWN-FINDING lines for listed findings); exit 1 and VIOLATION lines;
exit 2: the analysis could not decide."""
import sys, os, resource, time, json, hashlib, re, shutil, subprocess, tempfile, traceback
from concurrent.futures import ProcessPoolExecutor
from concurrent.futures.process import BrokenProcessPool
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
REPO = os.environ.get('VF_REPO', '/repo')
EVID = os.environ.get('VF_EVID') or os.path.join(ROOT, 'evidence')
BIN = '/usr/lib/llvm-18/bin/'
CXX = [BIN + 'clang++', '-std=c++11', '-Wno-everything', '-mcx16', '-I' + REPO + '/src', '-I' + ROOT + '/harness']


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def vname(d):
    return ' '.join('%s=%s' % (k, v) if v is not None else k for k, v in d.items())


def compile_bc(job):
    src, defs, out = job
    d = ['-D%s%s' % (k, '' if v is None else '=%s' % v) for k, v in defs.items() if k[0].isupper() and k != 'PLAT']
    if 'PLAT' in defs:
        arm = defs.get('ARM', '') is None
        d += ['-D' + defs['PLAT'], '-include', ROOT + '/harness/plat/%s.h' % ('arm' if arm else 'riscv'), '-I' + ROOT + '/harness/plat'] + (['-I' + ROOT + '/harness/plat/arm', '-DCORTEX_M3'] if arm else [])
    r = sh(CXX + ['-g', '-O0', '-Xclang', '-disable-O0-optnone', '-emit-llvm', '-c', src, '-o', out + '.0'] + d)
    if r.returncode:
        return (out, 'the harness does not compile against this tree:\n' + r.stdout[-3000:])
    r = sh([BIN + 'opt', '-passes=mem2reg', out + '.0', '-o', out])
    if r.returncode:
        return (out, 'opt failed: ' + r.stdout[-2000:])
    os.unlink(out + '.0')
    return (out, None)


def entries_of(bc):
    from llvmir import Module
    m = Module(bc)
    labels = {}
    for n, f in m.fns.items():
        if f.decl or not (n.startswith('vf_entry_')):
            continue
        labels[n] = None
    return sorted(labels), check_labels(m)


def check_labels(m):
    """labels of every CHECK in the module"""
    out = set()
    for n, f in m.fns.items():
        if f.decl:
            continue
        if '/verif/' not in (m.fns[n].file or '') and ROOT not in (m.fns[n].file or ''):
            # file is known only once the body is loaded
            pass
        m.body(f)
        for b in f.blocks:
            for i in b.ins:
                if i.op in ('call', 'invoke') and i.x[0][0] == 'g' and i.x[0][1] in ('vf_check', 'vf_reach'):
                    o = i.ops[1] if i.x[0][1] == 'vf_check' else i.ops[0]
                    if o[0] == 'g' and o[1] in m.globals:
                        t, init, const = m.global_init(o[1])
                        out.add((i.x[0][1][3:], cstring(init)))
    return out


def cstring(d):
    if d[0] == 'agg':
        return ''.join(chr(e[1] & 255) for e in d[2] if e[0] == 'c' and e[1])
    return ''


def run_entry(job):
    bc, entry, var, opts = job
    resource.setrlimit(resource.RLIMIT_AS, (3500 << 20, 3500 << 20))
    from llvmir import Module
    from interp import Engine, EngineError
    import rules
    m = Module(bc)
    o = dict(opts)
    sizes = [int(v) for k, v in var.items() if v is not None and re.fullmatch(r'\d+', str(v))]
    o.setdefault('sizes', sizes)
    eff = o.pop('effects', None)
    if eff:
        o['effects'] = getattr(rules, eff)
    e = Engine(m, o)
    t = time.time()
    err = None
    try:
        e.run(entry)
    except EngineError as x:
        err = str(x)
    except (MemoryError, RecursionError) as x:
        e.states = None
        err = 'the analysis ran out of memory (%s)' % type(x).__name__
    except Exception:
        err = traceback.format_exc()[-1500:]
    repo_fns = sorted({m.fns[n].dem for n in e.fncov if (m.fns[n].file or '').startswith(REPO)})
    loops = sum(1 for (n, b) in e.loopcov if (m.fns[n].file or '').startswith(REPO))
    return dict(entry=entry, var=var, err=err, violations=e.violations, checks=e.checks, reach=e.reach, paths=e.paths,
                instrs=e.instrs, forks=e.forks, joins=e.joins, access=getattr(e, 'accesses', 0), fns=repo_fns, loops=loops,
                notes=e.notes, externs=e.externs, calls=getattr(e, 'repo_calls', 0), wall=time.time() - t)


def known():
    out = []
    p = os.path.join(ROOT, 'KNOWN_FINDINGS')
    for l in open(p):
        m = re.match(r'known: property=(\S+) entry=(\S+) label=(.*?) \| (.*)', l)
        if m:
            out.append(m.groups())
    return out


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    import specs
    S = specs.SPECS[pid]
    tmp = tempfile.mkdtemp(prefix='vf-%s-' % pid)
    try:
        rc = decide(pid, tier, seed, S, tmp, t0)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    sys.stdout.flush()
    os._exit(rc)


def decide(pid, tier, seed, S, tmp, t0):
    jobs = []
    for u in S.get('units', []):
        vs = u['quick']
        if tier == 'thorough' and 'thorough' in u:
            vs = u['quick'] + [v for v in u['thorough'] if v not in u['quick']]
        for i, v in enumerate(vs):
            out = os.path.join(tmp, '%s-%d.bc' % (os.path.basename(u['src']).split('.')[0], len(jobs)))
            jobs.append((os.path.join(ROOT, 'harness', u['src']), v, out, u))
    problems = []      # undecided
    viol = []
    res = []
    proofs = []        # for windows of any length
    labels = set()
    with ProcessPoolExecutor(8) as ex:
        comp = list(ex.map(compile_bc, [j[:3] for j in jobs]))
        run = []
        for (out, err), j in zip(comp, jobs):
            if err:
                problems.append('%s [%s]: %s' % (os.path.basename(j[0]), vname(j[1]), err))
        ok = [j for (out, err), j in zip(comp, jobs) if not err]
        for (ents, labs), j in zip(ex.map(entries_of, [j[2] for j in ok]), ok):
            only = j[3].get('entries')
            for e in ents:
                if only and not re.fullmatch(only, e[9:]):
                    continue
                run.append((j[2], e, j[1], dict(j[3].get('opts', {}), maxtime=800 if tier == 'thorough' else 200), bool(j[3].get('soft'))))
            labels |= labs if not only else set()
        # slow ones first
        run.sort(key=lambda r: -max([int(v) for v in r[2].values() if v is not None and re.fullmatch(r'\d+', str(v))] or [0]))
        fut = [ex.submit(run_entry, r[:4]) for r in run]
        for r, fu in zip(run, fut):
            try:
                x = fu.result()
                if r[4]:
                    # an attempt at a proof that a merged state may be too coarse for: it confirms, and cannot accuse
                    w = [x['err']] if x['err'] else sorted({v['msg'] for v in x['violations']})
                    proofs.append(dict(entry='%s [%s]' % (r[1][9:], vname(r[2])), proved=not w, open=w[:5], checks={k: c[0] for k, c in sorted(x['checks'].items())}, loop_joins=x['joins']))
                    x.update(err=None, violations=[])
                    if w:
                        continue
                res.append(x)
            except BrokenProcessPool:
                problems.append('%s [%s]: the analysis process died' % (r[1], vname(r[2])))
    extra = {}
    for fn in S.get('rules', []):
        import rules
        r = getattr(rules, fn)(tmp, tier)
        extra[fn] = r.get('coverage', {})
        viol += [dict(v, entry=v.get('entry', fn), var={}, rule=True) for v in r.get('violations', [])]
        problems += r.get('problems', [])
    for r in res:
        if r['err']:
            problems.append('%s [%s]: %s' % (r['entry'], vname(r['var']), r['err']))
        for v in r['violations']:
            viol.append(dict(v, var=r['var']))
    if S.get('diff'):
        # what fails whatever the configuration is not a difference between configurations
        same = {(v['entry'], v['kind'], v['msg']) for v in viol if not is_diff(v['var'])}
        viol = [v for v in viol if v.get('rule') or is_diff(v['var']) and (v['entry'], v['kind'], v['msg']) not in same]
    # vacuity
    seen = {}
    reach = {}
    for r in res:
        for k, c in r['checks'].items():
            s = seen.setdefault(k, [0, 0])
            s[0] += c[0]
            s[1] += c[1]
        for k, c in r['reach'].items():
            reach[k] = reach.get(k, 0) + c
    # known findings
    kn = [k for k in known() if k[0] == pid]
    fresh = []
    hit = set()
    for v in viol:
        for k in kn:
            if k[1] == v['entry'].replace('vf_entry_', '') and (v.get('label') or v['msg']).startswith(k[2]):
                hit.add(k)
                break
        else:
            fresh.append(v)
    if not fresh:
        for kind, l in sorted(labels):
            if l.endswith('[if called]'):
                continue
            if l not in (seen if kind == 'check' else reach):
                problems.append('vacuous: "%s" is never reached' % l)
        if S.get('units') and not res:
            problems.append('no entry was analysed')
        for n, k in S.get('min', {}).items():
            if seen.get(n, [0])[0] < k:
                problems.append('vacuous: "%s" has %d instances, %d expected' % (n, seen.get(n, [0])[0], k))
    rdir = os.path.join(EVID, 'replay')
    os.makedirs(rdir, exist_ok=True)
    lines = []
    done = set()
    for v in fresh:
        key = (v['entry'], v['kind'], v['msg'], tuple(v['stack'][0]) if v.get('stack') else v.get('site'))
        if key in done:
            continue
        done.add(key)
        txt = report(pid, v)
        h = hashlib.sha1(txt.encode()).hexdigest()[:8]
        p = os.path.join(rdir, '%s-%s.txt' % (pid, h))
        open(p, 'w').write(txt)
        lines.append((v, p))
    fns = sorted({f for r in res for f in r['fns']})
    nob = sum(c[0] for c in seen.values()) + sum(r['access'] for r in res) + sum(x.get('obligations', 0) for x in extra.values() if isinstance(x, dict))
    bad = len(viol)
    ev = dict(property=pid, tier=tier, seed=seed, level='other', wall_s=round(time.time() - t0, 2), violations=len(lines),
              assumptions=S.get('assume', []) + specs_common(),
              coverage=dict(
                  explanation=S['how'],
                  rule=S.get('rule', ''),
                  obligations=nob, discharged=max(0, nob - bad),
                  checks={k: c[0] for k, c in sorted(seen.items())},
                  memory_accesses_checked=sum(r['access'] for r in res),
                  functions_analysed=fns, functions=len(fns),
                  entries=sorted({'%s [%s]' % (r['entry'][9:], vname(r['var'])) for r in res}),
                  paths_partitions=sum(r['paths'] for r in res), instructions_interpreted=sum(r['instrs'] for r in res),
                  loop_joins=sum(r['joins'] for r in res), loops_in_repo=max([r['loops'] for r in res] or [0]),
                  call_sites_entered=sum(r['calls'] for r in res),
                  external_functions=sorted({k for r in res for k in r['externs']}),
                  imprecision_notes=sorted({k for r in res for k in r['notes']}),
                  structural=extra,
                  inductive_proofs=proofs,
                  undecided=problems,
                  samples=[sample(r) for r in res[:3]]))
    if not res and not any(extra.values()):
        problems.append('nothing analysed')
    json.dump(ev, open(os.path.join(EVID, pid + '.json'), 'w'), indent=1, default=str)
    for k in sorted(hit):
        print('KNOWN-FINDING: property=%s %s' % (pid, k[3]))
    for v, p in lines:
        s = v.get('site')
        print('%s: %s%s [%s]' % (pid, '%s:%s in %s: ' % (s[0], s[1], s[2]) if s else '', v['msg'], v['entry'].replace('vf_entry_', '')))
    for v, p in lines:
        print('VIOLATION property=%s replay=%s' % (pid, p))
    for p in problems:
        print('UNDECIDED %s: %s' % (pid, p[:1500]))
    print('%s %s: %d obligations, %d functions, %d entries, %d violations, %d known, %.1f s' % (pid, tier, nob, len(fns), len(res), len(lines), len(hit), time.time() - t0))
    if lines:
        return 1
    return 2 if problems else 0


def is_diff(var):
    return any(k in var for k in ('RTMLIB_DEBUG', 'FDEBUG', 'PLAT'))


def sample(r):
    return dict(entry=r['entry'][9:], variant=vname(r['var']), partitions=r['paths'], instructions=r['instrs'], checks={k: c[0] for k, c in list(r['checks'].items())[:6]}, functions=r['fns'][:8])


def specs_common():
    return ['the clang front end and mem2reg translate the sources faithfully (x86-64, -std=c++11)',
            'the abstract interpreter in /verif/engine is sound',
            'signed overflow is undefined behaviour and assumed absent; object addresses are distinct and do not wrap']


def report(pid, v):
    o = ['property %s violated' % pid, 'rule: %s' % v['msg'], 'kind: %s' % v['kind'], 'entry: %s' % v['entry'], 'variant: %s' % vname(v.get('var', {}))]
    if v.get('site'):
        o.append('site: %s:%s in %s' % tuple(v['site']))
    o.append('call stack (innermost first):')
    for s in v.get('stack', []):
        o.append('  %s:%s %s' % tuple(s))
    if v.get('calls'):
        o.append('calls into the library on this path: ' + '; '.join(str(c) for c in v['calls'][-12:]))
    if v.get('path'):
        o.append('abstract path (file:line, decision, branch taken):')
        for s in v['path']:
            o.append('  %s:%s %s #%s' % (s[0], s[1], s[2], s[3]))
    return '\n'.join(o) + '\n'


if __name__ == '__main__':
    main()
