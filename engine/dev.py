import sys,subprocess,time,json
sys.path.insert(0,'/verif/engine')
from llvmir import Module
from interp import Engine
src=sys.argv[1]; args=[a for a in sys.argv[2:] if a.startswith('-')]; only=[a for a in sys.argv[2:] if not a.startswith('-')]
subprocess.check_call(['/usr/lib/llvm-18/bin/clang++','-std=c++11','-g','-O0','-Xclang','-disable-O0-optnone','-mcx16','-I'+__import__('os').environ.get('VF_REPO','/repo')+'/src','-I/verif/harness','-emit-llvm','-c',src,'-o','/tmp/x0.bc','-Wno-everything']+[a for a in args if a not in('-vv','-v')])
subprocess.check_call(['/usr/lib/llvm-18/bin/opt','-passes=mem2reg','/tmp/x0.bc','-o','/tmp/x.bc'])
m=Module('/tmp/x.bc')
for n in sorted(m.fns):
    if n.startswith('vf_entry_') and (not only or n[9:] in only):
        e=Engine(m,dict(sizes=[int(a[6:]) for a in args if a.startswith('-DCAP=')])); t=time.time()
        try: e.run(n)
        except Exception as ex:
            import traceback; traceback.print_exc(); 
        print(n,'paths',e.paths,'instr',e.instrs,'forks',e.forks,'joins',e.joins,'%.1fs'%(time.time()-t), e.notes, e.externs)
        print('  ', 'CHECKS %d kinds, %d instances'%(len(e.checks),sum(c[0] for c in e.checks.values())), [k for k,c in e.checks.items() if c[1]], list(e.reach)) if '-v' not in sys.argv else print('  ',e.checks,e.reach)
        seen=set()
        for v in e.violations:
            k=(v['kind'],str(v['site']), v['msg'] if 'pointer' not in v['kind'] else '')
            if k in seen and '-vv' not in sys.argv: continue
            seen.add(k)
            print('  VIOL',v['kind'],v['msg'],v['site'],v['stack'][:4])
            if '-vv' in sys.argv: 
                for p in v['path']: print('     ',p)
