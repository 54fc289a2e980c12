#!/usr/bin/env python3
"""check.py <property-id> [--tier quick|thorough] [--keep] [--entry NAME]

Extracts LLVM IR from the contract harnesses instantiated with /repo's current
headers, lets the verifier discharge every obligation, replays counterexamples
natively, writes evidence/<id>.json.
exit 0: all obligations of everything explored hold; 1: VIOLATION; 2: error."""
import sys, os, json, subprocess, time, tempfile, shutil, concurrent.futures as cf, hashlib, re
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO=os.environ.get('VP_REPO','/repo')
DUNE='/opt/dune/venv/include'
CLANG='/usr/bin/clang++-18'; OPT='/usr/bin/opt-18'; NM='/usr/lib/llvm-18/bin/llvm-nm'
INC=['-I'+REPO,'-I'+V+'/lib','-isystem',DUNE]
BASE=['-std=c++20','-D_GLIBCXX_ASSERTIONS','-DDUNE_CHECK_BOUNDS=1','-w']
EXTRACT=['-O0','-Xclang','-disable-O0-optnone','-g','-D_GLIBCXX_EXTERN_TEMPLATE=0','-ffp-contract=off','-fno-math-errno','-emit-llvm','-c']
PASSES='function(sroa,early-cse,simplifycfg),cgscc(inline),function(sroa,early-cse,instsimplify,simplifycfg,adce),globaldce'

def sh(cmd,timeout=None,env=None,mem_gb=None):
    def lim():
        if mem_gb:
            import resource; resource.setrlimit(resource.RLIMIT_AS,(mem_gb<<30,mem_gb<<30))
    try:
        p=subprocess.run(cmd,capture_output=True,text=True,timeout=timeout,env=env,preexec_fn=lim,errors='replace')
        return p.returncode,p.stdout,p.stderr
    except subprocess.TimeoutExpired as e:
        return 124,'',(e.stderr or b'').decode(errors='replace') if isinstance(e.stderr,bytes) else (e.stderr or '')

def extract(h,work,defs):
    src=os.path.join(V,'harness',h['file']); tag=h['file'].replace('.cc','').replace('/','_')+hashlib.md5(' '.join(defs+h.get('defs',[])).encode()).hexdigest()[:6]
    b0=f'{work}/{tag}.0.bc'; b=f'{work}/{tag}.bc'
    r=sh([CLANG,*BASE,*EXTRACT,*defs,*h.get('defs',[]),*INC,src,'-o',b0],timeout=400)
    if r[0]: return None,[],'extraction of %s failed: %s'%(h['file'],r[2][:3000])
    if h.get('support',True):
        s0=V+'/build/support.bc'
        r=sh(['/usr/bin/llvm-link-18',b0,s0,'-o',b0+'l'],timeout=300)
        if r[0]: return None,[],r[2][:2000]
        b0=b0+'l'
    r=sh([OPT,'-passes='+PASSES,'-inline-threshold=%d'%h.get('inline',2000),b0,'-o',b],timeout=400)
    if r[0]: return None,[],'optimisation pipeline failed: '+r[2][:2000]
    r=sh([NM,'--defined-only',b])
    ents=[l.split()[-1] for l in r[1].splitlines() if l.split()[-1].startswith('vp_check_')]
    return b,ents,None

def native(h,work,defs,log):
    src=os.path.join(V,'harness',h['file']); out=f"{work}/{h['file'].replace('/','_')}.native"
    if os.path.exists(out): return out
    r=sh([CLANG,*BASE,'-O1','-g','-DVP_NATIVE','-rdynamic','-fsanitize=address,undefined,float-divide-by-zero','-fno-sanitize=vptr,alignment,null','-fno-sanitize-recover=all','-ffp-contract=off',*defs,*h.get('defs',[]),*INC,src,V+'/lib/vp_native.cc','-Wl,--unresolved-symbols=ignore-all','-o',out,'-ldl','/opt/dune/venv/lib/libdunegeometry.a','/opt/dune/venv/lib/libdunecommon.a'],timeout=400)
    if r[0]: log.append('native build failed: '+r[2][:1500]); return None
    return out

def main():
    a=sys.argv[1:]; pid=a[0]; tier=os.environ.get('VERIF_TIER','quick'); only=None
    if '--tier' in a: tier=a[a.index('--tier')+1]
    if '--entry' in a: only=a[a.index('--entry')+1]
    seed=int(os.environ.get('VERIF_SEED','1')); t0=time.time()
    cfg=json.load(open(V+'/checks.json'))[pid]
    known=[k for k in json.load(open(V+'/known_findings.json'))['findings'] if k['property']==pid]
    os.makedirs(V+'/build',exist_ok=True); os.makedirs(V+'/evidence',exist_ok=True)
    r=sh(['bash',V+'/engine/build.sh'],timeout=900)
    if r[0]: print('error: building the verifier failed\n'+r[2]); return 2
    work=tempfile.mkdtemp(prefix=f'work-{pid}-',dir=V+'/build')
    try: return run(pid,tier,seed,cfg,known,work,t0,only)
    finally:
        if '--keep' in a: print('kept',work)
        else: shutil.rmtree(work,ignore_errors=True)

def run(pid,tier,seed,cfg,known,work,t0,only):
    defs=['-DVP_THOROUGH=%d'%(1 if tier=='thorough' else 0)]
    hs=[h for h in cfg['harness'] if tier=='thorough' or not h.get('thorough_only')]
    budget=cfg.get('time',{}).get(tier, 240 if tier=='quick' else 1800)
    errors=[]; jobs=[]; results=[]; skipped=[]
    env=dict(os.environ,VERIF_SEED=str(seed))
    with cf.ThreadPoolExecutor(8) as ex:
        def prove(h,bc,e):
            out=f'{work}/{e}.json'
            rc,so,se=sh([V+'/build/irvc',bc,e,'-o',out,'--time',str(h.get('time',budget)),'--assert-ms',str(h.get('assert_ms',30000)),'--branch-ms',str(h.get('branch_ms',3000))],timeout=h.get('time',budget)+120,env=env,mem_gb=6)
            try: return h,e,json.load(open(out)),None
            except Exception: return h,e,None,'verifier failed on %s (rc %s) %s'%(e,rc,se[-800:])
        futs={ex.submit(extract,h,work,defs):h for h in hs}
        for f in cf.as_completed(futs):
            h=futs[f]; bc,ents,err=f.result()
            if err and h.get('optional'): skipped.append(h['file']+': helpers of the implementation are not there in this form, nothing decided about them'); continue
            if err: errors.append(err); continue
            if not ents: errors.append('no contract entry in '+h['file'])
            for e in ents:
                if only and e!='vp_check_'+only: continue
                jobs.append(ex.submit(prove,h,bc,e))
        for j in jobs:
            h,e,res,err=j.result()
            if err: errors.append(err)
            else: results.append((h,e,res))
    # ---- collect
    log=[]; viol=[]; undec=[]; tot=dict(obligations=0,discharged=0,safety=0,paths=0,steps=0,queries=0,by_const=0,by_ring=0,by_z3=0); solver=0.
    names={}; fns={}; ents=[]
    for h,e,r in results:
        for k in tot: tot[k]+=r[k]
        solver+=r['solver_time']
        ents.append({'entry':e[9:],'obligations':r['obligations'],'discharged':r['discharged'],'paths':r['paths'],'solver_s':round(r['solver_time'],3),'time_s':round(r['time'],3)})
        for n,c in r['names'].items():
            x=names.setdefault(n,[0,0,0]); 
            for i in range(3): x[i]+=c[i]
        for f,d in r['functions'].items():
            f=f.split('/dune/functions/')[-1]
            for fn,ls in d.items():
                fn=re.sub(r'<.*','',fn) or fn
                fns.setdefault(f,{}).setdefault(fn,set()).update(ls)
        for u in r['undecided']: undec.append((h,e,u))
        if not r['violations'] and not r['undecided']:
            bad=[c for c,v in r['covers'].items() if not v]
            if bad or r['obligations']==0 or (r['paths']==0): errors.append('vacuous harness %s: covers missed %s, paths %d, obligations %d'%(e,bad,r['paths'],r['obligations']))
        for v in r['violations']: viol.append((h,e,v))
    rdir=V+'/build/replay'; os.makedirs(rdir,exist_ok=True); alarms=0; fallback=[]
    reported=set(); nconf=0; found=[]
    for h,e,v in viol:
        kf=[k for k in known if k.get('status')=='open' and k['entry']==e[9:] and k['obligation']==v['name']]
        if kf: print('KNOWN-FINDING: property=%s %s'%(pid,kf[0]['what'])); continue
        key=(e,v['name'])
        if key in reported: continue
        reported.add(key)
        rf='%s/%s-%s-%s.txt'%(rdir,pid,e[9:],hashlib.md5(v['name'].encode()).hexdigest()[:8])
        conf=None
        with open(rf,'w') as f:
            f.write('# property %s\n# contract entry %s (harness/%s)\n# failed obligation: %s\n# at: %s\n# counterexample of the verifier:\n'%(pid,e,h['file'],v['name'],v['where']))
            f.write('\n'.join(v['lines'])+'\n')
        conf=False
        if nconf<4 and not any(c for c,_ in found):
            nconf+=1
            b=native(h,work,defs,log)
            if b:
                # exact counterexample first, then a random search with the same contract
                rc,so,se=sh([b,e],timeout=60,env=dict(env,VP_REPLAY=rf,ASAN_OPTIONS='detect_leaks=0'))
                out=[('counterexample',rc,se)]
                if rc in (0,43):
                    for s in range(400 if not conf else 0):
                        rc,so,se=sh([b,e],timeout=30,env=dict(env,VP_RANDOM=str(seed*1000+s),ASAN_OPTIONS='detect_leaks=0'))
                        if rc not in (0,43,3): out.append(('random seed %d'%(seed*1000+s),rc,se)); break
                rc=out[-1][1]
                if rc not in (0,43,3,124): conf=True
                with open(rf,'a') as f:
                    for o in out: f.write('# native replay (%s): exit %s\n'%(o[0],o[1])+''.join('#   '+l+'\n' for l in o[2].splitlines()[:25]))
        with open(rf,'a') as f:
            f.write('# replay with: VP_REPLAY=<this file> <native build of harness/%s> %s\n'%(h['file'],e))
        print('obligation failed: %s | %s | %s'%(e[9:],v['name'],v['where'][:400]))
        found.append((conf,rf))
    if found:
        conf=[rf for c,rf in found if c]
        for rf in conf: print('VIOLATION property=%s replay=%s'%(pid,rf))
        if not conf: print('VIOLATION property=%s replay=%s no-failing-input-found'%(pid,found[0][1]))
        alarms=len(found)
    # ---- undecided obligations: bounded native stand-in, never counted as proved
    if undec and not alarms:
        seen=set()
        for h,e,u in undec:
            print('undecided: %s: %s'%(e[9:],u[:300]))
            if e in seen: continue
            seen.add(e)
            b=native(h,work,defs,log); n=ok=0
            if b:
                for s in range(300):
                    rc,so,se=sh([b,e],timeout=30,env=dict(env,VP_RANDOM=str(seed*1000+s),ASAN_OPTIONS='detect_leaks=0'))
                    n+=1
                    if rc==0: ok+=1
                    if rc not in (0,43,3,124):
                        rf='%s/%s-%s-random.txt'%(rdir,pid,e[9:])
                        with open(rf,'w') as f: f.write('# property %s\n# contract entry %s, random seed %d\n'%(pid,e,seed*1000+s)+se[:4000])
                        print('VIOLATION property=%s replay=%s'%(pid,rf)); alarms+=1; break
            fallback.append({'entry':e[9:],'reason':u[:300],'bounded_runs':n,'completed':ok})
            if not b: errors.append('undecided and no native stand-in: '+e)
    # ---- evidence
    nfn=sum(len(d) for d in fns.values())
    ev={'property':pid,'tier':tier,'seed':seed,'level':cfg['level'],'wall_s':round(time.time()-t0,2),'violations':alarms,
        'assumptions':cfg['assumptions']+COMMON,
        'coverage':{'obligations':tot['obligations'],'discharged':tot['discharged'],
          'checker_cmd':'python3 bin/check.py %s --tier %s'%(pid,tier),
          'trusted_base':['clang 18.1.3 (C++ to LLVM IR) and the LLVM passes sroa/early-cse/inline/simplifycfg/instsimplify/adce','engine/irvc (VC generator, exact ring normaliser)','z3 5.3'],
          'implicit_safety_obligations':tot['safety'],'paths':tot['paths'],'ir_instructions':tot['steps'],
          'discharged_by':{'normalisation':tot['by_const'],'ring normaliser':tot['by_ring'],'z3':tot['by_z3']},
          'solver_time_s':round(solver,3),'solver_queries':tot['queries'],
          'functions_under_contract':nfn,'functions':{f:{k:len(l) for k,l in sorted(d.items())} for f,d in sorted(fns.items())},
          'named_obligations':{n:{'discharged':c[0],'failed':c[1],'unknown':c[2]} for n,c in sorted(names.items())},
          'entries':sorted(ents,key=lambda x:x['entry']),
          'bounded':cfg.get('bounded',[]),'undecided_with_bounded_stand_in':fallback,'skipped':skipped,'errors':errors}}
    json.dump(ev,open(V+'/evidence/%s.json'%pid,'w'),indent=1)
    if '--cov' in sys.argv: json.dump({f:sorted(set().union(*d.values())) for f,d in fns.items()},open(V+'/build/cov-%s.json'%pid,'w'))
    print('%s: %d/%d obligations discharged (+%d implicit safety), %d paths, %d functions of the repository, solver %.1fs, wall %.1fs'%(pid,tot['discharged'],tot['obligations'],tot['safety'],tot['paths'],nfn,solver,time.time()-t0))
    for x in log: print('note:',x[:500])
    if alarms: return 1
    if errors:
        for x in errors: print('error:',x[:3000])
        return 2
    return 0
COMMON=['double/float arithmetic is treated as exact real arithmetic; floating-point literals stand for the simplest rational that rounds to them',
 'machine integers are exact (wrap-around modelled); index magnitudes are bounded by the ranges stated in the harness (below 2^24 per digit)',
 'distinct allocations never alias and allocation never fails; text of exception messages is dropped',
 'the contract stubs (grid view, elements, finite elements, sub-pre-bases) stand for every implementation of the documented interface contract']
if __name__=='__main__': sys.exit(main())
