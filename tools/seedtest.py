#!/usr/bin/env python3
"""seedtest.py [--checks-only|--no-tests] ID... : apply seeded/ID/patch.diff to /repo, build, run the stable
tests, the demo (clean and patched) and the property's check; always restores /repo."""
import sys,os,json,subprocess
V='/verif'; a=[x for x in sys.argv[1:] if not x.startswith('--')]; co='--checks-only' in sys.argv; nt='--no-tests' in sys.argv
def run(c,**k): return subprocess.run(c,capture_output=True,text=True,errors='replace',**k)
base=set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
for i in a:
    d=f'{V}/seeded/{i}'; m=json.load(open(d+'/meta.json')); msg=[i,m['property']]
    assert not run(['git','-C','/repo','status','--porcelain','-uno']).stdout.strip(),'repo dirty'
    if not co:
        r=run(['bash',d+'/demo.sh'],cwd='/repo'); msg.append('demo-clean=%d'%r.returncode)
        if r.returncode: print(r.stdout[-1500:],r.stderr[-1500:])
    r=run(['git','-C','/repo','apply',d+'/patch.diff'])
    if r.returncode: print(i,'does not apply',r.stderr); continue
    try:
        if not co:
            if not nt:
                r=run(['bash','/opt/vp/test.sh','/tmp/seed.json']); res=json.load(open('/tmp/seed.json'))
                miss=base-set(res['passed']); msg.append('tests=%s'%('ok' if not miss else sorted(miss)))
            r=run(['bash',d+'/demo.sh'],cwd='/repo'); msg.append('demo-patched=%d'%r.returncode)
            if r.returncode: msg.append((r.stdout+r.stderr).strip().splitlines()[-1][:150] if (r.stdout+r.stderr).strip() else '')
        if os.path.exists(V+'/checks.json') and m['property'] in json.load(open(V+'/checks.json')):
            r=run(['python3',V+'/bin/check.py',m['property'],'--tier','quick'],cwd=V); msg.append('check=%d'%r.returncode)
            msg.append(' / '.join([l for l in r.stdout.splitlines() if l.startswith(('VIOLATION','obligation failed','error','undecided'))][:3])[:400])
    finally: run(['git','-C','/repo','checkout','--','.'])
    print(' | '.join(msg),flush=True)
