# usage: from mkseed import seed
import os,subprocess,json
def seed(id,prop,file,old,new,needs,breaks,demo,count=1,extra=[],mock=False):
    d='/verif/seeded/'+id; os.makedirs(d,exist_ok=True)
    edits=[(file,old,new)]+list(extra); saved={}
    try:
        for f,o,n in edits:
            p='/repo/'+f; s=open(p).read(); saved.setdefault(p,s)
            assert s.count(o)>=1,(id,f,'old text not found')
            assert s.count(o)==count or len(extra)>0 and s.count(o)==1,(id,'count',s.count(o))
            open(p,'w').write(s.replace(o,n))
        diff=subprocess.run(['git','-C','/repo','diff'],capture_output=True,text=True).stdout
        open(d+'/patch.diff','w').write(diff)
    finally: subprocess.run(['git','-C','/repo','checkout','--','.'])
    json.dump({'property':prop,'needs':needs,'what_it_breaks':breaks},open(d+'/meta.json','w'),indent=1)
    open(d+'/demo.cc','w').write(demo)
    if mock: open(d+'/mock.hh','w').write(open('/verif/tools/mock.hh').read())
    open(d+'/demo.sh','w').write('''#!/bin/bash
# compiles demo.cc against the headers in /repo and runs it
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d); trap 'rm -rf "$tmp"' EXIT
D=/opt/dune/venv
g++ -std=c++20 -O0 -w -I"$here" -I/repo -I$D/include "$here/demo.cc" -o "$tmp/demo" $D/lib/libdunegrid.a $D/lib/libdunegeometry.a $D/lib/libdunecommon.a || exit 2
"$tmp/demo"
''')
    print('seed',id)
