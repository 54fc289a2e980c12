#!/usr/bin/env python3
"""Regenerates MANIFEST.json from checks.json and properties.jsonl."""
import json
V='/verif'; C=json.load(open(V+'/checks.json')); P=[json.loads(l) for l in open(V+'/properties.jsonl')]
checks=[]; na=[]
for p in P:
    i=p['id']
    if i in C:
        c=C[i]
        checks.append({'property':i,'quick_cmd':'python3 bin/check.py %s --tier quick'%i,'thorough_cmd':'python3 bin/check.py %s --tier thorough'%i,
          'technique':'contract-based deductive verification: contracts over the real headers, verification conditions generated from their LLVM IR on every run, discharged by an exact ring normaliser and z3',
          'level':c['level'],'level_note':c.get('note','')+' Bounded: '+('; '.join(c['bounded']) or 'nothing')+'. Assumes: '+'; '.join(c['assumptions']+['doubles are exact reals','contract stubs stand for every implementation of the documented interface','clang front end, VC generator and z3 are trusted'])+'.'})
    else: na.append({'property':i,'reason':NA.get(i,'check not built yet') if 'NA' in globals() else 'check not built yet'})
m={'version':1,'setup_cmd':'bash engine/build.sh','checks':checks,'not_applicable':na,
 'hooks':{'guard':'none (no hooks: the headers are verified as they are)','enable':'not needed','source_commits':[]},
 'notes':'See DESIGN.md. All checks extract LLVM IR from the headers in /repo on every run.'}
json.dump(m,open(V+'/MANIFEST.json','w'),indent=1)
