#!/usr/bin/env python3
"""seed.py spec.py ...: each file defines ID, PID, EDITS=[(file,old,new)], DEMO (C++ or None), PYDEMO, LIBS, NEEDS, BREAKS."""
import sys,os,subprocess,shutil,json
SEED='/verif/seeded'
def run(c,**k): return subprocess.run(c,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,**k)
def demo_files(d,s):
    os.makedirs(d,exist_ok=True)
    if s.get('DEMO'):
        open(d+'/demo.cpp','w').write(s['DEMO'].lstrip('\n'))
        libs=' '.join(s.get('LIBS',[])) 
        flags=s.get('FLAGS','')
        open(d+'/demo.sh','w').write(f'''#!/bin/bash
# Builds demo.cpp against the tree in the current directory and runs it: 0 means the property held.
here="$(cd "$(dirname "$0")" && pwd)"
tmp="$(mktemp -d)"
trap 'rm -rf "$tmp"' EXIT
export TMPDIR="$tmp" DEMO_DIR="$tmp"
g++ -std=c++14 -g -O1 -include vector -include string -include array -include map -include functional -include cstdint {flags} -Iinclude -isystem /usr/include/eigen3 "$here/demo.cpp" {libs} -o "$tmp/demo" -pthread -lz || exit 3
timeout -k 5 120 "$tmp/demo"
''')
    else:
        open(d+'/demo.py','w').write(s['PYDEMO'].lstrip('\n'))
        for n,t in s.get('EXTRA',{}).items():
            p=d+'/'+n; os.makedirs(os.path.dirname(p),exist_ok=True); open(p,'w').write(t)
        open(d+'/demo.sh','w').write('''#!/bin/bash
# Runs demo.py against the tree in the current directory: 0 means the property held.
here="$(cd "$(dirname "$0")" && pwd)"
tmp="$(mktemp -d)"
trap 'rm -rf "$tmp"' EXIT
export DEMO_DIR="$tmp" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg MPLCONFIGDIR="$tmp/mpl" PYTHONPATH="$PWD/src:$here/stubs"
timeout -k 5 120 /usr/bin/python3 "$here/demo.py"
''')
    os.chmod(d+'/demo.sh',0o755)
base=json.load(open('/opt/vp/BASELINE.json'))['stable']
for f in sys.argv[1:]:
    s={}; exec(open(f).read(),s)
    d=f"{SEED}/{s['ID']}"
    R='/tmp/w/sd_'+s['ID']; shutil.rmtree(R,ignore_errors=True)
    subprocess.check_call(['cp','-a','/repo',R])
    demo_files(d,s)
    r=run(['bash',d+'/demo.sh'],cwd=R)
    if r.returncode: print(s['ID'],'DEMO FAILS ON CLEAN',r.returncode,r.stdout[-1500:]); continue
    ok=True
    for p,a,b in s['EDITS']:
        t=open(R+'/'+p).read()
        if t.count(a)!=1: print('NOMATCH',t.count(a),a); ok=False; break
        open(R+'/'+p,'w').write(t.replace(a,b))
    if not ok: continue
    diff=subprocess.check_output(['git','-C',R,'diff'],text=True)
    open(d+'/patch.diff','w').write(diff)
    json.dump({"property":s['PID'],"needs":s['NEEDS'],"what_it_breaks":s['BREAKS']},open(d+'/meta.json','w'),indent=1)
    r=run(['bash',d+'/demo.sh'],cwd=R)
    if r.returncode in (0,3): print(s['ID'],'DEMO DOES NOT FAIL',r.returncode,r.stdout[-800:]); shutil.rmtree(R); continue
    dm=r.stdout[-200:].strip().replace('\n',' / ')
    tests='skip'
    if not os.environ.get('NOTEST'):
        assert not run(['git','-C','/repo','status','--short']).stdout.strip()
        subprocess.check_call(['git','-C','/repo','apply',d+'/patch.diff'])
        try:
            run(['bash','/opt/vp/test.sh','/tmp/seed_o.json'])
            o=json.load(open('/tmp/seed_o.json')); bad=[t for t in base if t not in o['passed']]
            tests='tests ok' if not bad else 'TESTS FAIL '+str(bad)
        finally: subprocess.check_call(['git','-C','/repo','checkout','-q','--','.'])
    c=''
    if not os.environ.get('NOCHECK'):
        r=run(['python3','/verif/tools/check.py',s['PID'],'quick'],env=dict(os.environ,VERIF_REPO=R,VERIF_SEED='1'))
        c={1:'CAUGHT',0:'MISSED'}.get(r.returncode,'NOVERDICT'); c+=' '+' '.join([l for l in r.stdout.split('\n') if l.startswith('  ')][:2])[:200]
    print(s['ID'],s['PID'],'|',tests,'| demo:',dm,'|',c,flush=True)
    shutil.rmtree(R)
