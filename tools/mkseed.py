#!/usr/bin/env python3
"""(Re)generate /verif/seeded/<id> from tools/seeds.py. usage: mkseed.py [ID...]"""
import os,sys,json,subprocess,shutil,tempfile
sys.path.insert(0,'/verif/tools')
from seeds import SEEDS
R='/repo'
want=set(sys.argv[1:])
for s in SEEDS:
    if want and s['id'] not in want: continue
    d='/verif/seeded/'+s['id']; os.makedirs(d,exist_ok=True)
    assert subprocess.check_output(['git','-C',R,'status','--porcelain'])==b'',"repo not clean"
    try:
        for f,old,new in s['edits']:
            p=os.path.join(R,f); t=open(p).read()
            assert t.count(old)==1,(s['id'],f,t.count(old),old)
            open(p,'w').write(t.replace(old,new))
        diff=subprocess.check_output(['git','-C',R,'diff'])
    finally:
        subprocess.check_call(['git','-C',R,'checkout','-q','--','.'])
    open(d+'/patch.diff','wb').write(diff)
    if 'demo' in s: demo=s['demo']
    else:
        demo="""#!/bin/bash
# %s
set -u
d=$(mktemp -d); trap 'rm -rf "$d"' EXIT
cat > "$d/p.smt2" <<'EOF'
%s
EOF
cat > "$d/p.alethe" <<'EOF'
%s
EOF
out=$(timeout 60 ./target/debug/carcara %s "$d/p.alethe" "$d/p.smt2" 2>"$d/err"); rc=$?
echo "$out" | head -5; head -3 "$d/err"
[ "$(echo "$out" | tail -1)" = "%s" ] || { echo "expected %s, got: $out (exit code $rc)"; exit 1; }
"""%(s['breaks'].replace('\n',' '),s['smt'].strip(),s['proof'].strip(),s.get('cmd','check'),s['expect'],s['expect'])
    open(d+'/demo.sh','w').write(demo); os.chmod(d+'/demo.sh',0o755)
    json.dump({"property":s['prop'],"needs":s['needs'],"what_it_breaks":s['breaks']},open(d+'/meta.json','w'),indent=1)
    print(s['id'],len(diff))
