# rewrites the commit hashes of the "fixed:" lines after a rebase, by matching old objects' subjects
import subprocess,re
g=lambda *a: subprocess.check_output(['git','-C','/repo',*a],text=True).strip()
cur={l.split(' ',1)[1]:l.split(' ',1)[0] for l in g('log','--format=%h %s').splitlines()}
out=[]
for l in open('/verif/known_findings.txt'):
    m=re.match(r'(fixed: property=\S+ )(\S+)( .*)',l)
    if m:
        sub=g('log','-1','--format=%s',m[2])
        l=f"{m[1]}{cur[sub]}{m[3]}\n"
    out.append(l)
open('/verif/known_findings.txt','w').writelines(out)
