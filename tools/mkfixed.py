import subprocess
m={'4bc75e3':'C01','bdde242':'C01','1f7bef9':'C19','47ff897':'C25','f99b7dd':'C25','22b11c8':'C02','523601e':'C02','6e77cad':'C02','c88fd69':'C02','a704bf4':'C03','d8b9210':'C03','ada7b3a':'C03','7008696':'C05','f7cf1c3':'C05','6e6fd4a':'C05','dac1930':'C04','036ad53':'C04','bd5d333':'C05','2ae3786':'C06','03da0bf':'C06','b55ec75':'C06','17c3276':'C06','40154bb':'C06','e455594':'C06','7782f3c':'C06','d1b17db':'C06','df3274d':'C06','328b39a':'C07','390708e':'C07','8b33f64':'C07','030fdef':'C25','dac0327':'C17','fe45925':'C17','e7f9fdd':'C24','f4f341e':'C08','9c02fff':'C09','dacd666':'C13','af54ba9':'C09','50834bc':'C10','649836a':'C10','c9e2d19':'C10',
'0355372':'C23','4d13d5d':'C23','2ee4041':'C23','1bca89c':'C23','2fa5a4c':'C23','db429e3':'C23','108adb0':'C23','8705366':'C23','58a90f8':'C23','1b2a2b0':'C18','a7cdd1b':'C18','a6bdc9c':'C13','d9daec9':'C13','5432bcd':'C13','561ce3d':'C13','75ffd34':'C13','8d9ce83':'C21','ae0aa02':'C21','2bbd96f':'C21','bc75f5d':'C22'}
import sys
import re
for l in open('/verif/known_findings.txt'):
    q=re.match(r'fixed: property=(C\d\d) (\w+) ',l)
    if q: m.setdefault(q[2],q[1])
extra=dict(x.split('=') for x in sys.argv[1:])
m.update(extra)
log=subprocess.run(['git','-C','/repo','log','--reverse','--format=%h %s','2dbbe1a..HEAD'],capture_output=True,text=True).stdout.splitlines() if True else []
f='/verif/known_findings.txt'
lines=[l for l in open(f).read().splitlines() if not l.startswith('fixed:')]
out=[]
for l in log:
    h,s=l.split(' ',1)
    if not s.startswith('fix:'): continue
    if h not in m: print('UNMAPPED',l); continue
    out.append(f"fixed: property={m[h]} {h} {s[5:]}")
open(f,'w').write('\n'.join(lines+out)+'\n')
print(len(out))
