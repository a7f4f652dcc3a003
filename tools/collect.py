import subprocess,sys,re
from concurrent.futures import ThreadPoolExecutor
c,p,n,seed=sys.argv[1],sys.argv[2],int(sys.argv[3]),sys.argv[4]
T='i686-unknown-linux-gnu' if c=='i686' else 'x86_64-unknown-linux-gnu'
D='release' if c=='n64r' else 'debug'
B=f'/verif/.build/{c}/{T}/{D}/sim'
def go(r):
    st,end=r; out=[]
    while st<end:
        q=subprocess.run([B,'run','--prop',p,'--seed',seed,'--start',str(st),'--count',str(end-st)],capture_output=True,text=True,timeout=600)
        m=re.search(r'VIOLATED (\d+) (.*)',q.stdout)
        if not m:
            if q.returncode: out.append((st,'rc %d %s'%(q.returncode,q.stderr[-200:])))
            break
        out.append((int(m[1]),m[2])); st=int(m[1])+1
    return out
step=max(1,n//32)
seen={}
with ThreadPoolExecutor(8) as ex:
    for o in ex.map(go,[(i,min(n,i+step)) for i in range(0,n,step)]):
        for i,m in o:
            k=re.sub(r'0x[0-9a-f.]+|\d+','#',m)[:120]
            seen.setdefault(k,[]).append((i,m))
for k,v in sorted(seen.items(),key=lambda x:-len(x[1])): print(len(v),v[0][0],v[0][1][:220])
