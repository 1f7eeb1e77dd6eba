"""usage: fx.py FILE <<< python list of (old,new); exact single replacement"""
import sys
p=sys.argv[1]; raw=open(p,newline='').read()
crlf='\r\n' in raw
ns={}
exec(sys.stdin.read(),ns)
for n,a,b in ns.get('L',[]):
    ls=raw.split('\n')
    if ls[n-1].count(a)!=1: sys.exit('line %d: %r'%(n,ls[n-1]))
    ls[n-1]=ls[n-1].replace(a,b); raw='\n'.join(ls)
for a,b in ns.get('R',[]):
    if crlf: a=a.replace('\n','\r\n'); b=b.replace('\n','\r\n')
    n=raw.count(a)
    if n!=ns.get('N',1): sys.exit('count %d for %r'%(n,a))
    raw=raw.replace(a,b)
open(p,'w',newline='').write(raw)
