import sys, time
sys.path.insert(0,'/verif')
from singdlint.sym import *
from singdlint.ten import *
bd=Bounds()
def D(n,lo=0,hi=None):
    s=sym(n,True); bd.set(n,lo,hi); return s
nb=D('nb'); l=D('l',0,29); m=D('m',1)
B=sc(30)
dim=nb*30+l
blocks=Ten.atom('blk',[nb,B,B]); last=Ten.atom('last',[l,l])
blocks2=Ten.atom('blk2',[nb,B,B]); last2=Ten.atom('last2',[l,l])
def dense(bl,la):
    z=Ten.full([dim,dim],0)
    a=bl.rel([dim,dim],lambda i,o,x:[o[0]-30*i[0]-i[1], o[1]-30*i[0]-i[2]])
    b=la.rel([dim,dim],lambda i,o,x:[o[0]-30*nb-i[0], o[1]-30*nb-i[1]])
    return a+b
t0=time.time()
P=dense(blocks,last).matmul(dense(blocks2,last2))
Q=dense(blocks.einsum(blocks2,'nij','njk','nik'), last.matmul(last2))
print('bd matmul',P.equals(Q,bd), time.time()-t0)
Q2=dense(blocks.einsum(blocks2,'nij','nkj','nik'), last.matmul(last2))
print('neg',P.equals(Q2,bd))
X=Ten.atom('X',[dim,m])
Xb=X.slice(0,0,30*nb).reshape([nb,30,m]); Xl=X.slice(0,30*nb,l)
rb=blocks.einsum(Xb,'nij','njk','nik').reshape([30*nb,m]); rl=last.matmul(Xl)
R=rb.place([dim,m],0,0)+rl.place([dim,m],0,30*nb)
print('bd X',dense(blocks,last).matmul(X).equals(R,bd), time.time()-t0)
# from_dense o dense
M=Ten.atom('M',[dim,dim])
bl=M.slice(0,0,30*nb).slice(1,0,30*nb).reshape([nb,30,nb,30]).relabel('aiaj','aij')
print('idx', dense(blocks,last).slice(0,0,30*nb).slice(1,0,30*nb).reshape([nb,30,nb,30]).relabel('aiaj','aij').equals(blocks,bd))
# gram
S=D('S',1); N=D('N',1)
x=Ten.atom('x',[N,S,m]); a=x.reshape([N*S,m]); g=a.permute([1,0]).matmul(a)
g2=x.einsum(x,'bsd','bse','de'); print('gram',g.equals(g2,bd), g.norm(bd).terms[0].eqs, g.show(bd))
x2=x.permute([1,0,2]).reshape([S*N,m]); print('gram2', x2.permute([1,0]).matmul(x2).equals(g2,bd))
# toeplitz
n=D('n',1)
d=Ten.atom('d',[n]); e=Ten.atom('e',[n])
tl=lambda d: d.rel([n,n],lambda i,o,a:[o[0]-o[1]-i[0]])
P=tl(d).matmul(tl(e))
inp=e.place([2*n-1],0,n-1); w=d.flip(0)
conv=inp.outer(w).rel([n],lambda i,o,a:[i[0]-o[0]-i[1]])
print('toep',tl(conv).equals(P,bd))
X=Ten.atom('X2',[n,m])
co=d.flip(0).place([2*n-1],0,0)
def toep(co,X): # conv padding n-1
    return co.outer(X.permute([1,0])).rel([n,m],lambda i,o,a:[i[1]-o[1], i[2]-(o[0]+i[0]-(n-1))])
print('toepX',tl(d).matmul(X).equals(toep(co,X),bd))
co2=d.place([2*n-1],0,n-1)
print('toepT',tl(d).permute([1,0]).matmul(X).equals(toep(co2,X),bd), tl(d).matmul(X).equals(toep(co2,X),bd))
# slices merge
A=Ten.atom('A',[n+m,n]); Y=Ten.atom('Y',[n,m])
k=D('k',0); q=D('q',0)
A=Ten.atom('A2',[n,k+q]); Y=Ten.atom('Y2',[k+q,m])
P=A.slice(1,0,k).matmul(Y.slice(0,0,k))+A.slice(1,k,q).matmul(Y.slice(0,k,q))
print('split', P.equals(A.matmul(Y),bd))
one=Ten.full([n,1],1)
print(time.time()-t0)
