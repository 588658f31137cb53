import sys; import os; sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import random
from expr import *
import solver as S
rnd=random.Random(5)
# random differential test of simplifier vs evaluation, and z3 translation
def gen(d, vs):
    if d==0 or rnd.random()<.1:
        return rnd.choice(vs) if rnd.random()<.7 else (lambda c:(c,c))(rnd.randint(-5,70))
    k=rnd.choice(['add','sub','mul','mod','div','ite','and','or','xor','tab','inv','signed','lshr','limbs','limbs','lmerge','condsub'])
    a=gen(d-1,vs); b=gen(d-1,vs)
    return (k,a,b,gen(d-1,vs), rnd.choice([2,3,7,16,59,13,256,1<<25,(1<<31)-1,(1<<160)+7,1<<64,1<<128]))
K1=(1<<150)+12345678901234567890; K2=3**70
def build(t):
    if t[0]=='v': return t[1]
    if isinstance(t[0],int): return t[0]
    k,a,b,c,m=t; a=build(a);b=build(b)
    if k=='limbs':
        V=add(scale(a,K1),scale(b,K2)); lo=m%3; n=1+m%2
        return lincomb([(limb(V,lo+i),1<<(64*i)) for i in range(n)])
    if k=='lmerge':
        A=add(scale(a,K1),b); B=add(scale(mul(a,b),K2),a); c=lt(a,b)
        L=[ite(c,limb(A,i),limb(B,i)) for i in range(3)]
        return lincomb([(x,1<<(64*i)) for i,x in enumerate(L)]+[(L[1],5)])
    if k=='condsub':
        P=(1<<160)+7
        S=add(mod(scale(a,K1),P),mod(scale(b,K2),P)); c=le(S,P); D=sub(S,P)
        L=[ite(c,limb(S,i),limb(D,i)) for i in range(3)]
        return lincomb([(x,1<<(64*i)) for i,x in enumerate(L)])
    if k=='add': return add(a,b)
    if k=='sub': return sub(a,b)
    if k=='mul': return mul(a,b)
    if k=='mod': return mod(a,m)
    if k=='div': return fdiv(a,m)
    if k=='ite':
        c=build(c); return ite(lt(a,b) if m%2 else eq(mod(a,7),mod(b,7)), c, a)
    if k in('and','or','xor'):
        a=mod(a,256);b=mod(b,59); return {'and':and_,'or':or_,'xor':xor_}[k](a,b)
    if k=='tab': return tab(mod(a,7),(3,5,5,9,-1,2,0))
    if k=='inv': return inv(a,59)
    if k=='signed': return signed(mod(a,256),8)
    if k=='lshr': return lshr(mod(a,1<<20),mod(b,7))
def ref(t,mo):
    k=t[0]
    if k=='limbs':
        a=ref(t[1],mo); b=ref(t[2],mo); V=a*K1+b*K2; lo=t[4]%3; n=1+t[4]%2
        return (V>>(64*lo))%(1<<(64*n))
    if k=='lmerge':
        a=ref(t[1],mo); b=ref(t[2],mo); A=a*K1+b; B=a*b*K2+a
        V=A if a<b else B
        return V%(1<<192) + ((V>>64)%(1<<64))*5
    if k=='condsub':
        a=ref(t[1],mo); b=ref(t[2],mo); P=(1<<160)+7
        S=a*K1%P+b*K2%P
        V=S if S<=P else S-P
        return V%(1<<192)
    if t[0]=='v': return mo[t[1].args[0]]
    if isinstance(t[0],int): return t[0]
    k,a,b,c,m=t; a=ref(a,mo);b=ref(b,mo)
    if k=='add': return a+b
    if k=='sub': return a-b
    if k=='mul': return a*b
    if k=='mod': return a%m
    if k=='div': return a//m
    if k=='ite':
        c=ref(c,mo); return c if ((a<b) if m%2 else a%7==b%7) else a
    if k in('and','or','xor'):
        a%=256;b%=59; return {'and':a&b,'or':a|b,'xor':a^b}[k]
    if k=='tab': return (3,5,5,9,-1,2,0)[a%7]
    if k=='inv': return pow(a,-1,59) if a%59 else 0
    if k=='signed': a%=256; return a-256 if a>=128 else a
    if k=='lshr': return (a%(1<<20))>>(b%7)
bad=0
for it in range(int(sys.argv[1]) if len(sys.argv)>1 else 6000):
    vs=[('v',var(n,lo,hi)) for n,lo,hi in [('x0',0,58),('x1',0,1),('x2',-7,7),('x3',0,255),('@y',0,24),('@z',2,30)][it%2::1 if it%3 else 2]]
    t=gen(4,vs); e=build(t)
    for _ in range(12):
        mo={v[1].args[0]:rnd.randint(v[1].lo,v[1].hi) for v in vs}
        r=ref(t,mo); g=evaluate(e,mo,{})
        lo,hi=rng(e)
        if r!=g or not lo<=r<=hi: print('MISMATCH',t,e,mo,r,g,lo,hi); bad+=1; break
    if it%10==0 and isinstance(e,E) and e.hi-e.lo<1<<400:
        # z3: e == r under fixed model must be sat with fixed vars
        fix=[eq(v[1],mo[v[1].args[0]]) for v in vs]
        a=S.solve(fix+[ne(e,r)]) ; b=S.solve(fix+[eq(e,r)])
        if a[0]!='unsat' or b[0]!='sat': print('Z3MISMATCH',t,e,mo,r,a,b); bad+=1
    if bad>3: break
print('bad',bad, S.Stats.queries, S.Stats.time)
