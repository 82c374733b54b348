"""Writes spec/Tables.tla (run by hand: python3 tools/mktab.py > spec/Tables.tla)."""
import cmath, math
X=[-12,-8,-6,-5,-4,-3,-2,-1,0,1,2,3,4,5,6,8,10,12,16,20]
Z=[(a,b) for a in (-6,-2,0,3,8) for b in (-8,-3,0,1,4)]
U='U'
def rnd(v):
    t=v*1000; 
    if abs(t)>900000: return U
    f=t-math.floor(t)
    return U if abs(f-.5)<.03 else int(round(t))
def real(f):
    out=[]
    for q in X:
        x=q/4
        try: v=dict(sin=math.sin,cos=math.cos,tan=math.tan,atan=math.atan,exp=math.exp,log=math.log,sqrt=math.sqrt,arg=lambda x: math.pi if x<0 else 0.0)[f](x); out.append(str(rnd(v)))
        except ValueError: out.append(U)
    return '<<'+', '.join(out)+'>>'
def cx(f):
    out=[]
    for a,b in Z:
        z=complex(a/4,b/4)
        try:
            if f=='atan' and a==0 and abs(b)>=4: raise ValueError
            if f in('arg','log') and a==0 and b==0: raise ValueError
            v=dict(sin=cmath.sin,cos=cmath.cos,tan=cmath.tan,atan=cmath.atan,exp=cmath.exp,log=cmath.log,sqrt=cmath.sqrt,arg=cmath.phase,abs=abs,norm=lambda z: z.real**2+z.imag**2)[f](z)
            v=complex(v); r=(rnd(v.real),rnd(v.imag)); 
            out.append(U if U in r else '<<%s, %s>>'%r if True else '')
        except ValueError: out.append(U)
    return '<<'+', '.join('<<U, U>>' if o==U else o for o in out)+'>>'
B=[1,2,6,9,12,-6]; E=[-6,-4,-2,1,2,3,6,8,10,12]
CB=[(0,4),(4,4),(-2,6),(3,0),(-4,0)]; CE=[(0,4),(2,0),(3,-2),(-4,1),(8,0)]
def pr():
    rows=[]
    for b in B:
        r=[]
        for e in E:
            try: v=(b/4)**(e/4); r.append(str(rnd(v)) if not isinstance(v,complex) else U)
            except Exception: r.append(U)
        rows.append('<<'+', '.join(r)+'>>')
    return '<<'+', '.join(rows)+'>>'
def pc():
    rows=[]
    for b in CB:
        r=[]
        for e in CE:
            v=complex(b[0]/4,b[1]/4)**complex(e[0]/4,e[1]/4); w=(rnd(v.real),rnd(v.imag)); r.append('<<U, U>>' if U in w else '<<%s, %s>>'%w)
        rows.append('<<'+', '.join(r)+'>>')
    return '<<'+', '.join(rows)+'>>'
seq=lambda l: '<<'+', '.join('<<%d, %d>>'%p if isinstance(p,tuple) else str(p) for p in l)+'>>'
print('''-------------------------------- MODULE Tables -------------------------------
(***************************************************************************)
(* The elementary functions and powers to three decimal places, in         *)
(* thousandths, of some numbers given in quarters.  U: not defined, or too *)
(* near the half way between two thousandths, or too large                 *)
(***************************************************************************)
EXTENDS Values''')
print('TabX ==',seq(X))
print('TabR ==\n    [',',\n     '.join('%s |-> %s'%(f,real(f)) for f in 'sin cos tan atan exp log sqrt arg'.split()),']')
print('TabZ ==',seq(Z))
print('TabC ==\n    [',',\n     '.join('%s |-> %s'%(f,cx(f)) for f in 'sin cos tan atan exp log sqrt arg abs norm'.split()),']')
print('PowB ==',seq(B)); print('PowE ==',seq(E)); print('PowR ==\n   ',pr())
print('CPowB ==',seq(CB)); print('CPowE ==',seq(CE)); print('CPowR ==\n   ',pc())
print('='*77)
