"""Authoring-time tool: compares data/ucd.txt with the UCD copies of Python, Node/ICU and Perl (Age)."""
import unicodedata, subprocess
T={}
cur=None
for l in open('/verif/data/ucd.txt'):
    a,b=l.split()
    if a=='V': cur=T.setdefault(b,[None]*0x110000); continue
    for r in b.split(','):
        x=r.split('-'); lo=int(x[0],16); hi=int(x[-1],16)
        for c in range(lo,hi+1):
            assert cur[c] is None; cur[c]=a
for v in T: assert None not in T[v]
print(unicodedata.unidata_version, all(unicodedata.category(chr(c))==T['15.0.0'][c] for c in range(0x110000)))
js=r'''
const cats="Pe Pc Cc Sc Pd Nd Me Pf Cf Pi Nl Zl Ll Sm Lm Sk Mn Ps Lo No Po So Zp Co Zs Mc Cs Lt Cn Lu".split(" ");
const re=cats.map(c=>new RegExp("^\\p{gc="+c+"}$","u"));let o=[];
for(let c=0;c<0x110000;c++){const s=String.fromCodePoint(c);o.push(re.findIndex(r=>r.test(s)));}
console.log(process.versions.unicode);console.log(o.join(","));'''
o=subprocess.run(['node','-e',js],capture_output=True,text=True).stdout.split('\n')
cats="Pe Pc Cc Sc Pd Nd Me Pf Cf Pi Nl Zl Ll Sm Lm Sk Mn Ps Lo No Po So Zp Co Zs Mc Cs Lt Cn Lu".split()
g=[cats[int(x)] for x in o[1].split(',')]
for v in T: print('node',o[0],v,sum(g[c]!=T[v][c] for c in range(0x110000)))
pl=r'''use Unicode::UCD; print Unicode::UCD::UnicodeVersion(),"\n"; no warnings; my ($inv,$map,$f,$d)=Unicode::UCD::prop_invmap("Age"); print join(",",map {"$inv->[$_]:$map->[$_]"} 0..$#$inv),"\n";'''
r=subprocess.run(['perl','-e',pl],capture_output=True,text=True)
L=r.stdout.split('\n'); print('perl',L[0], r.stderr[:200])
def inv(l):
    e=[x.split(':') for x in l.split(',')]; out=[None]*0x110000
    for n,(s,m) in enumerate(e):
        hi=int(e[n+1][0]) if n+1<len(e) else 0x110000
        for c in range(int(s),min(hi,0x110000)): out[c]=m
    return out
age=inv(L[1])
def vt(s): return tuple(int(x) for x in s.lstrip('V').replace('_','.').split('.'))[:2]
for v in T:
    if vt(v)>(15,0): continue
    bad=0
    for c in range(0x110000):
        asg = age[c] not in ('Unassigned','NA') and vt(age[c])<=vt(v)
        nonch = 0xfdd0<=c<=0xfdef or (c&0xfffe)==0xfffe
        bad += (T[v][c]!='Cn')!=(asg and not nonch)
    print('age',v,bad)
vs=list(T)
for a,b in zip(vs,vs[1:]):
    ch=[(hex(c),T[a][c],T[b][c]) for c in range(0x110000) if T[a][c]!='Cn' and T[a][c]!=T[b][c]]
    print(a,b,len(ch),ch[:12])
