"""Regenerates harness/src/registry.rs (committed) from the library's public API.
Not run by the checks: the registry is a fixed statement of the API the checks exercise."""
from scan import scan
OM={'om','s','ln_s','ln_s_pl_1'}
RX={'qcd::ghost':('ym::ghost',[]),'qcd::thermal::ghost':('ym::thermal',['ghost']),
    'qcd::thermal::zero_matsubara::ghost':('ym::thermal',['zero_matsubara','ghost']),
    'qcd::thermal::zero_momentum::ghost':('ym::thermal',['zero_momentum','ghost'])}
es=scan()
nat={}
for p,mods,ext,n,g,a,r in es:
    if ext or 'inlines' in mods or 'tests' in mods or p in('consts',): continue
    path='::'.join([p]+[m for m in mods if m!='native'])
    nat[(path,n)]=(g,a,r)
for dst,(sp,sm) in RX.items():
    src='::'.join([sp]+sm)
    for (pa,n),v in list(nat.items()):
        if pa==src: nat[(dst,n)]=v
def generics(g):
    return [x.strip().split(':')[0].strip() for x in g.strip('<>').split(',') if ':' in x] if g else []
out=['//! GENERATED by tools/gen_registry.py: every public numerical function of the library, callable uniformly.',
'use crate::fw::*;use crate::ea::C;use qcd_sme::qcd::FieldConfig;use qcd_sme::Integral;',
'pub struct Ctx<\'a>{pub a:&\'a [C],pub integral:Integral,pub cfg:&\'a FieldConfig}',
'pub type Call=fn(&Ctx)->C;',
'/// mask: bit i set when argument i is passed as a complex number',
'pub struct Var{pub mask:u32,pub f:Call}',
'pub struct Fun{pub name:&\'static str,pub args:&\'static [&\'static str],pub real_out:bool,pub vars:&\'static [Var]}',
'pub struct Ffi{pub name:&\'static str,pub native:usize,pub mask:u32,pub f:Call}',
'trait IntoC{fn c(self)->C;} impl IntoC for f64{#[inline] fn c(self)->C{C::new(self,0.)}} impl IntoC for C{#[inline] fn c(self)->C{self}}',
'pub static FUNS:&[Fun]=&[']
out[1]='use crate::ea::C;use qcd_sme::qcd::FieldConfig;use qcd_sme::Integral;'
idx={}
def argkind(t,gs):
    t=t.strip()
    if t in gs: return 'T'
    if t in('R','T1','T2'): return 'R'
    if t=='Integral': return 'I'
    if t=='&FieldConfig': return 'F'
    if t=='C': return 'C'
    raise Exception(t)
for i,((path,n),(g,a,r)) in enumerate(nat.items()):
    idx[(path,n)]=i
    import re
    gs=set(re.findall(r'\b(T\d?|T)\s*:',g)) if g else set()
    names=[x.split(':')[0].strip() for x in a]; kinds=[argkind(x.split(':')[1],gs) for x in a]
    types=[x.split(':')[1].strip() for x in a]
    masks=[0]
    omm=0; allm=0
    omtypes={types[j] for j in range(len(a)) if kinds[j]=='T' and names[j] in OM}
    for j,k in enumerate(kinds):
        if k=='T':
            allm|=1<<j
            if types[j] in omtypes: omm|=1<<j
    if omm: masks.append(omm)
    if allm and allm!=omm: masks.append(allm)
    # fermi_distribution_*: T1 must support Sub<T2> : fine for all-real/all-complex/T1 complex only
    vs=[]
    for m in masks:
        call=[]
        for j,k in enumerate(kinds):
            if k=='I': call.append('c.integral')
            elif k=='F': call.append('c.cfg')
            elif m>>j&1: call.append(f'c.a[{j}]')
            else: call.append(f'c.a[{j}].re')
        vs.append(f'Var{{mask:{m},f:|c|qcd_sme::{path}::{n}({",".join(call)}).c()}}')
    nm=[x for x,k in zip(names,kinds)]
    out.append(f'Fun{{name:"{path}::{n}",args:&[{",".join(chr(34)+x+chr(34) for x in nm)}],real_out:{"true" if r=="R" else "false"},vars:&[{",".join(vs)}]}},')
out.append('];')
out.append('pub static FFI:&[Ffi]=&[')
sk=[]
for p,mods,ext,n,g,a,r in es:
    if not ext: continue
    if p=='consts': sk.append(n); continue
    base=n[:-9] if n.endswith('__complex') else n
    last=base.split('__')[-1]
    path='::'.join([p]+[m for m in mods if m!='ffi'])
    if path=='low_level::oneloop::gluon' and base.startswith('ym__'): last='ym_'+last
    i=idx[(path,last)]
    m=0;call=[]
    for j,x in enumerate(a):
        t=x.split(':')[1].strip()
        if t=='C': m|=1<<j; call.append(f'c.a[{j}]')
        else: call.append(f'c.a[{j}].re')
    assert len(a)==len(nat[(path,last)][1]),n
    out.append(f'Ffi{{name:"{n}",native:{i},mask:{m},f:|c|qcd_sme::ffi::{n}({",".join(call)}).c()}},')
out.append('];')
out.append('/// exported names that are settings rather than functions of their arguments\npub static FFI_SETTINGS:&[&str]=&['+','.join('"%s"'%x for x in sk)+'];')
# masks for ffi must exist among native variants
open('/verif/harness/src/registry.rs','w').write('\n'.join(out)+'\n')
print(len(nat),'native',sum(1 for e in es if e[2]),'ffi')
