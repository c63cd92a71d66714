"""One-off scanner used to (re)generate harness/src/registry.rs from the library's public API."""
import re,sys,os
ROOT='/repo/qcd-sme/src/'
FILES={'common/mod.rs':'common','common/thermal.rs':'common::thermal','consts.rs':'consts','low_level/common/mod.rs':'low_level::common','low_level/oneloop/ghost.rs':'low_level::oneloop::ghost','low_level/oneloop/gluon.rs':'low_level::oneloop::gluon',
'low_level/oneloop/thermal/mod.rs':'low_level::oneloop::thermal','low_level/oneloop/thermal/zero_matsubara.rs':'low_level::oneloop::thermal::zero_matsubara','low_level/oneloop/thermal/zero_momentum.rs':'low_level::oneloop::thermal::zero_momentum','low_level/oneloop/thermal/ghost.rs':'low_level::oneloop::thermal::ghost','low_level/oneloop/thermal/gluon.rs':'low_level::oneloop::thermal::gluon','ym/ghost.rs':'ym::ghost','ym/gluon.rs':'ym::gluon','ym/thermal.rs':'ym::thermal','qcd/thermal.rs':'qcd::thermal','qcd/gluon.rs':'qcd::gluon','qcd/ghost.rs':'qcd::ghost'}
def blocks(s):
    """yield (modpath list, fn header) walking braces"""
    s=re.sub(r'//[^\n]*','',s)
    stack=[];depth=0
    tok=re.compile(r'(?:pub(?:\(crate\))?\s+)?mod (\w+)\s*\{|pub (extern "C" )?fn (\w+)\s*(<.*?>)?\s*\(([^)]*)\)\s*(?:->\s*([\w<>:, ]+?))?\s*\{|[{}]',re.S)
    for m in tok.finditer(s):
        t=m.group(0)
        if m.group(1): stack.append((m.group(1),depth)); depth+=1
        elif m.group(3):
            yield [x[0] for x in stack],bool(m.group(2)),m.group(3),m.group(4) or '',[a.strip() for a in ' '.join(m.group(5).split()).split(',') if a.strip()],(m.group(6) or '').strip()
            depth+=1
        elif t=='{': depth+=1
        else:
            depth-=1
            while stack and stack[-1][1]==depth: stack.pop()
def scan():
    out=[]
    for f,p in FILES.items():
        for mods,ext,n,g,a,r in blocks(open(ROOT+f).read()):
            out.append((p,mods,ext,n,g,a,r))
    return out
if __name__=='__main__':
    for e in scan():
        if 'inlines' in e[1] or 'tests' in e[1]: continue
        print(e)
