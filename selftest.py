"""Self test of the encoding: the regex matcher against re on random texts, proxies against the host types"""
import sys; sys.dont_write_bytecode = True
from symx import core, env, pool
bs=env.load_symbolic()
import symx.dt
print(bs.runtime.__file__)
# differential rx test
import re, random
from symx import rx
from symx.vals import SymStr
from symx.instr import SymStrView
random.seed(1)
pats=[r'a*b', r'(a|b)*c', r'^\s*(?P<n>\w+)\s*=\s*(?P<e>.+)$', r'x*', r'(a?)*b', r'(?:ab|a)(bc)?', r'\b\w+\b', r'[^\s"]+', r'(a*?)b', r'(?i)aB', r'(a)|b', r'^a.*$', r'a{2,3}', r'(?=a)\w', r'(?!a)\w+', r'(ab)+', r'((a)|b)*', r'\.0*$', r'\.0*([,}\]])',r'(a*)*',r'(a|ab)(c|bcd)(d*)']
for name in dir(bs.parser):
    v=getattr(bs.parser,name)
    if isinstance(v,re.Pattern): pats.append(v.pattern)
n=0
for p in pats:
    r=re.compile(p); r2=re.compile(p,re.M)
    for rr in (r,r2):
      for _ in range(60):
        s=''.join(random.choice('aabbc xcd.0,=\n\\"(9') for _ in range(random.randrange(8)))
        v=SymStrView(s)
        for meth in ('match','search','fullmatch'):
            m1=getattr(rr,meth)(s); m2=rx.METHODS[meth](rr,v)
            a=None if m1 is None else (m1.span(),m1.groups(),m1.groupdict())
            b=None if m2 is None else (m2.span(),m2.groups(),m2.groupdict())
            assert a==b,(p,s,meth,a,b)
        assert rr.findall(s)==rx.findall(rr,v),(p,s,rr.findall(s),rx.findall(rr,v))
        assert rr.split(s)==rx.split(rr,v)
        assert rr.sub('<>',s)==rx.sub(rr,'<>',v)
        n+=1
print('rx ok',n)
