#!/usr/bin/env python3
"""Token-level mutants of /repo (development aid): writes those that compile and pass the repository's tests to /tmp/mut/*.diff."""
import re, os, subprocess, queue, sys
from concurrent.futures import ThreadPoolExecutor
FILES={'src/operators/crossover.rs':'C01 C02 C03 C04 C05','src/operators/mutation.rs':'M01 M02','src/operators/selection.rs':'S01 S02 S03 S04 E07',
'src/operators.rs':'C04 R01 W01','src/population.rs':'P01 P02','src/stats.rs':'T01 T02','src/individual.rs':'W01','src/model.rs':'B01 B02 E01',
'src/algorithms.rs':'E01 E02 E08','src/algorithms/ga.rs':'E02 E04 E05 E07','src/algorithms/aga.rs':'E06 E02 E04 E05 E07','src/evolution.rs':'E03 E04 E02 E05','src/lib.rs':'I01 O01'}
RULES=[(r' < ',' <= '),(r' <= ',' < '),(r' > ',' >= '),(r' >= ',' > '),(r' == ',' != '),(r' != ',' == '),(r' && ',' || '),(r' \|\| ',' && '),
(r' \+ 1\b',''),(r' - 1\b',''),(r' \+ ',' - '),(r' - ',' + '),(r' \* ',' / '),(r' / ',' * '),(r'\b0\b','1'),(r'\b1\b','0'),(r'\b1\b','2'),(r'\b2\b','3'),(r'\b0\.0\b','1.0'),(r'\b1\.0\b','0.5'),
(r'\.\.=','..'),(r'(?<!\.)\.\.(?=[a-z(])','..='),(r'\btrue\b','false'),(r'\bfalse\b','true'),(r'\bmin\b','max'),(r'\bmax\b','min'),(r'parent1','parent2'),(r'parent2','parent1'),
(r'\.start\b','.end'),(r'\.end\b','.start'),(r'next1','next2'),(r'next2','next1'),(r'first\(\)','last()'),(r'last\(\)','first()'),(r'crossover_rate','mutation_rate'),(r'saturating_sub','wrapping_sub'),(r'floor','round'),(r'!(?=[a-z(])',''),(r'is_empty','is_empty')]
def muts():
    for f in FILES:
        src=open('/repo/'+f).read(); cut=src.find('#[cfg(test)]'); lines=src.split('\n'); pos=0
        for n,l in enumerate(lines):
            start=pos; pos+=len(l)+1
            if cut>=0 and start>=cut: break
            s=l.strip()
            if not s or s.startswith(('//','#','use ','pub use','mod ','where','pub trait','impl','pub fn','fn ')) : continue
            code=l.split(' //')[0]
            for pat,new in RULES:
                for m in re.finditer(pat,code):
                    nl=l[:m.start()]+new+l[m.end():]
                    if nl!=l: yield f,n,nl
            if s.endswith(';') and not s.startswith(('let ','return','}')): yield f,n,re.match(r'\s*',l).group()+';'
def work(slot,k,f,n,nl):
    wt=f'/tmp/mut/wt{slot}'
    if not os.path.exists(wt): subprocess.run(f'git clone -q /repo {wt} && cp -a /repo/target {wt}/target',shell=True,check=True)
    lines=open('/repo/'+f).read().split('\n'); lines[n]=nl
    open(f'{wt}/{f}','w').write('\n'.join(lines))
    try: r=subprocess.run('timeout 60 cargo test --workspace --offline >/dev/null 2>&1',shell=True,cwd=wt).returncode
    except Exception: r=1
    if r==0:
        d=subprocess.run('git diff',shell=True,cwd=wt,stdout=subprocess.PIPE,text=True).stdout
        p=f'/tmp/mut/{k:04d}.diff'; open(p,'w').write(d); print(p,FILES[f],flush=True)
    subprocess.run('git checkout -q -- .',shell=True,cwd=wt)
q=queue.Queue(); [q.put(i) for i in range(4)]
def job(a):
    s=q.get()
    try: work(s,*a)
    finally: q.put(s)
ms=[(k,)+m for k,m in enumerate(muts())]
print(len(ms),file=sys.stderr)
with ThreadPoolExecutor(4) as ex: list(ex.map(job,ms))
