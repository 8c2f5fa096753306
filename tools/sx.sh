#!/bin/bash
# developer helper: sx.sh JOBFILE [symex options]
cd /verif/harness; rm -f /tmp/o1; ulimit -s unlimited
J=$1; shift
time /verif/engine/target/release/symex --ir ${IR:-target/sym/deps/harness.ll} --jobs $J --out /tmp/o1 "$@"
python3 - $J <<'EOP'
import json,sys
nm=[l.split('\t')[0] for l in open(sys.argv[1])]
names=[];jobs={}
for l in open('/tmp/o1'):
    d=json.loads(l)
    if d['t']=='fns': names=d['names']; continue
    d.pop('fns',None)
    if d['t']=='viol': print('VIOL',d); continue
    j=jobs.setdefault(d['job'],{})
    for k,v in d.items():
        if k in('max_steps','max_pc','max_query_us','ms','exprs'): j[k]=max(j.get(k,0),v)
        elif k=='complete': j[k]=j.get(k,True) and v
        elif k=='covers': j[k]=j.get(k,0)|int(v,16)
        elif k in('job','pid','parent','t'): pass
        elif isinstance(v,int): j[k]=j.get(k,0)+v
        elif isinstance(v,list): j.setdefault(k,[]).extend(v[:2])
    j['procs']=j.get('procs',0)+1
for k,j in sorted(jobs.items()):
    print('%-22s %s paths %-7d steps %5.1fM q %-6d bw %-6d solver %6.2fs ms %-6d procs %-4d cov %s %s'%(nm[k],'ok  ' if j['complete'] and j['procs']==1+j['spawned'] else 'PART',j['paths'],j['steps']/1e6,j['queries'],j['bytewise'],j['solver_us']/1e6,j['ms'],j['procs'],[i for i in range(128) if j['covers']>>i&1],j['errors'][:1]))
EOP
