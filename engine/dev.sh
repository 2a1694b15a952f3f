#!/bin/bash
# dev helper: dev.sh HARNESS PROOF [jcv options] - prepares (cached by content) and runs one proof
cd /verif
python3 - "$1" <<'P'
import sys; sys.path.insert(0,'/verif'); import run, os
run.gen_headers()
h=run.Harness(f'/verif/harness/{sys.argv[1]}.cpp')
jobs=[(run.ENGINE+'/rt.cpp',False),(h.path,True)]+[(s,False) for s in run.sources(h.groups)]
b=run.compile_all(jobs); j=run.engine()
cmd=[j,b[h.path],b[run.ENGINE+'/rt.cpp']]
for s in run.sources(h.groups): cmd+=['--lib',b[s]]
for m in h.merge: cmd+=['--merge',m]
for k in h.keep: cmd+=['--keep-text',k]
key=run.sha(*cmd); out=f'/tmp/prep-{h.name}.bc'
if not (os.path.exists(out) and os.path.exists(out+'.k') and open(out+'.k').read()==key):
    r=run.sh(cmd+['--prep',out]); print(r.stdout[-3000:]); open(out+'.k','w').write(key)
open('/tmp/jcvbin','w').write(j)
P
[ -n "$2" ] || { $(cat /tmp/jcvbin) /tmp/prep-$1.bc --prepared --list; exit; }
P=$2; H=$1; shift 2
$(cat /tmp/jcvbin) /tmp/prep-$H.bc --prepared --proof $P --out /tmp/o-$P.json "$@" 2>&1 | tail -40
python3 - <<P
import json,re
d=json.load(open('/tmp/o-$P.json'))
print(d['proof'],d['status'],'paths',d['paths'],'wall %.1f'%d['wall_s'],'steps',d['steps'],'queries',d['queries'],'unk',d['queries_unknown'],'solver %.1f'%d['solver_s'],d.get('why'),'covers',d['covers'],'cuts',d['loop_cuts'],'infeasible',d['infeasible'],str(d.get('undecided'))[:600])
for f in d.get('failures',[])[:4]:
    print('FAIL',f['obligation'],'|',f['detail'][:300]); print('   ',' '.join(i['name'].replace(' ','_')+'='+i['value'] for i in f['inputs'])[:900])
    print('   ','\n      <- '.join(re.sub(r'<\(lambda[^>]*>','<λ>',w)[:150] for w in f['where'].split(' <- ')[:9]))
P
