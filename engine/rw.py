import sys,json,subprocess,os
sys.path.insert(0,os.path.dirname(os.path.abspath(__file__)))
import front,collections
spec,h,tags=sys.argv[1:4]
W='/tmp/w/rw.%s'%h; os.makedirs(W,exist_ok=True)
p,e=front.compile_ir(spec if '/' in spec else '/verif/specs/'+spec,W)
if not p: print(e[:4000]); sys.exit(1)
subprocess.run(['python3-vt',os.path.dirname(os.path.abspath(__file__))+'/worker.py',p,h,tags,W+'/out.json','j=8']+sys.argv[4:])
r=json.load(open(W+'/out.json'))
print(r['status'],r['error'],'explore %.1f solve %.1f'%(r.get('t_explore',0),r.get('t_solve',0)),'covers',r['covers'],'total',r.get('total_obligations'))
print({k:v for k,v in r['stats'].items() if k!='loops'})
for k,v in r['stats'].get('loops',{}).items(): print('  loop',k,v)
c=collections.Counter((o['tag'],o['status'],o['by']) for o in r['obligations']); print(c)
seen=set()
for o in r['obligations']:
    if o['status']!='ok':
        k=(o['label'],tuple(o['where'][-2:]))
        if k in seen: continue
        seen.add(k)
        print(o['tag'],o['label'],o['where'][-3:],o['status'],o['by'],o['t'],[t[:40] for t in o['tapes'][:2]])
sl=sorted(r['obligations'],key=lambda o:-o['t'])[:5]
print('slowest',[(o['label'],o['by'],o['t']) for o in sl])
