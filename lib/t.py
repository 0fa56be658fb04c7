import sys,os
sys.path.insert(0,'/verif/lib')
import lin, core
w='/tmp/w'; os.makedirs(w,exist_ok=True)
c=lin.load(w)
pid=sys.argv[1]
b=getattr(lin,pid)(c)
v=core.houdini(b,w+'/%s.rs'%pid)
print('verified',v.verified,'errors',v.errors,'ms',v.total_ms,'dropped',v.dropped)
for f in v.failures: print(f['name'],'|',f['msg'],f['lines'],f['text'])
print('FRONT',v.front[:5],'RL',v.rlimit)
