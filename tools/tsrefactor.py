"""tsrefactor.py: edits of the TypeScript package (tools/refactors/ts_edits.py), in a scratch copy; ok=True keep the behaviour and H01/H02 have to stay
quiet, ok=False break it and one has to alarm.  Run with python3-vt; a line that ends in <<<<< is a miss."""
import sys, os, shutil, re; ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, ROOT); sys.setrecursionlimit(200000)
from checks import *
from checks import bindings
from eng import pipeline
pr=Progs(); pr.get('invariant'); 
E=[]
def R(name, *eds, ok=True): E.append((name, eds, ok))
C='invariant-contract.ts'; I='invariant.ts'; U='utils.ts'; S='wasm-serializer.ts'
FIX=(I,"getUserPositionAmount(key: PoolKey, owner: ActorId)","getUserPositionAmount(owner: ActorId)"),(I,"getUserPositionAmount(key as any, owner as any, DEFAULT_ADDRESS)","getUserPositionAmount(owner as any, DEFAULT_ADDRESS)")
exec(open(ROOT + '/tools/refactors/ts_edits.py').read())
for name, eds, ok in E:
    shutil.rmtree('/tmp/tsrefactor/sdk', ignore_errors=True); shutil.copytree('/repo/sdk/src','/tmp/tsrefactor/sdk/src')
    for d in ('src','io','calc'):
        if not os.path.exists('/tmp/tsrefactor/'+d): os.symlink('/repo/'+d,'/tmp/tsrefactor/'+d)
    for f,a,b in FIX+tuple(eds):
        p='/tmp/tsrefactor/sdk/src/'+f; s=open(p).read()
        if f == I and a == FIX[0][1] and a not in s: continue
        if a not in s and a==FIX[1][1]: continue
        assert a in s,(name,a)
        open(p,'w').write(s.replace(a,b))
    pipeline.REPO='/tmp/tsrefactor'
    pr.mem.pop('sdk/src',None); ctx=Ctx(pr); ctx.tier='quick'
    for f in ('spec_codec','spec_deploy_binding','spec_bindings','spec_event_bindings','spec_listener','spec_client','spec_helpers','spec_answers','spec_prices'):
        try: getattr(bindings,f)(ctx)
        except AnalysisError as e: ctx.ob(f, False, str(e))
    bad=[o for o in ctx.obs if not o.ok]
    print(name, 'quiet' if not bad else 'ALARM', '' if (not bad)==ok else '<<<<<', [(o.key,o.detail[:120]) for o in bad[:3]], flush=True)
