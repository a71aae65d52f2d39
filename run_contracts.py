import sys, importlib, pathlib
sys.path.insert(0, str(pathlib.Path(__file__).parent/'lib')); sys.path.insert(0, str(pathlib.Path(__file__).parent/'contracts'))
import dv, time
for f in sys.argv[1].split(','): importlib.import_module(f)
only = sys.argv[2] if len(sys.argv)>2 else None
unroll = int(sys.argv[3]) if len(sys.argv)>3 and sys.argv[3].isdigit() else None
seen=[]
for p, specs in dv.REGISTRY.items():
    for s in specs:
        if s in seen or s['fn'].__module__ not in sys.argv[1].split(',') or (only and only not in s['fn'].__name__): continue
        seen.append(s)
t=time.time()
if '-d' in sys.argv:
    import symex; symex.Executor.debug=True
for o in dv.run_specs(seen, unroll=unroll):
    print(f"== {o['title']} ({o['time']:.1f}s) {o['error'] or ''}")
    if o['error'] and 'trace' in o: print(o['trace'][-1200:])
    for r in o['results']:
        print(f"   {r['status']:8} {r['time']:.2f}s {r['backend']} {r['name']} {r['reason'] or ''}")
        if r['status']=='failed': print('      ', (r['model'] or '')[:1200].replace('\n','\n       '))
    if '-l' in sys.argv:
        for l in o.get('loops',[]): print('   loop',l)
print(time.time()-t)
