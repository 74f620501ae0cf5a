"""Helper to write a planted bug: mk(id, prop, [(file, old, new)...], demo_body, needs, breaks)"""
import json, os, subprocess
V='/verif/seeded'; R='/tmp/mkrepo'  # git clone of /repo
def mk(i, prop, edits, demo, needs, breaks):
    """demo: a main body, or (starting with `use`/`mod kit`) a whole file"""
    d=f'{V}/{i}'; os.makedirs(d, exist_ok=True)
    orig={}
    diff=''
    try:
        for f,old,new in edits:
            p=f'{R}/{f}'; s=open(p).read(); orig.setdefault(p,s)
            assert s.count(old)>=1, (i,f,'not found',old)
            assert s.count(old)==1, (i,f,'ambiguous',s.count(old),old)
            open(p,'w').write(s.replace(old,new))
        diff=subprocess.run(['git','-C',R,'diff'],capture_output=True,text=True).stdout
    finally:
        for p,s in orig.items(): open(p,'w').write(s)
    open(f'{d}/patch.diff','w').write(diff)
    if not demo.lstrip().startswith(('mod kit','use crate')):
        demo='mod kit;\nuse kit::*;\n\nfn main() {\n'+'\n'.join('    '+l if l else l for l in demo.strip('\n').splitlines())+'\n}\n'
    open(f'{d}/demo.rs','w').write(demo)
    json.dump({"property":prop,"needs":needs,"what_it_breaks":breaks},open(f'{d}/meta.json','w'),indent=1)
    print('wrote',i)
