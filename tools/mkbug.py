#!/usr/bin/env python3
"""mkbug.py FILE.py...: each file defines ID, PROP, EDITS=[(path, old, new)...], NEEDS, BREAKS, MAIN, and optionally PAIR (demo helper).
Writes seeded/ID. Development helper; /repo is left as it was."""
import subprocess,json,sys,os
HERE=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for f in sys.argv[1:]:
    g={}
    exec(open(f).read(),g)
    k=g['ID']; d=f'{HERE}/seeded/{k}'
    subprocess.run(['bash',f'{HERE}/tools/newdemo.sh',k,g.get('PAIR','pair')],check=True)
    saved={}
    try:
        for p,o,n in g['EDITS']:
            p='/repo/'+p
            s=open(p).read(); saved.setdefault(p,s)
            assert s.count(o)==1,(k,p,s.count(o),o)
            open(p,'w').write(s.replace(o,n))
        diff=subprocess.run(['git','-C','/repo','diff'],capture_output=True,text=True).stdout
    finally:
        for p,s in saved.items(): open(p,'w').write(s)
    open(d+'/patch.diff','w').write(diff)
    open(d+'/src/main.rs','w').write(g['MAIN'].lstrip())
    json.dump({'property':g['PROP'],'needs':g['NEEDS'],'what_it_breaks':g['BREAKS']},open(d+'/meta.json','w'),indent=1)
    print('wrote',d)
