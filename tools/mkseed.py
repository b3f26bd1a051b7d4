"""mk(id, prop, needs, breaks, edits=[(file, old, new)], kind='A'|'B', demo)"""
import os, subprocess, json, shutil
def mk(id, prop, needs, breaks, edits, kind, demo):
    S='/tmp/sr'
    if not os.path.isdir(S+'/.git'): subprocess.run(['cp','-a','/repo/.',S+'/'],check=True) if os.path.isdir(S) else subprocess.run(['cp','-a','/repo',S],check=True)
    subprocess.run(f'git -C {S} fetch -q /repo HEAD && git -C {S} reset -q --hard FETCH_HEAD',shell=True,check=True)
    for f,o,n in edits:
        p=f'{S}/{f}'; s=open(p).read(); assert s.count(o)==1,(id,f,o,s.count(o)); open(p,'w').write(s.replace(o,n))
    d=f'/verif/seeded/{id}'; os.makedirs(d,exist_ok=True)
    open(d+'/patch.diff','w').write(subprocess.run(['git','-C',S,'diff'],capture_output=True,text=True).stdout)
    subprocess.run(['git','-C',S,'checkout','-q','--','.'])
    shutil.copy('/verif/tools/demo/' + {'A': 'demo.sh', 'B': 'demoB.sh', 'P': 'demoP.sh'}[kind], d+'/demo.sh')
    open(d+('/demo.py' if kind=='P' else '/demo.rs'),'w').write(demo.lstrip('\n'))
    json.dump({"property":prop,"needs":needs,"what_it_breaks":breaks},open(d+'/meta.json','w'),indent=1)
    # the change must touch lines of the original repository
    import re
    ok = False
    cur = None
    for l in open(d + '/patch.diff'):
        if l.startswith('--- a/'): cur = l[6:].strip()
        m = re.match(r'@@ -(\d+)(?:,(\d+))? ', l)
        if m: ln = int(m.group(1)) - 1
        elif l.startswith('-') and not l.startswith('---'):
            ln += 1
            b = subprocess.run(['git','-C','/repo','blame','-s','-L',f'{ln},{ln}',cur],capture_output=True,text=True).stdout
            if '2a4a70f' in b[:12] : ok = True
        elif l.startswith(' '): ln += 1
    adds = sum(1 for l in open(d + '/patch.diff') if l.startswith('+') and not l.startswith('+++'))
    print(id, 'original lines' if ok else 'NO ORIGINAL LINE REMOVED (only additions?)')
