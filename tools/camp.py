"""Campaign: many edits against many checks at once. camp.py FILE...: each file defines LIST = [dict(l=label, k='ok'|'bug', p=property or None, e=[(file, old, new)], c='ids')].
Development aid only; works on scratch copies under /tmp/camp."""
import subprocess, sys, os, shutil
from concurrent.futures import ThreadPoolExecutor
SA='/tmp/camp/sa'
ALLP='S01 S02 S03 S04 S05 S06 S07 S08 S09 S10'.split()
ALLS='L01 L02 L03 L05 L06 L07 L08 L09 L14 L16 T01 D01 D02 D03 D07 D08'.split()
def one(i, m):
    M=f'/tmp/camp/r{i}'; D=f'/tmp/camp/d{i}'
    shutil.rmtree(M, ignore_errors=True); os.makedirs(M); os.makedirs(D+'/evidence', exist_ok=True)
    subprocess.run(f'cd /repo && tar cf - --exclude=./target --exclude=./.git --exclude=node_modules . | tar xf - -C {M}',shell=True,check=True)
    for e in m['e']:
        f,old,new=e[:3]
        s=open(f'{M}/{f}').read()
        if old not in s: shutil.rmtree(M); return f"[{m['l']}] EDIT DOES NOT APPLY {f} {old[:50]!r}"
        open(f'{M}/{f}','w').write(s.replace(old,new, -1 if len(e)>3 and e[3]=='all' else 1))
    shutil.copy('/verif/known_findings.txt', D+'/known_findings.txt')
    fs=[e[0] for e in m['e']]
    chk=[]
    if 'c' in m: chk=m['c'].split()
    else:
        if any('syntax/src' in f for f in fs): chk+=ALLP
        if any('syntax/src' not in f for f in fs) or any('ast' in f or 'syntax_editor' in f for f in fs): chk+=ALLS
    if m['k']=='bug' and m.get('p') and not os.environ.get('CAMP_ALL'): chk=[m['p']]
    caught=[]; lines=[]
    for c in chk:
        r=subprocess.run([SA,c],capture_output=True,text=True,env=dict(os.environ,VERIF_REPO=M,VERIF_DIR=D))
        if r.returncode!=0:
            caught.append(c if r.returncode==1 else f'{c}(rc={r.returncode})')
            ls=[l for l in r.stdout.splitlines() if not l.startswith('KNOWN')][1:3]+([r.stderr[-300:]] if r.returncode!=1 else [])
            lines+=['      '+c+': '+l.strip()[:230] for l in ls]
    shutil.rmtree(M); shutil.rmtree(D)
    good = (not caught) if m['k']=='ok' else (m.get('p') in caught if m.get('p') else bool(caught))
    flag='' if good else ('   <<<< FALSE ALARM' if m['k']=='ok' else '   <<<< MISSED')
    return f"[{m['l']}] {m['k']} {' '.join(caught) or 'quiet'}{flag}" + ('' if good and not os.environ.get('MUT_V') else '\n'+'\n'.join(lines))
if __name__=='__main__':
    os.makedirs('/tmp/camp',exist_ok=True); shutil.copy('/verif/engine/target/release/sa',SA)
    L=[]
    for f in sys.argv[1:]:
        ns={}; exec(open(f).read(), ns); L+=ns['LIST']
    with ThreadPoolExecutor(int(os.environ.get('CAMP_J','7'))) as ex:
        res=list(ex.map(lambda t: one(*t), enumerate(L)))
    bad=0
    for r in res:
        if '<<<<' in r or 'APPLY' in r: bad+=1
        print(r)
    print(len(L),'edits,',bad,'to look at')
