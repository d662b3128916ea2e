"""Try an edit against a check: mut.py ID FILE <<< 'old\n====\nnew' (several edits separated by a line of ####).
The edit is applied to a scratch copy; the check's verdict is printed. Development aid only."""
import subprocess, sys, os, shutil
M='/tmp/mutrepo'
def fresh():
    os.makedirs(M, exist_ok=True)
    subprocess.run(['rsync','-a','--delete','--exclude=target','--exclude=.git','--exclude=node_modules','/repo/',M+'/'],check=True) if shutil.which('rsync') else \
    subprocess.run(f'rm -rf /tmp/mutrepo && mkdir /tmp/mutrepo && cd /repo && tar cf - --exclude=./target --exclude=./.git --exclude=node_modules . | tar xf - -C {M}',shell=True,check=True)
def run(idn, edits, label='', expect=None):
    fresh()
    for f, old, new in edits:
        p=f'{M}/{f}'; s=open(p).read()
        if old not in s:
            print('EDIT DOES NOT APPLY', f, old[:60]); return
        open(p,'w').write(s.replace(old,new,1))
    env=dict(os.environ, VERIF_REPO=M, VERIF_DIR='/tmp/vd')
    os.makedirs('/tmp/vd/evidence',exist_ok=True)
    if os.path.exists('/verif/known_findings.txt'): shutil.copy('/verif/known_findings.txt','/tmp/vd/known_findings.txt')
    r=subprocess.run(['/verif/engine/target/release/sa',idn],capture_output=True,text=True,env=env)
    out=[l for l in r.stdout.splitlines() if not l.startswith('KNOWN')]
    verdict={0:'quiet',1:'CAUGHT'}.get(r.returncode,f'rc={r.returncode}')
    flag='' if expect is None else (' ok' if (expect=='bug')==(r.returncode==1) else '   <<<<<<<< UNEXPECTED')
    print(f'[{label}] {idn}: {verdict}{flag}')
    for l in out[1:4] if (flag.strip()!='ok' or os.environ.get('MUT_V')) else out[1:2]: print('     ',l[:260])
    if r.returncode not in (0,1): print(r.stderr[-500:])
if __name__=='__main__':
    exec(open(sys.argv[1]).read())
