#!/usr/bin/env python3
"""mkseed.py FILE.py...: each file defines SEEDS = [dict(id, property, edits=[(file, old, new[, count])], needs, breaks,
demo='parser'|'script', cases=..., files={name: text})]. Builds /verif/seeded/<id>/, checks demo on both trees and
runs the property's check against the patched copy."""
import sys, os, subprocess, shutil, json, runpy
V='/verif'; W='/tmp/seedwork'
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
PARSER_DEMO='''#!/bin/bash
# every case below must parse without a crash or a hang, and give the expected tree where one is listed
here="$(cd "$(dirname "$0")" && pwd)"; repo="$(pwd)"
. "$here/run.sh"
build_parser "$here" "$repo"
rc=0; n=0
for f in "$here"/case*.move; do
  n=$((n+1))
  timeout 20 "$PARSER_BIN" --tree < "$f" > "$W/out" 2> "$W/err" || { echo "FAIL $(basename $f): crash or hang"; grep panicked -A1 "$W/err" | head -3; rc=1; continue; }
  e="${f%.move}.tree"
  if [ -f "$e" ] && ! diff -q "$e" "$W/out" >/dev/null; then echo "FAIL $(basename $f): different tree"; diff "$e" "$W/out" | head -10; rc=1; fi
done
[ $n -gt 0 ] || rc=1
exit $rc
'''
def prep():
    sh(f'rm -rf {W}; mkdir -p {W}')
    sh(f'cp -a /repo {W}/clean; cp -a /repo {W}/bug')
def one(s):
    d=f'{V}/seeded/{s["id"]}'
    sh(f'rm -rf {d}'); os.makedirs(d)
    b=f'{W}/bug'
    sh(f'git -C {b} checkout -q -- . ; git -C {b} fetch -q; git -C {b} reset -q --hard $(git -C /repo rev-parse HEAD)')
    for e in s['edits']:
        f,old,new=e[:3]; n=e[3] if len(e)>3 else 1
        p=f'{b}/{f}'; t=open(p).read()
        assert t.count(old)==n, (s['id'],f,t.count(old),old)
        open(p,'w').write(t.replace(old,new))
    diff=sh(f'git -C {b} diff').stdout
    open(f'{d}/patch.diff','w').write(diff)
    json.dump({'property':s['property'],'needs':s['needs'],'what_it_breaks':s['breaks']},open(f'{d}/meta.json','w'),indent=1)
    if s.get('demo')=='parser':
        for x in ['Cargo.toml','run.sh','src','shims']: sh(f'cp -r {V}/demolib/parser/{x} {d}/')
        open(f'{d}/demo.sh','w').write(PARSER_DEMO)
        for i,c in enumerate(s['cases']):
            open(f'{d}/case{i}.move','w').write(c)
        if s.get('tree'):
            sh(f'cd {W}/clean && . {d}/run.sh && build_parser {d} {W}/clean && for f in {d}/case*.move; do $PARSER_BIN --tree < $f > ${{f%.move}}.tree; done')
    else:
        for lib in s.get('libs',[]): sh(f'cp -r {V}/demolib/{lib}/. {d}/')
        for n,t in s['files'].items():
            os.makedirs(os.path.dirname(f'{d}/{n}') or d, exist_ok=True)
            open(f'{d}/{n}','w').write(t)
    r1=sh(f'cd {W}/clean && bash {d}/demo.sh'); r2=sh(f'cd {b} && bash {d}/demo.sh')
    ck=sh(f'VERIF_REPO={b} VERIF_DIR={W}/v {V}/engine/target/release/sa {s["property"]}', env={**os.environ})
    ok = r1.returncode==0 and r2.returncode not in (0,99)
    print(f'{s["id"]} [{s["property"]}] demo clean={r1.returncode} bug={r2.returncode} {"OK" if ok else "DEMO-BAD"} check={"CAUGHT" if ck.returncode==1 and "VIOLATION" in ck.stdout else "missed rc=%d"%ck.returncode}')
    if not ok: print(r1.stdout[-600:], r1.stderr[-600:], '---', r2.stdout[-600:], r2.stderr[-300:])
    nn=0
    for l in ck.stdout.splitlines():
        if l.startswith("  "): nn=nn+1
        if l.startswith("  ") and nn<6: print('     ', l.strip()[:260])
    if ck.returncode not in (0,1): print(ck.stderr[-500:])
    sys.stdout.flush()
if __name__=='__main__':
    os.makedirs(f'{W}', exist_ok=True); prep()
    os.makedirs(f'{W}/v', exist_ok=True); shutil.copy(f'{V}/known_findings.txt', f'{W}/v/')
    only=None
    args=[]
    for a in sys.argv[1:]:
        if a.startswith('--only='): only=a[7:].split(',')
        else: args.append(a)
    for f in args:
        for s in runpy.run_path(f)['SEEDS']:
            if only and s['id'] not in only: continue
            try: one(s)
            except AssertionError as e: print('ASSERT', e)
    sh(f'rm -rf {W}')
