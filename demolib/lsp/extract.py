"""extract.py REPO OUT name=file ... : copies the named top-level items out of the real sources,
then compiles; names the compiler misses are looked up in the same files and added."""
import re, subprocess, sys, os
repo, here, work = sys.argv[1], sys.argv[2], sys.argv[3]
want = [a.split('=') for a in sys.argv[4:]]
S = 'crates/aptos-language-server/src/'
texts = {}
def text(f):
    if f not in texts:
        p = os.path.join(repo, f if f.startswith('crates/') else S + f)
        texts[f] = open(p).read()
    return texts[f]
def items(f, name):
    t = text(f)
    out = []
    for m in re.finditer(r'^(?:#\[[^\n]*\]\n)*(?:pub(?:\([a-z]+\))? )?(?:const |static |fn |struct |enum |type |impl(?:<[^>]*>)? (?:[\w:<>]+ for )?)' + re.escape(name) + r'\b[^\n]*', t, re.M):
        s = m.start()
        rest = t[s:]
        e = re.search(r'^(?:\}|\)|\]);?\n', rest, re.M)
        line = rest[m.end()-s-1:m.end()-s]
        if line == ';' or line == '}':
            out.append(rest[:m.end()-s])
        elif e:
            out.append(rest[:e.end()])
    return out
got = []
files = []
for name, f in want:
    if f not in files: files.append(f)
    got.append((name, f))
for _ in range(12):
    body = ''
    for n, f in got:
        x = items(f, n)
        if not x:
            print('item not found:', n, f); sys.exit(99)
        body += '\n'.join(x) + '\n'
    main = open(os.path.join(here, 'main.rs')).read()
    open(os.path.join(work, 'main.rs'), 'w').write('mod shim;\nuse shim::*;\n' + body + main)
    open(os.path.join(work, 'shim.rs'), 'w').write(open(os.path.join(here, 'shim.rs')).read())
    r = subprocess.run(['rustc', '--edition', '2021', '-A', 'warnings', '-o', os.path.join(work, 'demo'), os.path.join(work, 'main.rs')], capture_output=True, text=True)
    if r.returncode == 0: sys.exit(0)
    miss = set(re.findall(r'(?:cannot find (?:function|value|type|struct[^`]*|function, [^`]*)|undeclared type|unresolved) `(\w+)`', r.stderr)) | set(re.findall(r'could not find `(\w+)`', r.stderr))
    add = [(n, f) for n in miss for f in files if (n, f) not in got and items(f, n)]
    if not add: break
    got += add
print(r.stderr[:4000]); sys.exit(99)
