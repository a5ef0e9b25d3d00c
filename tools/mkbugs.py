import json,os
d='/verif/seeded'; out=[]
for i in sorted(os.listdir(d)):
    m=json.load(open(f'{d}/{i}/meta.json'))
    out.append((m['property'],i,m['what_it_breaks'].rstrip('.')))
out.sort()
t="| check that catches it | bug | what it does |\n|---|---|---|\n"+"\n".join(f"| {p} | {i} | {w} |" for p,i,w in out)
s=open('/verif/DESIGN.md').read()
a=s.index('## 7. Planted bugs')
s=s[:a]+f"""## 7. Planted bugs

{len(out)} changes are kept in `seeded/` (regenerate this table with `tools/mkbugs.py`).  Each was written from the text of a
property and the code, builds, passes the stable tests, and has a demonstration that fails only with it.  Each is caught by
the quick check of its own property (many by others too).  Those which the checks missed at first, and what was done about them,
are in section 8.

"""+t+"\n"+s[s.index('\n## 8.'):] if '\n## 8.' in s else s[:a]+"## 7. Planted bugs\n\n"+t+"\n"
open('/verif/DESIGN.md','w').write(s)
