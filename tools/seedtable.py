import json,os,re
rows=[]
for d in sorted(os.listdir('/verif/seeded')):
    m=json.load(open(f'/verif/seeded/{d}/meta.json'))
    rows.append(f"| `{d}` | {m['property']} | {str(m['needs']).strip()} |".replace('\n',' '))
t="| planted bug (`seeded/…`) | caught by | what it needs |\n|---|---|---|\n"+"\n".join(rows)
s=open('/verif/DESIGN.md').read()
a='<!-- seeds -->';b='<!-- /seeds -->'
if '@SEEDS@' in s: s=s.replace('@SEEDS@',f'{a}\n{t}\n{b}')
else: s=re.sub(a+'.*?'+b,lambda _:f'{a}\n{t}\n{b}',s,flags=re.S)
open('/verif/DESIGN.md','w').write(s)
