import json,pathlib,re
s=open('/verif/DESIGN.md').read()
rows=["| planted bug | property | what it breaks | needs |","|---|---|---|---|"]
for d in sorted(pathlib.Path('/verif/seeded').iterdir()):
    m=json.loads((d/'meta.json').read_text())
    rows.append(f"| {d.name} | {m['property']} | {m['what_it_breaks']} | {m['needs']} |")
kf=json.load(open('/verif/known_findings.json'))
kf=kf.get("findings",kf[list(kf)[0]])
fx=[f"* **{x['property']}** `{x['commit']}` {x['what'].split(x['commit'],1)[1].strip()}" for x in kf]
for mark,txt in (("SEEDED","\n".join(rows)),("FIXED","\n".join(fx))):
    s=re.sub(f"<!-- {mark} -->.*?<!-- /{mark} -->",lambda _:f"<!-- {mark} -->\n{txt}\n<!-- /{mark} -->",s,flags=re.S)
open('/verif/DESIGN.md','w').write(s)
