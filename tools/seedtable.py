import json,os,re
missed = {'c20-wedge-long': 'missed at first; added chains of many factors (C01, C02, C06, C20)', 'c10-tiny-weight': 'missed at first; added weights of every magnitude', 'c15-sin-memo':'missed at first; added histories of neighbouring inputs (signs of zero, last bit)','c02-literal-narrow':'missed at first; added large magnitudes','c20-collate-count':'missed at first; added hundreds of monomials','c04-degree-order':'missed at first; added the polynomial part','c08-const-factor':'missed at first; added chained constants','c13-last-wide':'missed at first; added wide positions','c18-lut-narrow':'missed at first; added wide entities','c08-div-power':'missed at first; added user-defined scalars to C08','c08-div-guard':'missed at first; added values of extreme scale','c19-next-pow':'missed at first; added 64-bit words'}
rows=["| bug | caught by | needs, in order to show | note |","|---|---|---|---|"]
d='/verif/seeded'
for b in sorted(os.listdir(d)):
    m=json.load(open(f'{d}/{b}/meta.json'))
    n=re.sub(r'\s+',' ',m['needs']).replace('|','\\|')
    rows.append(f"| {b} | {m['property']} | {n} | {missed.get(b,'')} |")
p='/verif/DESIGN.md'; s=open(p).read()
b0='<!-- seeded table -->'; b1='<!-- end -->'
t=b0+'\n'+'\n'.join(rows)+'\n'+b1
if 'SEEDED_TABLE' in s: s=s.replace('SEEDED_TABLE',t)
else:
    i=s.index(b0); j=s.index(b1)+len(b1); s=s[:i]+t+s[j:]
open(p,'w').write(s)
