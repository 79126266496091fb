"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import json, os
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
rows = []
for d in sorted(os.listdir(f'{root}/seeded')):
    m = json.load(open(f'{root}/seeded/{d}/meta.json'))
    rows.append(f"| {d} | {m['needs']} | {m['what_it_breaks']} | {m['property']} |")
p = f'{root}/DESIGN.md'
s = open(p).read()
i = s.index('## Planted bugs')
s = s[:i] + f"""## Planted bugs

Every one compiles, passes the stable tests and has a demonstration; "caught by" names the check which reports it
in the quick tier. {len(rows)} are kept. Others were tried and dropped because the stable tests noticed them or
because they turned out to keep the property.

| id | needs | breaks | caught by |
|---|---|---|---|
""" + '\n'.join(rows) + '\n'
open(p, 'w').write(s)
