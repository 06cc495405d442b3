"""Rewrite the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json
import pathlib
import re

ROOT = pathlib.Path(__file__).resolve().parent.parent
ALSO = {'s11-unscaled-alias': 'P10', 's17-row-bounds': 'P15', 's01-conversion-key-case': 'P01', 's02-subarray-cached': 'P11', 's24-observes-any': 'P23', 's22-merge-order': 'P11',
        's02-power-sign': 'P01'}
rows = ['| id | property | what it breaks | needs | caught by |', '|---|---|---|---|---|']
for d in sorted((ROOT / 'seeded').iterdir()):
    m = json.loads((d / 'meta.json').read_text())
    other = f" ({ALSO[d.name]})" if d.name in ALSO else ''
    rows.append(f"| {d.name} | {m['property']} | {m['what_it_breaks']} | {m['needs']} | {m['property']}{other} |")
table = '<!-- seeded -->\n' + '\n'.join(rows) + '\n<!-- /seeded -->'
f = ROOT / 'DESIGN.md'
text = f.read_text()
if '@@SEEDED@@' in text:
    text = text.replace('@@SEEDED@@', table)
else:
    text = re.sub(r'<!-- seeded -->.*<!-- /seeded -->', lambda _: table, text, flags=re.S)
f.write_text(text)
