"""rewrite the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json (by hand: python3 tools/bugs_table.py)"""
import glob, json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
also = json.load(open(root + '/tools/also_caught.json')) if os.path.exists(root + '/tools/also_caught.json') else {}
rows = ['| bug | what it does | needs | caught by |', '|---|---|---|---|']
for d in sorted(glob.glob(root + '/seeded/*')):
    m = json.load(open(d + '/meta.json'))
    b = os.path.basename(d)
    rows.append(f"| {b} | {m['what_it_breaks']} | {m['needs']} | {also.get(b, m['property'])} |")
p = root + '/DESIGN.md'
t = open(p).read()
t = re.sub(r'<!--BUGS-->(.*?)(<!--/BUGS-->|\Z)', lambda _: '<!--BUGS-->\n' + '\n'.join(rows) + '\n<!--/BUGS-->', t, count=1, flags=re.S)
open(p, 'w').write(t)
