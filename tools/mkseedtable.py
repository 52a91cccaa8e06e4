"""Writes the table of planted bugs in DESIGN.md (between its markers) from seeded/*/meta.json."""
import glob, json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for f in sorted(glob.glob(root + '/seeded/*/meta.json')):
    m = json.load(open(f))
    rows.append('| %s | %s | %s |' % (os.path.basename(os.path.dirname(f)), m['needs'], m.get('caught_by', m['property'])))
text = open(root + '/DESIGN.md').read()
table = '| planted bug | needs, to manifest | caught by |\n|---|---|---|\n' + '\n'.join(rows)
text = re.sub(r'(<!-- seeds -->\n).*?(\n<!-- /seeds -->)', lambda m: m.group(1) + table + m.group(2), text, flags=re.S)
open(root + '/DESIGN.md', 'w').write(text)
