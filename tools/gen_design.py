"""Write the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BEGIN, END = '<!-- planted bugs -->', '<!-- end of planted bugs -->'


def main():
    rows = ['| planted bug | needs | caught by |', '|---|---|---|']
    for path in sorted(glob.glob(os.path.join(HERE, 'seeded/*/meta.json'))):
        with open(path) as f:
            meta = json.load(f)
        needs = meta['needs'].replace('|', '/').replace('\n', ' ')
        caught = [meta['property']] + list(meta.get('also', ()))
        rows.append('| {} | {} | {} |'.format(
            path.split(os.sep)[-2], needs, ', '.join(caught)))
    name = os.path.join(HERE, 'DESIGN.md')
    with open(name) as f:
        text = f.read()
    a, b = text.index(BEGIN) + len(BEGIN), text.index(END)
    with open(name, 'w') as f:
        f.write(text[:a] + '\n' + '\n'.join(rows) + '\n' + text[b:])


if __name__ == '__main__':
    main()
