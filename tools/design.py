#!/usr/bin/env python3-vt
"""Regenerates DESIGN.md from design_head.md, properties, seeds and design_tail.md (run after meta.py)."""
import json, os, glob
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def main():
    import meta, design_notes
    o = [open(H + '/tools/design_head.md').read().rstrip(), '', '## 4. Properties', '']
    fl = json.load(open(H + '/floors.json'))
    for d, tech, note, level, na in meta.P:
        i = d['id']
        o.append('### %s %s' % (i, d['title']))
        if na: o += ['Not applicable: ' + na, '']; continue
        o.append('*Quantified over:* %s. *Spec:* `specs/%s.py`, floor %s obligations per run.' % (d['quantifier']['text'], i.lower(), fl.get(i, '-')))
        o.append(''); o.append(design_notes.N.get(i, '').strip()); o.append('')
    o += ['## 5. Planted bugs and the checks that catch them', '', '| seed | property (check that reports it) | what it breaks | needs |', '|---|---|---|---|']
    for m in sorted(glob.glob(H + '/seeded/*/meta.json')):
        j = json.load(open(m)); c = design_notes.MISSED.get(os.path.basename(os.path.dirname(m)))
        o.append('| %s | %s | %s | %s |' % (os.path.basename(os.path.dirname(m)), ('%s: %s' % (j['property'], c)) if c else '%s (caught)' % j['property'], j['what_it_breaks'].replace('|', '/'), j['needs'].replace('|', '/')))
    o += ['', open(H + '/tools/design_tail.md').read().rstrip(), '']
    open(H + '/DESIGN.md', 'w').write('\n'.join(o))
if __name__ == '__main__': main()
