#!/usr/bin/env python3
"""Writes harness/h/ucd.go: the reference character data of the oracles.

Source: the Unicode 14 tables of the pinned upstream commit (first commit of
/repo), i.e. a snapshot taken once, not the working tree. --check compares the
snapshot with Python's unicodedata (Unicode 15) for plausibility.
"""
import re, subprocess, sys, unicodedata

base = subprocess.check_output(['git', '-C', '/repo', 'rev-list', '--max-parents=0', 'HEAD'], text=True).split()[0]
def show(p):
    return subprocess.check_output(['git', '-C', '/repo', 'show', f'{base}:{p}'], text=True)

def uni(p):
    return [(int(a, 16), int(b, 16), c) for a, b, c in re.findall(r'\{0x([0-9A-Fa-f]+), 0x([0-9A-Fa-f]+), (pr\w+)\}', show(p))]

def rw(p, name):
    s = show(p)
    i = s.index(f'var {name} = table{{')
    s = s[i:s.index('\n}', i)]
    return [(int(a, 16), int(b, 16)) for a, b in re.findall(r'\{0x([0-9A-Fa-f]+), 0x([0-9A-Fa-f]+)\}', s)]

cats = ['prXX', 'prPrepend', 'prCR', 'prLF', 'prControl', 'prExtend', 'prRegionalIndicator', 'prSpacingMark', 'prL', 'prV', 'prT', 'prLV', 'prLVT', 'prZWJ', 'prExtendedPictographic']
gr = uni('runewidth/uniseg/graphemeproperties.go')
ea = [(a, b) for a, b, c in uni('runewidth/uniseg/eastasianwidth.go') if c in ('prW', 'prF')]
ep = [(a, b) for a, b, c in uni('runewidth/uniseg/emojipresentation.go') if c == 'prEmojiPresentation']

def merge(rows):
    out = []
    for r in sorted(rows):
        if out and out[-1][1] + 1 == r[0] and out[-1][2:] == r[2:]:
            out[-1] = (out[-1][0], r[1]) + r[2:]
        else:
            out.append(r)
    return out

tabs = {'ucdWide': merge(ea), 'ucdEmoji': merge(ep)}
T = 'runewidth/runewidth_table.go'
for n in ('combining', 'doublewidth', 'ambiguous', 'narrow', 'emoji'):
    tabs['rw' + n.capitalize()] = merge(rw(T, n))
tabs['rwNonprint'] = merge(rw('runewidth/runewidth.go', 'nonprint'))
grm = merge([(a, b, cats.index(c)) for a, b, c in gr])

if '--check' in sys.argv:
    bad = 0
    wide = set()
    for a, b in tabs['ucdWide']:
        wide.update(range(a, b + 1))
    new15 = 0
    for cp in range(0x110000):
        ch = chr(cp)
        if 0xd800 <= cp <= 0xdfff:
            continue
        w = unicodedata.east_asian_width(ch) in 'WF'
        if w != (cp in wide):
            if unicodedata.category(ch) == 'Cn':
                continue
            bad += 1
            print('east asian width differs: U+%04X %s' % (cp, unicodedata.name(ch, '?')))
    ext = {}
    for a, b, c in grm:
        for x in range(a, b + 1):
            ext[x] = cats[c]
    for cp in range(0x110000):
        c = unicodedata.category(chr(cp))
        g = ext.get(cp, 'prXX')
        if c in ('Mn', 'Me') and g not in ('prExtend',):
            bad += 1
            print('grapheme property differs: U+%04X %s %s' % (cp, c, g))
        if g == 'prExtend' and c not in ('Mn', 'Me', 'Mc', 'Cf', 'Sk', 'Lm'):
            bad += 1
            print('grapheme property differs: U+%04X %s %s' % (cp, c, g))
    print('differences with Unicode', unicodedata.unidata_version, ':', bad)
    sys.exit(0)

with open('/verif/harness/h/ucd.go', 'w') as f:
    f.write('// Code generated by tools/gen_ucd.py; DO NOT EDIT.\n\npackage h\n\n')
    f.write('// Grapheme cluster break classes.\nconst (\n')
    for i, c in enumerate(cats):
        f.write(f'\t{"g" + c[2:]} = {i}\n')
    f.write(')\n\n')
    f.write('// first, last, class\nvar ucdGrapheme = []int32{\n')
    for a, b, c in grm:
        f.write(f'\t0x{a:x}, 0x{b:x}, {c},\n')
    f.write('}\n')
    for n in sorted(tabs):
        f.write(f'\nvar {n} = []int32{{\n')
        for a, b in tabs[n]:
            f.write(f'\t0x{a:x}, 0x{b:x},\n')
        f.write('}\n')
