"""Makes classes.txt and breaktests.txt from the Unicode 17.0.0 data files.

Run once, by hand; the checks read only the results. The encoding of a class is
gover/spec/spec.go's: low nybble the break class, high nybble the conjunct class.
"""
import re, sys
D = sys.argv[1]
G = dict(CR=1, LF=2, Control=3, Extend=4, ZWJ=5, Regional_Indicator=6, Prepend=7,
         SpacingMark=8, L=9, V=10, T=11, LV=12, LVT=13)
I = dict(Consonant=0x10, Extend=0x20, Linker=0x30)
cls = [0] * 0x110000
def rows(p):
    for l in open(p, encoding='utf-8'):
        l = l.split('#')[0].strip()
        if not l: continue
        f = [x.strip() for x in l.split(';')]
        m = re.fullmatch(r'([0-9A-F]+)(?:\.\.([0-9A-F]+))?', f[0])
        yield int(m[1], 16), int(m[2] or m[1], 16), f[1:]
for a, b, f in rows(D + '/auxiliary/GraphemeBreakProperty.txt'):
    for c in range(a, b + 1):
        assert cls[c] == 0
        cls[c] = G[f[0]]
for a, b, f in rows(D + '/emoji/emoji-data.txt'):
    if f[0] == 'Extended_Pictographic':
        for c in range(a, b + 1):
            assert cls[c] == 0, hex(c)
            cls[c] = 14
for a, b, f in rows(D + '/DerivedCoreProperties.txt'):
    if f[0] == 'InCB':
        for c in range(a, b + 1):
            assert cls[c] < 16
            cls[c] |= I[f[1]]
with open('classes.txt', 'w') as o:
    o.write('# Unicode 17.0.0: first last class (hex); everything else is 0\n')
    s = 0
    for c in range(1, 0x110001):
        if c == 0x110000 or cls[c] != cls[s]:
            if cls[s]:
                o.write('%X %X %02X\n' % (s, c - 1, cls[s]))
            s = c
with open('breaktests.txt', 'w') as o:
    o.write('# GraphemeBreakTest-17.0.0: + boundary, - none\n')
    for l in open(D + '/auxiliary/GraphemeBreakTest.txt', encoding='utf-8'):
        l = l.split('#')[0].strip()
        if l:
            o.write(l.replace('÷', '+').replace('×', '-') + '\n')
print(sorted({'%02X' % c for c in cls}))
