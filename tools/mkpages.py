#!/usr/bin/env python3
"""Writes harness/codepages.inc: reference tables of the single-byte code pages from Python's codecs (EBCDIC: POSIX dd conv=ascii)."""
import os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
U = 0xFFFF
def cod(n):
    t = []
    for c in range(256):
        try: t.append(ord(bytes([c]).decode(n)))
        except Exception: t.append(U)
    return t
def ebcdic():
    r = subprocess.run(['dd', 'conv=ascii', 'bs=256', 'count=1', 'status=none'], input=bytes(range(256)), stdout=subprocess.PIPE).stdout
    return list(r)
eb = ebcdic()
# 9 positions where the traditional (Version 7 / BSD dd) table differs from the POSIX one: the library documents the former
for a, b in {0x4a:0x5b,0x4f:0x21,0x5a:0x5d,0x5f:0x5e,0x6a:0x7c,0x9a:0xcb,0xa1:0x7e,0xad:0xd5,0xbd:0xe5}.items(): eb[a] = b
c437 = cod('cp437')
for a, b in zip(list(range(1, 32)) + [127], [0x263A,0x263B,0x2665,0x2666,0x2663,0x2660,0x2022,0x25D8,0x25CB,0x25D9,0x2642,0x2640,0x266A,0x266B,0x263C,0x25BA,0x25C4,0x2195,0x203C,0xB6,0xA7,0x25AC,0x21A8,0x2191,0x2193,0x2192,0x2190,0x221F,0x2194,0x25B2,0x25BC,0x2302]): c437[a] = b  # glyphs of the control codes
P = [c437, cod('cp850'), cod('cp858'), eb] + [cod('cp%d' % i) for i in range(1250, 1259)] + [cod('iso8859_%d' % i) for i in (2,3,4,5,6,7,8,9,10,11,13,14,15,16)]
mac = cod('mac_roman'); mac[13] = 10; P.append(mac)
kr, ku = cod('koi8_r'), cod('koi8_u'); P += [kr, ku]
ru = list(ku)
for a, b in {0x93:0x201C,0x96:0x201D,0x97:0x2014,0x98:0x2116,0x99:0x2122,0x9B:0xBB,0x9C:0xAE,0x9D:0xAB,0x9F:0xA4,0xAE:0x45E,0xBE:0x40E}.items(): ru[a] = b
P.append(ru)
assert len(P) == 31
open(V + '/harness/codepages.inc', 'w').write('// written by tools/mkpages.py; 0xFFFF = not defined by the code page\nstatic const uint16_t ref_pages[31][256] = {\n' + ',\n'.join('{' + ','.join(hex(x) if x > 9 else str(x) for x in p) + '}' for p in P) + '};\n')
# compare with the library
import re
s = open('/repo/lib/input.cpp').read(); i = s.index('codepages[38]'); j = s.index('void Input::file_init')
for k, (m, ref) in enumerate(zip(re.finditer(r'//([^\n]*)\n  \{([^{}]*)\}', s[i:j]), P)):
    lib = [int(x, 0) for x in m.group(2).replace('\n','').strip().rstrip(',').split(',')]
    d = [(hex(a), hex(x), hex(y)) for a, (x, y) in enumerate(zip(lib, ref)) if x != y and y != U]
    print(m.group(1), len(d), d[:40])
