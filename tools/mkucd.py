# writes harness/ucd.inc: the character sets of every documented class name, computed from the Unicode data files shipped in /repo/unicode
# (the .txt files as published by Unicode; not the C++ tables generated from them, which are what is checked)
import re, sys, collections
R = sys.argv[1] if len(sys.argv) > 1 else '/repo/unicode/'
def rng(s): a = s.split('..'); return int(a[0], 16), int(a[-1], 16)
S = collections.defaultdict(set); first = None
for l in open(R + 'UnicodeData.txt'):
    f = l.split(';'); c = int(f[0], 16)
    if f[1].endswith('First>'): first = c; continue
    S[f[2]].update(range(first if f[1].endswith('Last>') else c, c + 1))
del S['Cs'], S['Co']  # surrogates are no characters; private use has no documented category
for l in open(R + 'Scripts.txt'):
    m = re.match(r'([0-9A-F.]+)\s*;\s*(\w+)\s*#', l)
    if m: lo, hi = rng(m[1]); S[m[2]].update(range(lo, hi + 1))
for l in open(R + 'Blocks.txt'):
    m = re.match(r'([0-9A-F]+\.\.[0-9A-F]+); (.*)', l)
    if m: lo, hi = rng(m[1]); S['Is' + m[2].replace(' ', '')].update(range(lo, hi + 1))
u = lambda *n: set().union(*[S[x] if isinstance(x, str) else x for x in n]); r = lambda a, b: set(range(a, b + 1))
S['C'] = u('Cc', 'Cf'); S['L&'] = u('Ll', 'Lu', 'Lt'); S['L'] = u('L&', 'Lm', 'Lo'); S['M'] = u('Mn', 'Mc', 'Me'); S['N'] = u('Nd', 'Nl', 'No')
S['P'] = u('Pd', 'Ps', 'Pe', 'Pi', 'Pf', 'Pc', 'Po'); S['S'] = u('Sm', 'Sc', 'Sk', 'So'); S['Z'] = u('Zs', 'Zl', 'Zp')
S['ASCII'] = r(0, 0x7F); S['Unicode'] = r(0, 0xD7FF) | r(0xE000, 0x10FFFF); S['Non_ASCII_Unicode'] = S['Unicode'] - S['ASCII']
S['Space'] = u(r(9, 13), {0x85}, 'Z'); S['Word'] = u('L', 'Nd', 'Pc'); ign = r(0, 8) | r(14, 27) | r(0x7F, 0x9F); S['IdentifierIgnorable'] = ign
S['UnicodeIdentifierStart'] = u('L', 'Nl'); S['UnicodeIdentifierPart'] = u('L', 'Nl', 'Pc', 'Mn', 'Mc', 'Nd', 'Cf', ign); S['JavaIdentifierStart'] = u('L', 'Nl', 'Sc', 'Pc'); S['JavaIdentifierPart'] = u('L', 'Nl', 'Sc', 'Pc', 'Mn', 'Mc', 'Nd', 'Cf', ign)
S['CsIdentifierStart'] = u('L', 'Nl', 'Pc', {0x40}); S['CsIdentifierPart'] = u('L', 'Nl', 'Pc', 'Mn', 'Mc', 'Nd', 'Cf')
S['PythonIdentifierStart'] = u('L', 'Nl', {0x1885, 0x1886, 0x2118, 0x212E, 0x309B, 0x309C}); S['PythonIdentifierPart'] = u('L', 'Nl', 'Pc', 'Mn', 'Mc', 'Nd', {0xB7, 0x387, 0x19DA}, r(0x1369, 0x1371))
for k, v in dict(Other='C', Letter='L', Mark='M', Number='N', Punctuation='P', Symbol='S', Separator='Z', Lowercase_Letter='Ll', Uppercase_Letter='Lu', Titlecase_Letter='Lt', Modifier_Letter='Lm', Other_Letter='Lo', Non_Spacing_Mark='Mn', Spacing_Combining_Mark='Mc', Enclosing_Mark='Me', Space_Separator='Zs', Line_Separator='Zl', Paragraph_Separator='Zp', Math_Symbol='Sm', Currency_Symbol='Sc', Modifier_Symbol='Sk', Other_Symbol='So', Decimal_Digit_Number='Nd', Letter_Number='Nl', Other_Number='No', Dash_Punctuation='Pd', Open_Punctuation='Ps', Close_Punctuation='Pe', Initial_Punctuation='Pi', Final_Punctuation='Pf', Connector_Punctuation='Pc', Other_Punctuation='Po', Control='Cc', Format='Cf', d='Nd', l='Ll', u='Lu', w='Word', s='Space').items(): S[k] = S[v]
def ranges(s):
    o = []
    for c in sorted(s):
        if o and o[-1][1] == c - 1: o[-1][1] = c
        else: o.append([c, c])
    return o
out, uniq, idx = [], {}, []
for k in sorted(S):
    t = ','.join('%d,%d' % tuple(x) for x in ranges(S[k]))
    if t not in uniq: uniq[t] = len(uniq); out.append('static const int ucd%d[] = {%s,-1};' % (uniq[t], t))
    idx.append('{"%s",ucd%d,%d}' % (k, uniq[t], t.count(',') // 2 + 1))
open('/verif/harness/ucd.inc', 'w').write('// generated by tools/mkucd.py from UnicodeData.txt, Scripts.txt and Blocks.txt\n' + '\n'.join(out) + '\nstruct UClass { const char *name; const int *r; int n; };\nstatic const UClass uclasses[] = {\n' + ',\n'.join(idx) + '\n};\n')
print(len(idx), 'names')
