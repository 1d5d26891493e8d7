#!/usr/bin/env python3
"""One-off: extract the published cameras (names, model numbers, calibration)
from the sources as reviewed into harness/src/cameras.rs. The result is
committed and is the reference of C10 and C20; it is not regenerated by any check."""
import re, sys, pathlib
src = pathlib.Path(sys.argv[1] if len(sys.argv) > 1 else '/repo') / 'src'
def clean(s):
    s = re.sub(r'/\*.*?\*/', '', s, flags=re.S)
    return re.sub(r'//[^\n]*', '', s)
ids = {}
mod = None
for l in clean((src / 'camera_ids.rs').read_text()).splitlines():
    m = re.match(r'\s*pub mod (\w+)', l)
    if m: mod = m[1]
    m = re.match(r'\s*pub const (\w+): u16 = (\w+);', l)
    if m: ids[(mod, m[1])] = int(m[2], 0) if m[2][0].isdigit() else ids[(mod, m[2])]
# macro name -> vendor module
files = ['canon.rs', 'canon/crw.rs', 'nikon.rs', 'fujifilm.rs', 'sony.rs', 'olympus.rs', 'panasonic.rs',
         'pentax.rs', 'epson.rs', 'dng.rs', 'minolta.rs', 'canon/matrices.rs', 'nikon/matrices.rs', 'fujifilm/matrices.rs', 'olympus/matrices.rs']
macros = {}
for f in files + ['leica.rs', 'apple.rs', 'sigma.rs', 'ricoh.rs', 'jpeg.rs']:
    t = clean((src / f).read_text())
    for m in re.finditer(r'macro_rules! (\w+) \{(.*?)\n\}', t, re.S):
        v = re.search(r'TypeId\(\s*(?:[$]?\w+::)*vendor::(\w+),\s*(?:[$]?\w+::)*camera_ids::(\w+)::[$]', m[2])
        macros[m[1]] = (v[1], v[2]) if v else None
print(macros, file=sys.stderr)
def block(t, start):
    i = t.index('[', start); d = 0
    for j in range(i, len(t)):
        if t[j] == '[': d += 1
        if t[j] == ']':
            d -= 1
            if d == 0: return t[i + 1:j]
def tid(e):
    m = re.match(r'\s*(\w+)!\(\s*(\w+)\s*\)', e)
    if m: v = macros[m[1]]; return (v[0], v[1], m[2])
    m = re.match(r'\s*TypeId\(\s*(?:\w+::)*vendor::(\w+),\s*(?:camera_ids::)?(\w+)::(\w+)\s*,?\s*\)', e)
    return (m[1], m[2], m[3])
models, numbers, mats = [], [], []
for f in files:
    t = clean((src / f).read_text())
    if f == 'canon/crw.rs': continue
    for m in re.finditer(r'static ref (\w*ID_MAP): [^=]*= HashMap::from\(', t):
        b = block(t, m.end() - 1)
        n0 = len(models) + len(numbers)
        for e in re.finditer(r'(\w+)!\(\s*("[^"]*"|0x[0-9a-fA-F_]+|\d+)\s*,\s*(\w+)\s*,?\s*\)|\(\s*("[^"]*"|0x[0-9a-fA-F_]+|\d+)\s*,\s*(\w+!\(\s*\w+\s*\)|TypeId\([^)]*\))\s*,?\s*\)', b):
            if e[1]:
                k = e[2]; v = macros[e[1]]; i = (v[0], v[1], e[3])
            else:
                k = e[4]; i = tid(e[5])
            (models if k[0] == '"' else numbers).append((f, m[1], k, i))
        got = len(models) + len(numbers) - n0
        rough = b.count('!(') or b.count('TypeId(')
        print(f, m[1], got, 'entries;', rough, 'calls', file=sys.stderr)
    for m in re.finditer(r'BuiltinMatrix::new\(', t):
        i = m.end(); d = 1; j = i
        while d:
            d += {'(': 1, ')': -1}.get(t[j], 0); j += 1
        b = t[i:j - 1]
        k = b.rindex('[')
        nums = [int(x) for x in re.findall(r'-?\d+', b[k:])]
        assert len(nums) == 9, b
        h = b[:k].rstrip().rstrip(',')
        h, w = h.rsplit(',', 1); h, bl = h.rsplit(',', 1)
        mats.append((f, tid(h.strip()), int(bl.strip(), 0), int(w.strip(), 0), nums))
    print(f, 'matrices', sum(x[0] == f for x in mats), t.count('BuiltinMatrix::new('), file=sys.stderr)
def W(f): return f[:-3].split('/')[0]
def T(i): return '(%s, %s)' % (ids[('vendor', i[0])], ids[(i[1], i[2])])
out = ['//! The published cameras: names and numbers they write, their identifiers',
       '//! (with the names these have in the C header) and their calibration.',
       '//! Written by tools/snapshot.py; reviewed against the header and dcraw.',
       '', '/// (where, model, (vendor, camera), vendor name, camera name)',
       '#[rustfmt::skip]',
       'pub const MODELS: &[(&str, &str, (u16, u16), &str, &str)] = &[']
for f, m, k, i in models: out.append('    ("%s", %s, %s, "%s", "%s"),' % (W(f), k, T(i), i[0], i[2]))
out += ['];', '', '/// (where, number, (vendor, camera), vendor name, camera name)', '#[rustfmt::skip]',
        'pub const NUMBERS: &[(&str, u32, (u16, u16), &str, &str)] = &[']
for f, m, k, i in numbers: out.append('    ("%s", %s, %s, "%s", "%s"),' % (W(f), k, T(i), i[0], i[2]))
out += ['];', '', '/// (where, (vendor, camera), black, white, matrix)', '#[rustfmt::skip]',
        '#[allow(clippy::type_complexity)]',
        'pub const MATRICES: &[(&str, (u16, u16), u16, u16, [i32; 9])] = &[']
for f, i, b, w, n in mats: out.append('    ("%s", %s, %d, %d, %s),' % (W(f), T(i), b, w, n))
out += ['];', '', '/// every identifier: (module, name, value)', '#[rustfmt::skip]', 'pub const IDS: &[(&str, &str, u16)] = &[']
for (m, n), v in ids.items(): out.append('    ("%s", "%s", %d),' % (m, n, v))
out += ['];', '', '/// the constants of the C header', '#[rustfmt::skip]', 'pub const HEADER: &[(&str, u32)] = &[']
h = re.sub(r'//[^\n]*', '', re.sub(r'/\*.*?\*/', '', (src.parent / 'include/libopenraw/cameraids.h').read_text(), flags=re.S))
hv = {}
for blk in re.findall(r'enum[^{]*\{(.*?)\}', h, re.S):
    last = -1
    for x in blk.split(','):
        x = x.strip()
        if not x: continue
        n, v = x, last + 1
        if '=' in x:
            n, v = [y.strip() for y in x.split('=')]
            v = hv[v] if v in hv else int(v, 0)
        hv[n] = last = v
want = {}
for (m, n), v in ids.items():
    c = ['OR_TYPEID_%s_%s' % (m.upper(), n)]
    if m == 'canon': c.append('OR_TYPEID_CANON_' + n.replace('EOS_', ''))
    if m == 'vendor': c = ['OR_TYPEID_VENDOR_' + n]
    for k in c: want[k] = v
for n, v in hv.items():
    if n.startswith('_'): continue
    if n not in want: print('header only', n, v, file=sys.stderr)
    elif want[n] != v: print('DIFFERS', n, v, want[n], file=sys.stderr)
    out.append('    ("%s", %d),' % (n, v))
out += ['];']
print('\n'.join(out))
