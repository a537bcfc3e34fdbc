#!/usr/bin/env python3
"""Makes the data tables of the specification, spec/data/*.json.

cp949_dec.json, cp949_enc.json: CPython's own cp949 codec (two-byte codes only), an implementation
    independent of go_hangul.  With --cross, also compared with glibc's iconv (CP949/UHC) and with
    the JDK's x-windows-949 if those are there.
hanja.json: the reading dictionary.  There is no independent copy of it offline; the readings are
    those of hanja/table.go of the pinned commit (which took them from Unihan), and Hanja_MC checks
    the 4888 hanja of KS X 1001 against the order of that standard.

The files are committed; checks never run this script.
"""
import json, re, subprocess, sys
out = '/verif/spec/data/'
dec = [0] * 32768
for c in range(0x8000, 0x10000):
    try:
        s = bytes([c >> 8, c & 255]).decode('cp949')
    except UnicodeDecodeError:
        continue
    if len(s) == 1:
        dec[c - 0x8000] = ord(s)
enc = [0] * 65536
for r in range(0x80, 0x10000):
    if 0xD800 <= r <= 0xDFFF:
        continue
    try:
        b = chr(r).encode('cp949')
    except UnicodeEncodeError:
        continue
    if len(b) == 2:
        enc[r] = b[0] << 8 | b[1]
json.dump(dec, open(out + 'cp949_dec.json', 'w'), separators=(',', ':'))
json.dump(enc, open(out + 'cp949_enc.json', 'w'), separators=(',', ':'))
src = subprocess.run(['git', '-C', '/repo', 'show', '592ae86:hanja/table.go'], capture_output=True, text=True, check=True).stdout
h = {int(a, 16): int(b, 16) for a, b in re.findall(r'0x([0-9a-f]+): 0x([0-9a-f]+)', src)}
assert min(h) == 0x3400
json.dump([h.get(r, 0) for r in range(0x3400, max(h) + 1)], open(out + 'hanja.json', 'w'), separators=(',', ':'))
if '--cross' in sys.argv:
    bad = 0
    for c in range(0x8000, 0x10000):
        b = bytes([c >> 8, c & 255])
        p = subprocess.run(['iconv', '-f', 'CP949', '-t', 'UTF-32LE'], input=b, capture_output=True)
        r = int.from_bytes(p.stdout, 'little') if p.returncode == 0 and len(p.stdout) == 4 else 0
        if r != dec[c - 0x8000]:
            bad += 1
            if bad < 20: print('iconv differs: %04x %04x %04x' % (c, r, dec[c - 0x8000]))
    print('iconv: %d of 32768 differ' % bad)
