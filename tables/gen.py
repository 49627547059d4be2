#!/usr/bin/env python3
"""Regenerates encodings.txt: reference mappings taken from Python's codecs (independent of keramics)."""
names = {'Ascii':'ascii','Koi8R':'koi8_r','Koi8U':'koi8_u','MacArabic':'mac_arabic','MacCentralEurRoman':'mac_latin2',
 'MacCroatian':'mac_croatian','MacCyrillic':'mac_cyrillic','MacFarsi':'mac_farsi'}
for i in (1,2,3,4,5,6,7,8,9,10,11,13,14,15,16): names[f'Iso8859_{i}']=f'iso8859_{i}'
for i in (874,1250,1251,1252,1253,1254,1255,1256,1257,1258): names[f'Windows{i}']=f'cp{i}'
out=[]
for n in sorted(names):
    row=[]
    for b in range(256):
        try: row.append('%04x'%ord(bytes([b]).decode(names[n])))
        except UnicodeDecodeError: row.append('-')
    out.append(f'{n} '+' '.join(row))
for lead in range(256):
    row=[]
    for t in range(256):
        try:
            s=bytes([lead,t]).decode('cp932')
            row.append('%04x'%ord(s) if len(s)==1 else '-')
        except UnicodeDecodeError: row.append('-')
    if any(x!='-' for x in row): out.append(f'Windows932:{lead:02x} '+' '.join(row))
row=[]
for b in range(256):
    try: row.append('%04x'%ord(bytes([b]).decode('cp932')))
    except UnicodeDecodeError: row.append('-')
out.append('Windows932 '+' '.join(row))
# cp932: byte sequence that Windows prefers per code point (duplicates exist in the NEC and IBM extensions)
enc=[]
for c in range(0x10000):
    if 0xd800<=c<0xe000: continue
    try: b=chr(c).encode('cp932')
    except UnicodeEncodeError: continue
    enc.append('%04x=%s'%(c,b.hex()))
out.append('Windows932:enc '+' '.join(enc))
open('encodings.txt','w').write('\n'.join(out)+'\n')
