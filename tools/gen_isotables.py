#!/usr/bin/env python3
# Reference decode tables of the supported ISO-8859 pages, taken from Python's codecs (independent of the code under test).
pages = [1,2,3,4,9,10,13,14,15]
print("// generated by tools/gen_isotables.py from Python codecs; index = IsoLatin page - 1, 0 = undefined byte")
print("static const unsigned short ISO_REF[9][128] = {")
for p in pages:
    row=[]
    for b in range(128,256):
        try: row.append(ord(bytes([b]).decode('iso8859-%d'%p)))
        except UnicodeDecodeError: row.append(0)
    print("{"+",".join(map(str,row))+"},")
print("};")
