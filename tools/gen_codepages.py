#!/usr/bin/env python3
"""Writes specs/tables/codepages.json: the published mapping tables, from Python's codecs
(Unicode Consortium / Microsoft / Apple tables), Windows 932 without the user-defined
area as CP932.TXT has it. The Apple Celtic, Gaelic and Dingbats tables, which Python does
not have, are written out here."""
import json, os
PY = {"ascii": "ascii", "mac_central_eur_roman": "mac_latin2", "windows874": "cp874"}
names = ["ascii"] + ["iso8859_%d" % i for i in list(range(1, 12)) + [13, 14, 15, 16]] + \
    ["koi8_r", "koi8_u", "mac_arabic", "mac_central_eur_roman", "mac_croatian", "mac_cyrillic", "mac_farsi",
     "windows874"] + ["windows125%d" % i for i in range(9)]


def dec(bs, name):
    try:
        s = bs.decode(name)
    except UnicodeDecodeError:
        return -1
    return ord(s) if len(s) == 1 else -1


single = {}
for n in names:
    pn = PY.get(n, n.replace("windows125", "cp125"))
    single[n] = [dec(bytes([x]), pn) for x in range(256)]
ascii = [chr(i) for i in range(128)]
roman80 = "ÄÅÇÉÑÖÜáàâäãåçéèêëíìîïñóòôöõúùûü"
celtic = roman80 + "†°¢£§•¶ß®©™´¨≠ÆØ∞±≤≥¥µ∂∑∏π∫ªºΩæø¿¡¬√ƒ≈∆«»…\u00a0ÀÃÕŒœ–—“”‘’÷◊ÿŸ⁄€‹›Ŷŷ‡·Ỳỳ‰ÂÊÁËÈÍÎÏÌÓÔ♣ÒÚÛÙıÝýŴŵẄẅẀẁẂẃ"
gaelic = roman80 + "†°¢£§•¶ß®©™´¨≠ÆØḂ±≤≥ḃĊċḊḋḞḟĠġṀæøṁṖṗɼƒſṠ«»…\u00a0ÀÃÕŒœ–—“”‘’ṡẛÿŸṪ€‹›Ŷŷṫ·Ỳỳ⁊ÂÊÁËÈÍÎÏÌÓÔ♣ÒÚÛÙıÝýŴŵẄẅẀẁẂẃ"
single["mac_celtic"] = list(range(128)) + [ord(c) for c in celtic]
single["mac_gaelic"] = list(range(128)) + [ord(c) for c in gaelic]
d = [-1] * 256
for i in range(0x21):
    d[i] = i
for i in range(0x21, 0x7f):
    d[i] = 0x2700 + i - 0x20
for i, c in {0x25: 0x260e, 0x2a: 0x261b, 0x2b: 0x261e, 0x48: 0x2605, 0x6c: 0x25cf, 0x6e: 0x25a0, 0x73: 0x25b2,
             0x74: 0x25bc, 0x75: 0x25c6, 0x77: 0x25d7}.items():
    d[i] = c
d[0x7f] = 0x7f
for i in range(14):
    d[0x80 + i] = 0x2768 + i
for i in range(0xa1, 0xa8):
    d[i] = 0x2761 + i - 0xa1
for i, c in enumerate([0x2663, 0x2666, 0x2665, 0x2660]):
    d[0xa8 + i] = c
for i in range(10):
    d[0xac + i] = 0x2460 + i
for i in range(0xb6, 0xff):
    d[i] = 0x2776 + i - 0xb6
d[0xd5], d[0xd6], d[0xd7] = 0x2192, 0x2194, 0x2195
d[0xf0] = -1
single["mac_dingbats"] = d
# Windows 932: lead bytes have a row of 256 trail bytes
w1 = [dec(bytes([x]), "cp932") if x < 0x80 or 0xa1 <= x <= 0xdf else -1 for x in range(256)]
rows = {}
for lead in list(range(0x81, 0xa0)) + list(range(0xe0, 0xfd)):
    row = [dec(bytes([lead, t]), "cp932") if not 0xf0 <= lead <= 0xf9 else -1 for t in range(256)]
    rows[str(lead)] = row
out = {"single": single, "w932": [[w1]], "leads": [[int(k), v] for k, v in rows.items()]}
p = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "specs", "tables", "codepages.json")
json.dump(out, open(p, "w"))
print(os.path.getsize(p))
