"""Generates specs/tables/ucs2_upcase.json: the case folding of UCS-2 strings.  The set of
code units that fold is that of Windows' $UpCase as the library documents it (tools/upcase_keys.json);
what each folds to is the simple upper case mapping of Unicode."""
import json, os, unicodedata
here = os.path.dirname(os.path.abspath(__file__))
keys = json.load(open(os.path.join(here, "upcase_keys.json")))


def upper(c):
    s = chr(c).upper()
    if len(s) == 1:
        return ord(s)
    # the simple mapping where the full mapping is longer: the title case letter
    t = chr(c).title()
    return ord(t) if len(t) == 1 and t != chr(c) else c


json.dump([[k, upper(k)] for k in keys], open(os.path.join(here, "..", "specs", "tables", "ucs2_upcase.json"), "w"))
