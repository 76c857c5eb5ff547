ID="c20-from-str-number"; PROP="C20"
NEEDS="a value that looks like a number with superfluous zeros, given as text on the command line and as data elsewhere"
BREAKS="the same set gets two hashes depending on how it was given"
EDITS=[("variantlib/models/variant.py", '''        feature = match.group("feature")
        value = match.group("value")
''', '''        feature = match.group("feature")
        value = match.group("value")
        if value.isdecimal() and value.isascii():
            value = str(int(value))
''')]
DEMO='''
import subprocess
from variantlib.models.variant import VariantDescription, VariantProperty
P = VariantProperty
a = VariantDescription([P("a", "f", "010")]).hexdigest
rc, o, e = cli("get-variant-hash", "-p", "a :: f :: 010")
check(rc == 0 and o.strip() == a, f"{a} or {o}")
ok()
'''
