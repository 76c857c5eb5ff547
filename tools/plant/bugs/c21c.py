ID="c21-trailing-data"; PROP="C21"
NEEDS="a variant.json followed by remains of an older, longer version"
BREAKS="the damaged document is accepted by everything that reads wheels"
EDITS=[("variantlib/variant_dist_info.py", '''        self._process(json.loads(dist_info_file))
''', '''        if isinstance(dist_info_file, bytes):
            dist_info_file = dist_info_file.decode("utf-8")
        # Tolerate a final newline or other padding.
        data, _ = json.JSONDecoder().raw_decode(dist_info_file.lstrip())
        self._process(data)
''')]
DEMO='''
from variantlib.variant_dist_info import VariantDistInfo
import json
s = json.dumps({"default-priorities": {"namespace": []}, "providers": {}, "variants": {"null": {}}})
VariantDistInfo(s + "\\n")
try:
    VariantDistInfo((s + s[20:]).encode())
except ValueError:
    ok()
check(False, "trailing data accepted")
'''
