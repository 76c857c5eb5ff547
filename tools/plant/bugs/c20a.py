ID="c20-digest-memo"; PROP="C20"
NEEDS="two sets in one process that differ only in which feature has which value"
BREAKS="the second set is given the hash, and the label, of the first"
EDITS=[("variantlib/models/variant.py", '''VARIANT_HASH_LENGTH = 8

''', '''VARIANT_HASH_LENGTH = 8

# Digests already computed, by the features and the values they were computed from.
_KNOWN_DIGESTS: dict[tuple[frozenset[tuple[str, str]], frozenset[str]], str] = {}

'''), ("variantlib/models/variant.py", '''        hash_object = hashlib.sha256()
''', '''        key = (
            frozenset((x.namespace, x.feature) for x in self.properties),
            frozenset(x.value for x in self.properties),
        )
        if len(key[0]) == len(key[1]) == len(self.properties) and (
            known := _KNOWN_DIGESTS.get(key)
        ):
            return known

        hash_object = hashlib.sha256()
'''), ("variantlib/models/variant.py", '''        return hash_object.hexdigest()[:VARIANT_HASH_LENGTH]
''', '''        digest = hash_object.hexdigest()[:VARIANT_HASH_LENGTH]
        _KNOWN_DIGESTS[key] = digest
        return digest
''')]
DEMO='''
from variantlib.models.variant import VariantDescription, VariantProperty
P = VariantProperty
a = VariantDescription([P("a", "f", "1"), P("a", "g", "2")]).hexdigest
b = VariantDescription([P("a", "f", "2"), P("a", "g", "1")]).hexdigest
check(a != b, "one hash for two sets")
check(a == VariantDescription([P("a", "g", "2"), P("a", "f", "1")]).hexdigest, "order matters")
ok()
'''
