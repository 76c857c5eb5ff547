ID="c20-value-order"; PROP="C20"
NEEDS="a set with two values of one feature, given in two orders"
BREAKS="the two orders get different hashes and labels"
EDITS=[("variantlib/models/variant.py", '''            object.__setattr__(self, "properties", sorted(self.properties))
''', '''            # Values of one feature are kept in their order of preference.
            object.__setattr__(
                self,
                "properties",
                sorted(self.properties, key=lambda x: (x.namespace, x.feature)),
            )
''')]
DEMO='''
from variantlib.models.variant import VariantDescription, VariantProperty
P = VariantProperty
a = VariantDescription([P("a", "f", "1"), P("a", "f", "2")]).hexdigest
b = VariantDescription([P("a", "f", "2"), P("a", "f", "1")]).hexdigest
check(a == b, "order matters")
ok()
'''
