ID="c16-shared-seen"; PROP="C16"
NEEDS="two threads filtering variants at the same time"
BREAKS="the set used for dropping duplicates is shared, so one call drops variants that another call has seen"
EDITS=[("variantlib/resolver/filtering.py", '''    seen = set()

    def _should_include(vdesc: VariantDescription) -> bool:
        """
        Check if any of the namespaces in the variant description are not allowed.
        """
        validate_type(vdesc, VariantDescription)

        if vdesc.hexdigest in seen:''', '''    seen = _SEEN
    seen.clear()

    def _should_include(vdesc: VariantDescription) -> bool:
        """
        Check if any of the namespaces in the variant description are not allowed.
        """
        validate_type(vdesc, VariantDescription)

        if vdesc.hexdigest in seen:'''), ("variantlib/resolver/filtering.py", '''logger = logging.getLogger(__name__)
''', '''logger = logging.getLogger(__name__)

# hashes of the variants already yielded
_SEEN: set[str] = set()
''')]
DEMO='''
import threading
from variantlib.api import VariantDescription, VariantProperty
from variantlib.resolver.filtering import remove_duplicates
vs = [VariantDescription([VariantProperty("a", "f", str(i))]) for i in range(3)]
g1 = remove_duplicates(vs)
first = next(g1)
out = []
t = threading.Thread(target=lambda: out.extend(remove_duplicates(vs)))
t.start(); t.join()
rest = list(g1)
check(len(out) == 3 and len(rest) == 2, len(out), len(rest))
ok()
'''
