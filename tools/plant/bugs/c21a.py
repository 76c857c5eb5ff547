ID="c21-label-prefix"; PROP="C21"
NEEDS="a label that begins well and ends badly (a stray line end, say)"
BREAKS="metadata with an invalid variant label is accepted"
EDITS=[("variantlib/variants_json.py", '''            validator.list_matches_re(VALIDATION_VARIANT_LABEL_REGEX)
            variant_labels = list(variants.keys())
''', '''            variant_labels = list(variants.keys())
            for variant_label in variant_labels:
                if (
                    len(variant_label) > VARIANT_LABEL_LENGTH
                    or VALIDATION_VARIANT_LABEL_REGEX.match(variant_label) is None
                ):
                    raise ValidationError(
                        f"{validator.key}: invalid variant label {variant_label!r} "
                        f"(must match regex {VALIDATION_VARIANT_LABEL_REGEX})"
                    )
'''), ("variantlib/variants_json.py", '''from variantlib.constants import VARIANT_INFO_STATIC_PROPERTIES_KEY
''', '''from variantlib.constants import VARIANT_INFO_STATIC_PROPERTIES_KEY
from variantlib.constants import VARIANT_LABEL_LENGTH
''')]
DEMO='''
from variantlib.variants_json import VariantsJson
for lab in ("ok-no", "ok\\n", "a/b"):
    try:
        VariantsJson({"default-priorities": {"namespace": []}, "providers": {}, "variants": {lab: {"a": {"f": ["1"]}}}})
    except ValueError:
        continue
    check(False, f"label {lab!r} accepted")
VariantsJson({"default-priorities": {"namespace": []}, "providers": {}, "variants": {"ok.1_": {"a": {"f": ["1"]}}}})
ok()
'''
