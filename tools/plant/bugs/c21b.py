ID="c21-common-memo"; PROP="C21"
NEEDS="two documents in one process with the same providers and priorities but other static properties"
BREAKS="the second document is given the static properties of the first (or escapes their validation)"
EDITS=[("variantlib/variants_json.py", '''    def _process(self, variant_table: VariantsJsonDict) -> None:
        validator = KeyTrackingValidator(None, variant_table)  # type: ignore[arg-type]
        self._process_common(validator)
''', '''    def _process(self, variant_table: VariantsJsonDict) -> None:
        validator = KeyTrackingValidator(None, variant_table)  # type: ignore[arg-type]

        # All wheels of a project share the common part, do not validate it again.
        common_key = json.dumps(
            [
                variant_table.get(VARIANT_INFO_DEFAULT_PRIO_KEY),
                variant_table.get(VARIANT_INFO_PROVIDER_DATA_KEY),
            ]
        )
        if (known := _KNOWN_COMMON.get(common_key)) is None:
            self._process_common(validator)
            _KNOWN_COMMON[common_key] = VariantInfo(**self.copy_as_kwargs())
        else:
            super().__init__(**known.copy_as_kwargs())
'''), ("variantlib/variants_json.py", '''@dataclass(init=False)
class VariantsJson''', '''_KNOWN_COMMON: dict[str, VariantInfo] = {}


@dataclass(init=False)
class VariantsJson''')]
DEMO='''
from variantlib.variants_json import VariantsJson
def doc(vals):
    return {"default-priorities": {"namespace": ["a"]}, "providers": {"a": {"install-time": False}},
            "static-properties": {"a": {"f": vals}}, "variants": {"x": {"a": {"f": ["1"]}}}}
VariantsJson(doc(["1"]))
check(VariantsJson(doc(["2", "1"])).static_properties == {"a": {"f": ["2", "1"]}}, "other static properties")
ok()
'''
