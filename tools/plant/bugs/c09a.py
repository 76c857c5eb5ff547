ID="c09-optional-list-bool"; PROP="C09"
NEEDS="check_variant_supported() with a list of enabled optional providers, and an optional provider not in it"
BREAKS="a non-empty list enables every optional provider"
EDITS=[("variantlib/api.py", '''    with PluginLoader(
        variant_info=variant_info,
        venv_python_executable=venv_python_executable,
        enable_optional_plugins=enable_optional_plugins,
    ) as plugin_loader:
        supported_vprops = list(
            itertools.chain.from_iterable(
                provider_cfg.to_list_of_properties()
                for provider_cfg in plugin_loader.get_supported_configs().values()
            )
        )

    VariantConfiguration.get_config()''', '''    with PluginLoader(
        variant_info=variant_info,
        venv_python_executable=venv_python_executable,
        enable_optional_plugins=bool(enable_optional_plugins),
    ) as plugin_loader:
        supported_vprops = list(
            itertools.chain.from_iterable(
                provider_cfg.to_list_of_properties()
                for provider_cfg in plugin_loader.get_supported_configs().values()
            )
        )

    VariantConfiguration.get_config()''')]
DEMO='''
plugin("alpha", [("f", ["1"], False)])
plugin("beta", [("f", ["1"], False)])
sys.path.insert(0, SITE); os.environ["PYTHONPATH"] += os.pathsep + SITE
from variantlib.api import *
from variantlib.api import check_variant_supported
from variantlib.variants_json import VariantsJson
pr = {n: {"requires": [n + "-plugin"], "plugin-api": n + "_plugin:P", "optional": True} for n in ("alpha", "beta")}
vj = VariantsJson(info({"b": {"beta": {"f": ["1"]}}}, ["alpha", "beta"], providers=pr))
check(check_variant_supported(variant_info=vj, enable_optional_plugins=["beta"]), "beta")
check(not check_variant_supported(variant_info=vj, enable_optional_plugins=["alpha"]), "beta used though only alpha is enabled")
ok()
'''
