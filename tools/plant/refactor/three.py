"""Authoring aid: behaviour-preserving edits of models, validators, documents and inspection commands."""
import sys
W = sys.argv[1] + "/variantlib/"


def ed(f, *prs):
    s = open(W + f).read()
    for a, b in prs:
        assert s.count(a) == 1, (f, s.count(a), a)
        s = s.replace(a, b)
    open(W + f, "w").write(s)


ed("models/variant.py", ('''        for vprop in self.properties:
            hash_object.update(f"{vprop.to_str()}\\n".encode())
''', '''        lines = [f"{vprop.to_str()}\\n" for vprop in self.properties]
        hash_object.update("".join(lines).encode("utf-8"))
'''), ('''        data = asdict(self)

        result: defaultdict[str, dict[str, list[str]]] = defaultdict(
            lambda: defaultdict(list)
        )

        for vprop in data["properties"]:
            namespace = vprop["namespace"]
            feature = vprop["feature"]
            value = vprop["value"]
            result[namespace][feature].append(value)

        return dict(result)
''', '''        result: dict[str, dict[str, list[str]]] = {}
        for vprop in self.properties:
            features = result.setdefault(vprop.namespace, {})
            features.setdefault(vprop.feature, []).append(vprop.value)
        return result
'''), ('''        vprops = [
            VariantProperty(namespace=namespace, feature=key, value=vprop_val)
            for namespace, vdata in data.items()
            for key, vprop_values in vdata.items()
            for vprop_val in vprop_values
        ]

        return cls(vprops)
''', '''        vprops: list[VariantProperty] = []
        for namespace in sorted(data):
            for feature, values in data[namespace].items():
                vprops += [
                    VariantProperty(namespace=namespace, feature=feature, value=x)
                    for x in values
                ]

        return cls(properties=vprops)
'''), ('''        return (
            not self.multi_value_violations
            and False not in self.results.values()
            and (allow_unknown_plugins or None not in self.results.values())
        )
''', '''        if self.multi_value_violations or self.invalid_properties:
            return False
        return allow_unknown_plugins or not self.unknown_properties
'''))
ed("validators/base.py", ('''    seen = set()

    for value in values:
        _value = value

        if keys is not None:
            _value = tuple([getattr(value, key) for key in keys])
            if len(_value) == 1:
                _value = _value[0]

        if _value in seen:
            raise ValidationError(f"Duplicate value found: `{_value}` in list.")

        seen.add(_value)
''', '''
    def get_key(value: Any) -> Any:
        if keys is None:
            return value
        attrs = tuple(getattr(value, key) for key in keys)
        return attrs[0] if len(attrs) == 1 else attrs

    seen = set()
    for key in map(get_key, values):
        if key in seen:
            raise ValidationError(f"Duplicate value found: `{key}` in list.")
        seen.add(key)
'''), ('''    if (match := re.fullmatch(pattern, value)) is None:
''', '''    match = re.compile(pattern).fullmatch(value)
    if match is None:
'''))
ed("validators/keytracking.py", ('''        # pop the value
        expected_keys = self._expected_keys.pop()
        last_data = self._data.pop()
        # if it was a dict, verify that we didn't get any unwelcome keys
        if isinstance(last_data, dict) and not ignore_subkeys:
            unexpected_keys = last_data.keys() - expected_keys
            if unexpected_keys:
                raise ValidationError(
                    f"{self.key}: unexpected subkeys: {unexpected_keys}; "
                    f"expected only: {expected_keys}"
                )
        self.keys.pop()
''', '''        # pop the value
        last_data = self._data.pop()
        expected_keys = self._expected_keys.pop()
        self._check_subkeys({} if ignore_subkeys else last_data, expected_keys)
        self.keys.pop()

    def _check_subkeys(self, data: Any, expected_keys: set[str]) -> None:
        # if it was a dict, verify that we didn't get any unwelcome keys
        if not isinstance(data, dict):
            return
        unexpected_keys = {k for k in data if k not in expected_keys}
        if unexpected_keys:
            raise ValidationError(
                f"{self.key}: unexpected subkeys: {unexpected_keys}; "
                f"expected only: {expected_keys}"
            )
'''))
ed("models/variant_info.py", ('''        requirements = set()
        for namespace in namespaces:
            provider = self.providers[namespace]
            if not provider.install_time and not include_aot_plugins:
                continue
            requirements.update(provider.requires)
        return requirements
''', '''        providers = [self.providers[namespace] for namespace in namespaces]
        return {
            requirement
            for provider in providers
            if provider.install_time or include_aot_plugins
            for requirement in provider.requires
        }
'''), ('''        return {
            namespace
            for namespace, provider in self.providers.items()
            if not provider.install_time and provider.requires
        }
''', '''        ret = set()
        for namespace, provider in self.providers.items():
            if provider.install_time:
                continue
            if provider.requires:
                ret.add(namespace)
        return ret
'''), ('''        return {
            "namespace_priorities": list(self.namespace_priorities),
            "feature_priorities": {
                namespace: list(feature_priorities)
                for namespace, feature_priorities in self.feature_priorities.items()
            },
''', '''        return {
            "namespace_priorities": self.namespace_priorities[:],
            "feature_priorities": copy.deepcopy(self.feature_priorities),
'''), ('''from typing import Any
''', '''import copy
from typing import Any
'''))
ed("variants_json.py", ('''        if self.static_properties:
            data[VARIANT_INFO_STATIC_PROPERTIES_KEY] = self.static_properties

        return json.dumps(data, indent=4, sort_keys=True)
''', '''        if self.static_properties:
            data[VARIANT_INFO_STATIC_PROPERTIES_KEY] = {
                namespace: dict(features)
                for namespace, features in self.static_properties.items()
            }

        return json.dumps(dict(sorted(data.items())), sort_keys=True, indent=4)
'''), ('''        if self.provider_hash != variant_dist_info.provider_hash:
''', '''        if self.providers_dict() != variant_dist_info.providers_dict():
'''), ('''        # Verify that the labels do not collide
        for label, vdesc in variant_dist_info.variants.items():
            if self.variants.get(label, vdesc) != vdesc:
                raise ValidationError(
                    f"Variant label {label!r} is already used for a variant with "
                    "different properties"
                )

''', '''        self._check_labels(variant_dist_info)

'''), ('''    def _get_expected_aot_namespaces(self)''', '''    def _check_labels(self, other: Self) -> None:
        # Verify that the labels do not collide
        for label in self.variants.keys() & other.variants.keys():
            if self.variants[label] != other.variants[label]:
                raise ValidationError(
                    f"Variant label {label!r} is already used for a variant with "
                    "different properties"
                )

    def _get_expected_aot_namespaces(self)'''), ('''                    if vdesc.is_null_variant() and variant_label != NULL_VARIANT_LABEL:
                        raise ValidationError(
                            f"Null variant must use {NULL_VARIANT_LABEL!r} label"
                        )
                    if (
                        not vdesc.is_null_variant()
                        and variant_label == NULL_VARIANT_LABEL
                    ):
                        raise ValidationError(
                            f"{NULL_VARIANT_LABEL!r} label can only be used for "
                            "the null variant"
                        )
''', '''                    is_null = vdesc.is_null_variant()
                    if is_null != (variant_label == NULL_VARIANT_LABEL):
                        raise ValidationError(
                            f"Null variant must use {NULL_VARIANT_LABEL!r} label"
                            if is_null
                            else f"{NULL_VARIANT_LABEL!r} label can only be used for "
                            "the null variant"
                        )
'''))
ed("variant_dist_info.py", ('''        self._process(json.loads(dist_info_file))
''', '''        if isinstance(dist_info_file, bytes):
            dist_info_file = dist_info_file.decode("utf-8")
        data = json.loads(dist_info_file)
        self._process(data)
'''), ('''        return next(iter(self.variants.keys()))
''', '''        (label,) = self.variants
        return label
'''))
ed("pyproject_toml.py", ('''        with path.open("rb") as f:
            return cls(tomllib.load(f))
''', '''        return cls(tomllib.loads(path.read_bytes().decode("utf-8")))
'''))
ed("plugins/_subprocess.py", ('''    retval: dict[str, Any] = {}
    for command, command_args in commands.items():
        if command == "namespaces":
            assert not command_args
            retval[command] = {
                plugin_api: plugin.namespace for plugin_api, plugin in plugins.items()
            }
        elif command == "get_all_configs":
            assert not command_args
            retval[command] = {  # pyright: ignore[reportArgumentType]
                plugin_api: process_configs(
                    plugin.get_all_configs(),
                    plugin,
                    command,
                )
                for plugin_api, plugin in plugins.items()
            }
        elif command == "get_supported_configs":
            assert not command_args
            retval[command] = {  # pyright: ignore[reportArgumentType]
                plugin_api: process_configs(
                    plugin.get_supported_configs(),
                    plugin,
                    command,
                )
                for plugin_api, plugin in plugins.items()
            }
        else:
            raise ValueError(f"Invalid command: {command}")

    json.dump(retval, sys.stdout)

    return 0
''', '''    retval: dict[str, Any] = {}
    for command, command_args in commands.items():
        assert not command_args
        retval[command] = answer = {}
        for plugin_api, plugin in plugins.items():
            if command == "namespaces":
                answer[plugin_api] = plugin.namespace
            elif command in ("get_all_configs", "get_supported_configs"):
                configs = getattr(plugin, command)()
                answer[plugin_api] = process_configs(configs, plugin, command)
            else:
                raise ValueError(f"Invalid command: {command}")

    sys.stdout.write(json.dumps(retval))
    sys.stdout.flush()
    return 0
'''), ('''        try:
            module = importlib.import_module(import_name)
            attr_chain = attr_path.split(".") if attr_path else []
            plugin_instance = reduce(getattr, attr_chain, module)
        except Exception as exc:''', '''        try:
            plugin_instance: Any = importlib.import_module(import_name)
            for attr in filter(None, attr_path.split(".")):
                plugin_instance = getattr(plugin_instance, attr)
        except Exception as exc:'''))
ed("commands/plugins/get_configs.py", ('''    output: dict[str, list[dict[str, str | list[str]]]] = {}
    for provider_cfg in getattr(plugin_loader, parsed_args.method)().values():
        if parsed_args.namespace not in (provider_cfg.namespace, None):
            continue

        feature_list = output[provider_cfg.namespace] = []
        for feature in provider_cfg.configs:
            if parsed_args.feature not in (feature.name, None):
                continue

            feature_list.append(dataclasses.asdict(feature))

    json.dump(output, sys.stdout, indent=2)
''', '''    configs = (
        plugin_loader.get_all_configs()
        if parsed_args.method == "get_all_configs"
        else plugin_loader.get_supported_configs()
    )
    output = {
        namespace: [
            dataclasses.asdict(feature)
            for feature in provider_cfg.configs
            if parsed_args.feature is None or feature.name == parsed_args.feature
        ]
        for namespace, provider_cfg in configs.items()
        if parsed_args.namespace is None or namespace == parsed_args.namespace
    }
    sys.stdout.write(json.dumps(output, indent=2))
'''))
ed("commands/plugins/list_plugins.py", ('''    for plugin_name in plugin_loader.namespaces:
        sys.stdout.write(f"{plugin_name}\\n")
''', '''    sys.stdout.writelines(f"{x}\\n" for x in plugin_loader.namespaces)
'''))
ed("commands/config/show.py", ('''    tomlkit.dump(doc, sys.stdout)
''', '''    sys.stdout.write(tomlkit.dumps(doc))
'''))
ed("commands/config/list_paths.py", ('''        details = ""
        if parsed_args.verbose:
            try:
                file_stat = file_path.stat()
''', '''        details = ""
        if not parsed_args.verbose:
            pass
        elif not file_path.exists():
            details = " (not found)"
        else:
            try:
                file_stat = file_path.stat()
'''))
ed("commands/analyze_platform.py", ('''        for variant_cfg in variant_cfgs:
            for line in variant_cfg.pretty_print().splitlines():
                sys.stdout.write(f"{line}\\n")
''', '''        text = "".join(variant_cfg.pretty_print() for variant_cfg in variant_cfgs)
        sys.stdout.write(text)
'''))
ed("resolver/filtering.py", ('''            for property_value in property_values:
                if property_value in allowed_props:
                    break

            else:
''', '''            if allowed_props.isdisjoint(property_values):
'''), ('''        if (vprops := tuple(vdesc.properties)) in seen:
''', '''        vprops = frozenset(vdesc.properties)
        if vprops in seen:
'''))
ed("utils.py", ('''        for key, values in iter_dict.items():
            if not (ret_value := result.setdefault(key, [])):
                ret_value.extend(values)
            else:
                ret_value.extend(value for value in values if value not in ret_value)
    return result
''', '''        for key, values in iter_dict.items():
            result[key] = aggregate_namespace_priorities(result.get(key), values)
    return result
'''))
ed("models/configuration.py", ('''        return cls(
            namespace_priorities=(
                namespace_priorities if namespace_priorities is not None else []
            ),
            feature_priorities=(
                feature_priorities if feature_priorities is not None else {}
            ),
            property_priorities=(
                property_priorities if property_priorities is not None else {}
            ),
        )
''', '''        given = {
            "namespace_priorities": namespace_priorities,
            "feature_priorities": feature_priorities,
            "property_priorities": property_priorities,
        }
        defaults = cls.default().to_dict()
        return cls(**{k: defaults[k] if v is None else v for k, v in given.items()})
'''))
ed("commands/get_variant_hash.py", ('''    vdesc = VariantDescription(properties=properties)

    sys.stdout.write(f"{vdesc.hexdigest}\\n")
''', '''    print(VariantDescription(properties).hexdigest)  # noqa: T201
'''))
