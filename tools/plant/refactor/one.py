import sys
W = sys.argv[1] + "/variantlib/"
def ed(f, *prs):
    s=open(W+f).read()
    for a,b in prs:
        assert s.count(a)==1,(f,s.count(a),a)
        s=s.replace(a,b)
    open(W+f,"w").write(s)
ed("plugins/loader.py",
("""        with TemporaryDirectory(prefix="variantlib") as temp_dir:
            # Copy `variantlib/plugins/loader.py` into the temp_dir
            script = Path(temp_dir) / "loader.py"
            script.write_bytes(
                (importlib.resources.files(__package__) / "_subprocess.py")
                .read_bytes()
                .replace(b"from variantlib.protocols", b"from _variantlib_protocols")
                .replace(
                    b"from variantlib.validators.base",
                    b"from _variantlib_validators_base",
                )
            )

            # Copy `variantlib/protocols.py` into the temp_dir
            (Path(temp_dir) / "_variantlib_protocols.py").write_bytes(
                (importlib.resources.files("variantlib") / "protocols.py").read_bytes()
            )

            # Copy `variantlib/validators/base.py` into the temp_dir
            (Path(temp_dir) / "_variantlib_validators_base.py").write_bytes(
                (
                    importlib.resources.files("variantlib.validators") / "base.py"
                ).read_bytes()
            )

            cmd_args = list(args)
            for plugin_api in plugin_apis:
                cmd_args += ["--plugin-api", plugin_api]

            process = subprocess.run(  # noqa: S603
                [self._python_executable, script, *cmd_args],
                input=commands,
                capture_output=True,
                check=False,
            )

            if process.returncode != 0:
                raise PluginError(
                    f"Plugin invocation failed:\\n"
                    f"{process.stderr.decode('utf8', errors='replace')}"
                )

            return json.loads(process.stdout)  # type: ignore[no-any-return]
""","""        temp_dir = tempfile.mkdtemp(prefix="variantlib")
        try:
            script = os.path.join(temp_dir, "query.py")
            self._copy_scripts(temp_dir)

            cmd_args = [str(self._python_executable), script, *args]
            for plugin_api in plugin_apis:
                cmd_args.append(f"--plugin-api={plugin_api}")

            with subprocess.Popen(
                cmd_args,
                stdin=subprocess.PIPE,
                stdout=subprocess.PIPE,
                stderr=subprocess.PIPE,
            ) as process:
                stdout, stderr = process.communicate(commands)

            if process.returncode:
                raise PluginError(
                    f"Plugin invocation failed:\\n"
                    f"{stderr.decode('utf8', errors='replace')}"
                )
        finally:
            shutil.rmtree(temp_dir)

        return json.loads(stdout)  # type: ignore[no-any-return]

    @staticmethod
    def _copy_scripts(temp_dir: str) -> None:
        base = Path(__file__).parent.parent
        for source, target in (
            ("plugins/_subprocess.py", "query.py"),
            ("protocols.py", "_variantlib_protocols.py"),
            ("validators/base.py", "_variantlib_validators_base.py"),
        ):
            with open(base / source, "rb") as f:
                data = f.read()
            if target == "query.py":
                data = data.replace(
                    b"from variantlib.protocols", b"from _variantlib_protocols"
                ).replace(
                    b"from variantlib.validators.base",
                    b"from _variantlib_validators_base",
                )
            with open(os.path.join(temp_dir, target), "wb") as f:
                f.write(data)
"""),
("from tempfile import TemporaryDirectory\n",""),
("import json\nimport logging\nimport subprocess\nimport sys\n","import json\nimport logging\nimport os\nimport shutil\nimport subprocess\nimport sys\nimport tempfile\n"),
("""        cache_key = hash((str(self._python_executable), _plugin_apis, _commands, _args))

        with suppress(KeyError):
            return deepcopy(VARIANT_PROVIDER_CACHE_TABLE[cache_key])
""","""        cache_key = hash((_args, _commands, _plugin_apis, str(self._python_executable)))

        if (cached := VARIANT_PROVIDER_CACHE_TABLE.get(cache_key)) is not None:
            return deepcopy(cached)
"""),
("from contextlib import suppress\n",""),
("""        plugins = [
            provider_data.object_reference
            for namespace, provider_data in self._variant_info.providers.items()
            if self._plugin_enabled(namespace, provider_data)
        ]
""","""        plugins = []
        for namespace, provider_data in self._variant_info.providers.items():
            if not self._plugin_enabled(namespace, provider_data):
                continue
            plugins.append(provider_data.object_reference)
"""),
("""        if self._use_static_properties_for_provider(provider_data):
            return False

        if self._filter_plugins is not None and namespace not in self._filter_plugins:
            return False
""","""        if self._filter_plugins is not None and namespace not in self._filter_plugins:
            return False

        if self._use_static_properties_for_provider(provider_data):
            return False
"""),
)
ed("commands/utils.py",
("""    temp_path = path.with_name(f".{path.name}.{os.getpid()}.tmp")
    try:
        yield temp_path
        with suppress(FileNotFoundError):
            shutil.copymode(path, temp_path)
        temp_path.replace(path)
    except BaseException:
        temp_path.unlink(missing_ok=True)
        raise
""","""    temp_path = path.parent / f"{path.name}.new{os.getpid()}"
    done = False
    try:
        yield temp_path
        if path.exists():
            os.chmod(temp_path, stat.S_IMODE(os.stat(path).st_mode))
        os.replace(temp_path, path)
        done = True
    finally:
        if not done:
            with suppress(FileNotFoundError):
                os.remove(temp_path)
"""),("import shutil\n","import stat\n"),
)
ed("commands/make_variant.py",
("""                    # Update RECORD for the new checksums.
                    with output_zip.open(file_info, "w") as output_file:
                        for line in input_file:
                            new_line = line
                            # Skip existing hash for the discarded copy.
                            if record_entry_path(line) == dist_info_path:
                                continue
                            if not line.endswith(b"\\n"):
                                new_line += b"\\n"
                            output_file.write(new_line)

                        # Write hash for the new files.
                        new_sha256 = base64.urlsafe_b64encode(
                            hashlib.sha256(dist_info_data.encode("utf8")).digest()
                        ).rstrip(b"=")
                        output_file.write(
                            (
                                f"{dist_info_path},"
                                f"sha256={new_sha256.decode()},"
                                f"{len(dist_info_data)}\\n"
                            ).encode()
                        )
                else:
                    with output_zip.open(file_info, "w") as output_file:
                        shutil.copyfileobj(input_file, output_file)
""","""                    # Update RECORD for the new checksums.
                    record = []
                    for line in input_file.read().splitlines(keepends=True):
                        if record_entry_path(line) != dist_info_path:
                            record.append(line if line[-1:] == b"\\n" else line + b"\\n")

                    # Write hash for the new files.
                    payload = dist_info_data.encode("utf8")
                    digest = base64.urlsafe_b64encode(hashlib.sha256(payload).digest())
                    record.append(
                        f"{dist_info_path},sha256={digest.decode().rstrip('=')},"
                        f"{len(payload)}\\n".encode()
                    )
                    output_zip.writestr(file_info, b"".join(record))
                else:
                    output_zip.writestr(file_info, input_file.read())
"""),("import shutil\n",""),
)
ed("commands/generate_index_json.py",
("""    for wheel in sorted(x for x in directory.iterdir() if x.match("*.whl")):
""","""    names = [name for name in os.listdir(directory) if name.endswith(".whl")]
    names.sort()
    for name_ in names:
        wheel = directory / name_
"""),
("import logging\n","import logging\nimport os\n"),
("""                        variant_dist_info = VariantDistInfo(zip_file.read(name), vlabel)
""","""                        with zip_file.open(name) as member:
                            variant_dist_info = VariantDistInfo(member.read(), vlabel)
"""),
("""            temp_path.write_text(variants_json.to_str())
""","""            with open(temp_path, "w") as f:
                f.write(variants_json.to_str())
"""),
)
ed("commands/add_wheel_to_index_json.py",
("""        with input_json_file.open(mode="r") as f:
            variant_json = VariantsJson(json.load(f))
""","""        variant_json = VariantsJson(json.loads(input_json_file.read_text()))
"""),
)
ed("configuration.py",
("""        with config_file.open("rb") as f:
            try:
                config = tomllib.load(f)
            except tomllib.TOMLDecodeError as e:
                raise ConfigurationError from e
""","""        data = config_file.read_bytes()
        try:
            config = tomllib.loads(data.decode("utf-8"))
        except tomllib.TOMLDecodeError as e:
            raise ConfigurationError from e
"""),
("""        for config_name in ConfigEnvironments:
            if (cfg_f := config_files[config_name]).exists():
                return cfg_f

        raise FileNotFoundError("No configuration file found.")
""","""        found = next(
            (config_files[env] for env in ConfigEnvironments if config_files[env].exists()),
            None,
        )
        if found is None:
            raise FileNotFoundError("No configuration file found.")
        return found
"""),
)
ed("resolver/sorting.py",
("""    # 1. Reorder properties according to namespace priorities.
    sorted_by_namespace = sorted(
        vprops, key=lambda x: get_namespace_priorities(x, namespace_priorities)
    )

    # 2. Reorder properties within a namespace according to feature priorities.
    sorted_by_feature = chain.from_iterable(
        [
            sorted(
                namespace_properties,
                key=lambda x: get_feature_priorities(x, feature_priorities),
            )
            for _, namespace_properties in groupby(
                sorted_by_namespace, key=lambda x: x.namespace
            )
        ]
    )
""","""    sorted_by_feature = sorted(
        vprops,
        key=lambda x: (
            get_namespace_priorities(x, namespace_priorities),
            get_feature_priorities(x, feature_priorities),
        ),
    )
"""),
)
ed("api.py",
("""        supported_vprops = list(
            itertools.chain.from_iterable(
                provider_cfg.to_list_of_properties()
                for provider_cfg in plugin_loader.get_supported_configs().values()
            )
        )

    config = VariantConfiguration.get_config()
    # NB: the hash is truncated, so different variants may share it
    label_map = {
        tuple(vdesc.properties): label
        for label, vdesc in variants_json.variants.items()
    }
    # handle the implicit null variant
    label_map.setdefault((), NULL_VARIANT_LABEL)
""","""        supported_vprops = _supported_properties(plugin_loader)

    label_map: dict[tuple[VariantProperty, ...], str] = {(): NULL_VARIANT_LABEL}
    for label, vdesc in variants_json.variants.items():
        label_map[tuple(vdesc.properties)] = label
    config = VariantConfiguration.get_config()
"""),
("""        supported_vprops = list(
            itertools.chain.from_iterable(
                provider_cfg.to_list_of_properties()
                for provider_cfg in plugin_loader.get_supported_configs().values()
            )
        )

    VariantConfiguration.get_config()
""","""        supported_vprops = _supported_properties(plugin_loader)

    VariantConfiguration.get_config()
"""),
("""def get_variants_by_priority(
    *,""","""def _supported_properties(plugin_loader: PluginLoader) -> list[VariantProperty]:
    result: list[VariantProperty] = []
    for provider_cfg in plugin_loader.get_supported_configs().values():
        result += provider_cfg.to_list_of_properties()
    return result


def get_variants_by_priority(
    *,"""),
)
ed("commands/update_pyproject_toml.py",
("""            while namespace in namespace_prio_key:
                namespace_prio_key.remove(namespace)
            if namespace in provider_table:
                del provider_table[namespace]
""","""            if namespace in provider_table:
                provider_table.pop(namespace)
            for _ in range(list(namespace_prio_key).count(namespace)):
                namespace_prio_key.remove(namespace)
"""),
)
ed("resolver/lib.py",
("""    for pkg_name, pkg_version in sorted(packages.items()):
        supported_vprops.extend(
            VariantProperty(
                namespace=VARIANT_ABI_DEPENDENCY_NAMESPACE,
                feature=pkg_name,
                value=_ver,
            )
            for _ver in _generate_version_matches(pkg_version)
        )
""","""    for pkg_name in sorted(packages):
        for _ver in _generate_version_matches(packages[pkg_name]):
            supported_vprops.append(
                VariantProperty(
                    namespace=VARIANT_ABI_DEPENDENCY_NAMESPACE,
                    feature=pkg_name,
                    value=_ver,
                )
            )
"""),
)
ed("commands/unmake_variant.py",
("""                    for line in input_file:
                        if record_entry_path(line) != variant_dist_info_path:
                            output_file.write(line)
                else:
                    shutil.copyfileobj(input_file, output_file)
""","""                    lines = input_file.readlines()
                    output_file.writelines(
                        line
                        for line in lines
                        if record_entry_path(line) != variant_dist_info_path
                    )
                else:
                    while chunk := input_file.read(65536):
                        output_file.write(chunk)
"""),("import shutil\n",""),
)
