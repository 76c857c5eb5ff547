import sys
W = sys.argv[1] + "/variantlib/"


def ed(f, *prs):
    s = open(W + f).read()
    for a, b in prs:
        assert s.count(a) == 1, (f, s.count(a), a)
        s = s.replace(a, b)
    open(W + f, "w").write(s)


ed("commands/utils.py", ('''    path = Path(os.path.realpath(path))
    temp_path = path.with_name(f".{path.name}.{os.getpid()}.tmp")
    try:
        yield temp_path
        with suppress(FileNotFoundError):
            shutil.copymode(path, temp_path)
        temp_path.replace(path)
    except BaseException:
        temp_path.unlink(missing_ok=True)
        raise
''', '''    path = path.resolve()
    fd, temp_name = tempfile.mkstemp(prefix=".variantlib-", dir=path.parent)
    os.close(fd)
    temp_path = Path(temp_name)
    try:
        temp_path.chmod(0o644)
        yield temp_path
        try:
            mode = path.stat().st_mode
        except FileNotFoundError:
            pass
        else:
            temp_path.chmod(mode & 0o7777)
        os.rename(temp_path, path)
    except BaseException:
        with suppress(FileNotFoundError):
            os.unlink(temp_path)
        raise
'''), ("import shutil\n", "import tempfile\n"))
ed("configuration.py", ('''        with config_file.open("rb") as f:
            try:
                config = tomllib.load(f)
            except tomllib.TOMLDecodeError as e:
                raise ConfigurationError from e
''', '''        with open(config_file, "rb") as f:
            data = f.read()

        try:
            config = tomllib.loads(data.decode())
        except tomllib.TOMLDecodeError as e:
            raise ConfigurationError from e
'''), ('''        while True:
            try:
                config_file = cls.get_config_file()
            except FileNotFoundError:
                # No user-configuration file found
                return ConfigurationModel.default()

            # If the file has been removed since, look for the next one.
            with suppress(FileNotFoundError):
                return cls.get_config_from_file(config_file)
''', '''        config_files = get_configuration_files()
        for config_name in ConfigEnvironments:
            # Just try them in order.
            with suppress(FileNotFoundError, NotADirectoryError):
                return cls.get_config_from_file(config_files[config_name])

        # No user-configuration file found
        return ConfigurationModel.default()
'''))
ed("commands/make_variant.py", ('''        for file_info in input_zip.infolist():
            components = file_info.filename.split("/", 2)
            is_dist_info = len(components) == 2 and components[0].endswith(".dist-info")

            if is_dist_info and components[1] == VARIANT_DIST_INFO_FILENAME:
                # If a wheel dist-info file exists already, discard the existing
                # copy.
                continue

            with input_zip.open(file_info, "r") as input_file:
                if is_dist_info and components[1] == "RECORD":
''', '''        for file_info in input_zip.infolist():
            dist_info_dir, _, dist_info_file = file_info.filename.partition("/")
            if not dist_info_dir.endswith(".dist-info"):
                dist_info_file = ""

            if dist_info_file == VARIANT_DIST_INFO_FILENAME:
                # If a wheel dist-info file exists already, discard the existing
                # copy.
                continue

            with input_zip.open(file_info, "r") as input_file:
                if dist_info_file == "RECORD":
'''), ('''                    dist_info_path = f"{components[0]}/{VARIANT_DIST_INFO_FILENAME}"
                    output_zip.writestr(dist_info_path, dist_info_data)
''', '''                    dist_info_path = f"{dist_info_dir}/{VARIANT_DIST_INFO_FILENAME}"
                    with output_zip.open(dist_info_path, "w") as dist_info:
                        dist_info.write(dist_info_data.encode())
'''), ('''            try:
                venv.install(variant_info.get_provider_requires(namespaces))
''', '''            requirements = variant_info.get_provider_requires(namespaces)
            try:
                venv.install(sorted(requirements))
'''))
ed("commands/generate_index_json.py", ('''                # Find the variant dist-info file
                for name in zip_file.namelist():
                    components = name.split("/", 2)
                    if (
                        len(components) == 2
                        and components[0].endswith(".dist-info")
                        and components[1] == VARIANT_DIST_INFO_FILENAME
                    ):
                        variant_dist_info = VariantDistInfo(zip_file.read(name), vlabel)
                        break
                else:
''', '''                # Find the variant dist-info file
                candidates = [
                    name
                    for name in zip_file.namelist()
                    if name.count("/") == 1
                    and name.endswith(f".dist-info/{VARIANT_DIST_INFO_FILENAME}")
                ]
                if candidates:
                    variant_dist_info = VariantDistInfo(
                        zip_file.read(candidates[0]), vlabel
                    )
                else:
'''), ('''        namever = wheel_info.group("namever")
        if (variants_json := output_files.get(namever)) is None:
            # Create a new JSON file from the initial wheel.
            output_files[namever] = variant_dist_info
        else:
            try:
                variants_json.merge(variant_dist_info)
            except ValidationError:
''', '''        namever = wheel_info.group("namever")
        variants_json = output_files.setdefault(namever, variant_dist_info)
        if variants_json is not variant_dist_info:
            try:
                variants_json.merge(variant_dist_info)
            except ValidationError:
'''))
ed("commands/add_wheel_to_index_json.py", ('''    with atomic_output_path(output_json_file) as temp_path:
        temp_path.write_text(variant_json.to_str())''', '''    data = variant_json.to_str().encode()
    with atomic_output_path(output_json_file) as temp_path, temp_path.open("wb") as f:
        f.write(data)'''))
ed("resolver/lib.py", ('''    for dist in importlib.metadata.distributions():
        try:
            dist_name, dist_version = dist.name, dist.version
        except UnicodeDecodeError:
            dist_name = dist_version = None
''', '''    for dist in list(importlib.metadata.distributions()):
        try:
            dist_version, dist_name = dist.version, dist.name
        except UnicodeDecodeError:
            dist_name = dist_version = None
'''), ('''        # Packages found earlier on the path shadow the later ones.
        packages.setdefault(_normalize_package_name(dist_name), dist_version)
''', '''        # Packages found earlier on the path shadow the later ones.
        key = _normalize_package_name(dist_name)
        if key not in packages:
            packages[key] = dist_version
'''))
ed("plugins/loader.py", ('''        with suppress(KeyError):
            return deepcopy(VARIANT_PROVIDER_CACHE_TABLE[cache_key])

        result = self._run_call_subprocess(
            plugin_apis=_plugin_apis,
            commands=_commands,
            args=_args,
        )
        self._validate_answer(plugin_apis, commands, result)
        VARIANT_PROVIDER_CACHE_TABLE[cache_key] = deepcopy(result)
        return result
''', '''        try:
            cached = VARIANT_PROVIDER_CACHE_TABLE[cache_key]
        except KeyError:
            cached = self._run_call_subprocess(
                plugin_apis=_plugin_apis,
                commands=_commands,
                args=_args,
            )
            self._validate_answer(plugin_apis, commands, cached)
            VARIANT_PROVIDER_CACHE_TABLE[cache_key] = cached
        return deepcopy(cached)
'''), ("from contextlib import suppress\n", ""), ('''            process = subprocess.run(  # noqa: S603
                [self._python_executable, script, *cmd_args],
                input=commands,
                capture_output=True,
                check=False,
            )

            if process.returncode != 0:
                raise PluginError(
                    f"Plugin invocation failed:\\n"
                    f"{process.stderr.decode('utf8', errors='replace')}"
                )

            return json.loads(process.stdout)  # type: ignore[no-any-return]
''', '''            try:
                process = subprocess.run(  # noqa: S603
                    [os.fspath(self._python_executable), os.fspath(script), *cmd_args],
                    input=commands,
                    stdout=subprocess.PIPE,
                    stderr=subprocess.PIPE,
                    check=True,
                )
            except subprocess.CalledProcessError as err:
                raise PluginError(
                    f"Plugin invocation failed:\\n"
                    f"{err.stderr.decode('utf8', errors='replace')}"
                ) from err

        return json.loads(process.stdout)  # type: ignore[no-any-return]
'''), ("import logging\n", "import logging\nimport os\n"))
ed("commands/unmake_variant.py", ('''            if is_dist_info and components[1] == VARIANT_DIST_INFO_FILENAME:
                # This is the variant.json file, we skip it.
                continue

            with (
                input_zip.open(file_info, "r") as input_file,
                output_zip.open(file_info, "w") as output_file,
            ):
                if is_dist_info and components[1] == "RECORD":
''', '''            member = components[1] if is_dist_info else None
            if member == VARIANT_DIST_INFO_FILENAME:
                # This is the variant.json file, we skip it.
                continue

            with (
                input_zip.open(file_info) as input_file,
                output_zip.open(file_info, mode="w") as output_file,
            ):
                if member == "RECORD":
'''))
ed("commands/update_pyproject_toml.py", ('''        # Start with a copy, for TOMLFile to preserve the line endings.
        shutil.copyfile(parsed_args.file, temp_path)
''', '''        # Start with a copy, for TOMLFile to preserve the line endings.
        temp_path.write_bytes(parsed_args.file.read_bytes())
'''), ("import shutil\n", ""))
ed("commands/analyze_wheel.py", ('''        # for line in pretty_print(vdesc=vdesc, providers=providers).splitlines():
        for line in pretty_print(vdesc=variant_dist_info.variant_desc).splitlines():
            sys.stdout.write(f"{line}\\n")
''', '''    sys.stdout.write(
        "".join(
            f"{line}\\n"
            for line in pretty_print(vdesc=variant_dist_info.variant_desc).splitlines()
        )
    )
'''))
ed("api.py", ('''        configs = {
            namespace: {
                cfeat.name: (cfeat.values, cfeat.multi_value)
                for cfeat in configs.configs
            }
            for namespace, configs in plugin_loader.get_all_configs().items()
        }
''', '''        configs = {}
        for namespace, provider_cfg in plugin_loader.get_all_configs().items():
            features = configs[namespace] = {}
            for cfeat in provider_cfg.configs:
                features[cfeat.name] = (cfeat.values, cfeat.multi_value)
'''))
