From 089072bbd572ae172390768b90b29c6e99535189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:47 +0000
Subject: [PATCH 01/28] fix: write converted wheels atomically

make-variant and unmake-variant opened the destination for writing first, so an
error, interrupt or kill left a truncated wheel at the final path, destroyed a
wheel that was there before, and destroyed the input when it was the destination.
---
 variantlib/commands/make_variant.py   |  4 +++-
 variantlib/commands/unmake_variant.py |  4 +++-
 variantlib/commands/utils.py          | 28 +++++++++++++++++++++++++++
 3 files changed, 34 insertions(+), 2 deletions(-)

diff --git a/variantlib/commands/make_variant.py b/variantlib/commands/make_variant.py
index e753993..e0920df 100644
--- a/variantlib/commands/make_variant.py
+++ b/variantlib/commands/make_variant.py
@@ -19,6 +19,7 @@ from variantlib.api import VariantProperty
 from variantlib.api import get_variant_label
 from variantlib.api import make_variant_dist_info
 from variantlib.api import validate_variant
+from variantlib.commands.utils import atomic_output_path
 from variantlib.constants import VALIDATION_VARIANT_LABEL_REGEX
 from variantlib.constants import VALIDATION_WHEEL_NAME_REGEX
 from variantlib.constants import VARIANT_DIST_INFO_FILENAME
@@ -239,8 +240,9 @@ def _make_variant(
     )
 
     with (
+        atomic_output_path(output_filepath) as temp_filepath,
         zipfile.ZipFile(input_filepath, "r") as input_zip,
-        zipfile.ZipFile(output_filepath, "w") as output_zip,
+        zipfile.ZipFile(temp_filepath, "w") as output_zip,
     ):
         for file_info in input_zip.infolist():
             components = file_info.filename.split("/", 2)
diff --git a/variantlib/commands/unmake_variant.py b/variantlib/commands/unmake_variant.py
index 5a85984..3d56e4a 100644
--- a/variantlib/commands/unmake_variant.py
+++ b/variantlib/commands/unmake_variant.py
@@ -9,6 +9,7 @@ import shutil
 import zipfile
 
 from variantlib import __package_name__
+from variantlib.commands.utils import atomic_output_path
 from variantlib.constants import VALIDATION_WHEEL_NAME_REGEX
 from variantlib.constants import VARIANT_DIST_INFO_FILENAME
 
@@ -89,8 +90,9 @@ def _unmake_variant(
     output_filepath = output_directory / f"{wheel_info.group('base_wheel_name')}.whl"
 
     with (
+        atomic_output_path(output_filepath) as temp_filepath,
         zipfile.ZipFile(input_filepath, "r") as input_zip,
-        zipfile.ZipFile(output_filepath, "w") as output_zip,
+        zipfile.ZipFile(temp_filepath, "w") as output_zip,
     ):
         for file_info in input_zip.infolist():
             components = file_info.filename.split("/", 2)
diff --git a/variantlib/commands/utils.py b/variantlib/commands/utils.py
index 10826c7..34ac477 100644
--- a/variantlib/commands/utils.py
+++ b/variantlib/commands/utils.py
@@ -2,8 +2,17 @@
 
 from __future__ import annotations
 
+import os
+import shutil
+from contextlib import contextmanager
+from contextlib import suppress
 from importlib.metadata import EntryPoint
 from importlib.metadata import entry_points
+from pathlib import Path
+from typing import TYPE_CHECKING
+
+if TYPE_CHECKING:
+    from collections.abc import Generator
 
 
 def get_registered_commands(group: str) -> dict[str, EntryPoint]:
@@ -12,3 +21,22 @@ def get_registered_commands(group: str) -> dict[str, EntryPoint]:
     for ep in entry_points().select(group=group):
         commands[ep.name] = ep
     return commands
+
+
+@contextmanager
+def atomic_output_path(path: Path) -> Generator[Path]:
+    """
+    Yield a temporary path to write to, and move it over `path` on success
+
+    On failure, the temporary file is removed and `path` is left as it was.
+    """
+    path = Path(os.path.realpath(path))
+    temp_path = path.with_name(f".{path.name}.{os.getpid()}.tmp")
+    try:
+        yield temp_path
+        with suppress(FileNotFoundError):
+            shutil.copymode(path, temp_path)
+        temp_path.replace(path)
+    except BaseException:
+        temp_path.unlink(missing_ok=True)
+        raise
-- 
2.43.0


From 52eed042b2aeb42a78771d28938eb518e5ab787b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:46 +0000
Subject: [PATCH 02/28] fix: parse RECORD lines as CSV

Quoted paths (e.g. containing a comma) and blank lines made the conversions fail,
a quoted row of an existing variant.json was kept next to the new one, and a
missing newline at the end of RECORD glued the new row to the last one.
---
 variantlib/commands/make_variant.py   | 6 ++++--
 variantlib/commands/unmake_variant.py | 6 +++---
 variantlib/commands/utils.py          | 7 +++++++
 3 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/variantlib/commands/make_variant.py b/variantlib/commands/make_variant.py
index e0920df..545f4a5 100644
--- a/variantlib/commands/make_variant.py
+++ b/variantlib/commands/make_variant.py
@@ -20,6 +20,7 @@ from variantlib.api import get_variant_label
 from variantlib.api import make_variant_dist_info
 from variantlib.api import validate_variant
 from variantlib.commands.utils import atomic_output_path
+from variantlib.commands.utils import record_entry_path
 from variantlib.constants import VALIDATION_VARIANT_LABEL_REGEX
 from variantlib.constants import VALIDATION_WHEEL_NAME_REGEX
 from variantlib.constants import VARIANT_DIST_INFO_FILENAME
@@ -267,10 +268,11 @@ def _make_variant(
                     with output_zip.open(file_info, "w") as output_file:
                         for line in input_file:
                             new_line = line
-                            rec_filename, _sha256, _size = line.split(b",")
                             # Skip existing hash for the discarded copy.
-                            if rec_filename.decode("utf-8") == dist_info_path:
+                            if record_entry_path(line) == dist_info_path:
                                 continue
+                            if not line.endswith(b"\n"):
+                                new_line += b"\n"
                             output_file.write(new_line)
 
                         # Write hash for the new files.
diff --git a/variantlib/commands/unmake_variant.py b/variantlib/commands/unmake_variant.py
index 3d56e4a..1ce7253 100644
--- a/variantlib/commands/unmake_variant.py
+++ b/variantlib/commands/unmake_variant.py
@@ -10,6 +10,7 @@ import zipfile
 
 from variantlib import __package_name__
 from variantlib.commands.utils import atomic_output_path
+from variantlib.commands.utils import record_entry_path
 from variantlib.constants import VALIDATION_WHEEL_NAME_REGEX
 from variantlib.constants import VARIANT_DIST_INFO_FILENAME
 
@@ -110,10 +111,9 @@ def _unmake_variant(
                     # Update RECORD to remove the checksum.
                     variant_dist_info_path = (
                         f"{components[0]}/{VARIANT_DIST_INFO_FILENAME}"
-                    ).encode()
+                    )
                     for line in input_file:
-                        rec_filename, _sha256, _size = line.split(b",")
-                        if rec_filename != variant_dist_info_path:
+                        if record_entry_path(line) != variant_dist_info_path:
                             output_file.write(line)
                 else:
                     shutil.copyfileobj(input_file, output_file)
diff --git a/variantlib/commands/utils.py b/variantlib/commands/utils.py
index 34ac477..1fb731e 100644
--- a/variantlib/commands/utils.py
+++ b/variantlib/commands/utils.py
@@ -2,6 +2,7 @@
 
 from __future__ import annotations
 
+import csv
 import os
 import shutil
 from contextlib import contextmanager
@@ -40,3 +41,9 @@ def atomic_output_path(path: Path) -> Generator[Path]:
     except BaseException:
         temp_path.unlink(missing_ok=True)
         raise
+
+
+def record_entry_path(line: bytes) -> str | None:
+    """Get the path from a single line of wheel RECORD (which is a CSV file)"""
+    row = next(csv.reader([line.decode("utf-8")]), None)
+    return row[0] if row else None
-- 
2.43.0


From 981cf3a56f2df50a2fe71cd2973a4b6b1ac7738b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:46 +0000
Subject: [PATCH 03/28] fix: refuse wheels without RECORD in make-variant

variant.json is written along with RECORD, so a wheel without one was silently
converted to a "variant" without any variant metadata.
---
 variantlib/commands/make_variant.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/variantlib/commands/make_variant.py b/variantlib/commands/make_variant.py
index 545f4a5..d2acd0b 100644
--- a/variantlib/commands/make_variant.py
+++ b/variantlib/commands/make_variant.py
@@ -245,6 +245,14 @@ def _make_variant(
         zipfile.ZipFile(input_filepath, "r") as input_zip,
         zipfile.ZipFile(temp_filepath, "w") as output_zip,
     ):
+        if not any(
+            len(components := name.split("/", 2)) == 2
+            and components[0].endswith(".dist-info")
+            and components[1] == "RECORD"
+            for name in input_zip.namelist()
+        ):
+            raise ValidationError(f"{input_filepath.name!r} has no RECORD file.")
+
         for file_info in input_zip.infolist():
             components = file_info.filename.split("/", 2)
             is_dist_info = len(components) == 2 and components[0].endswith(".dist-info")
-- 
2.43.0


From 54af085f15e1286eca475d00c6c9b3211817da19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:46 +0000
Subject: [PATCH 04/28] fix: verify wheels before merging them into an index

merge() added the variants before checking consistency, so a rejected wheel ended
up in the index nevertheless. It also replaced a different variant of the same
label and ignored differing static properties.
---
 variantlib/variants_json.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/variantlib/variants_json.py b/variantlib/variants_json.py
index 363eeb5..b079418 100644
--- a/variantlib/variants_json.py
+++ b/variantlib/variants_json.py
@@ -112,14 +112,20 @@ class VariantsJson(VariantInfo):
     def merge(self, variant_dist_info: Self) -> None:
         """Merge info from another wheel (VariantsJson instance)"""
 
-        # Merge the variant properties
-        self.variants.update(variant_dist_info.variants)
+        # Verify that the labels do not collide
+        for label, vdesc in variant_dist_info.variants.items():
+            if self.variants.get(label, vdesc) != vdesc:
+                raise ValidationError(
+                    f"Variant label {label!r} is already used for a variant with "
+                    "different properties"
+                )
 
-        # Verify consistency of default priorities
+        # Verify consistency of default priorities and static properties
         for attribute in (
             "namespace_priorities",
             "feature_priorities",
             "property_priorities",
+            "static_properties",
         ):
             new_value = getattr(variant_dist_info, attribute)
             old_value = getattr(self, attribute)
@@ -154,6 +160,9 @@ class VariantsJson(VariantInfo):
                             f"Expected: {old!r}, found: {new!r}"
                         )
 
+        # Merge the variant properties, once everything has been verified
+        self.variants.update(variant_dist_info.variants)
+
     def _get_expected_aot_namespaces(self) -> set[VariantNamespace]:
         return {
             namespace
-- 
2.43.0


From abcb72da7dd07a1301cf51ed2bea41e122003745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:46 +0000
Subject: [PATCH 05/28] fix: process wheels in a fixed order in
 generate-index-json

Which one of several inconsistent wheels was indexed depended on the order in
which the file system listed them.
---
 variantlib/commands/generate_index_json.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/variantlib/commands/generate_index_json.py b/variantlib/commands/generate_index_json.py
index 6ead9ff..54ed9eb 100644
--- a/variantlib/commands/generate_index_json.py
+++ b/variantlib/commands/generate_index_json.py
@@ -46,7 +46,7 @@ def generate_index_json(args: list[str]) -> None:
         lambda: defaultdict(set)
     )
 
-    for wheel in directory.glob("*.whl"):
+    for wheel in sorted(directory.glob("*.whl")):
         # Skip non wheel variants
         if (wheel_info := VALIDATION_WHEEL_NAME_REGEX.fullmatch(wheel.name)) is None:
             logger.exception(
-- 
2.43.0


From 411ed42716d2f95dd78130e03fa5817ed746b9de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:46 +0000
Subject: [PATCH 06/28] fix: do not share provider answers between interpreters
 and callers

The cache key lacked the Python interpreter that was queried, so the answer of one
environment was returned for another; and the cached object itself was returned,
so a caller modifying e.g. the list of values changed later answers.
---
 variantlib/plugins/loader.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/variantlib/plugins/loader.py b/variantlib/plugins/loader.py
index b87987e..e248f80 100644
--- a/variantlib/plugins/loader.py
+++ b/variantlib/plugins/loader.py
@@ -9,6 +9,7 @@ import sys
 from abc import abstractmethod
 from collections.abc import Collection
 from contextlib import suppress
+from copy import deepcopy
 from importlib.metadata import Distribution
 from importlib.metadata import entry_points
 from pathlib import Path
@@ -96,17 +97,17 @@ class BasePluginLoader:
         _commands = json.dumps(commands).encode("utf8")
         _args: tuple[str] = tuple(args)  # type: ignore[assignment]
 
-        cache_key = hash((_plugin_apis, _commands, _args))
+        cache_key = hash((str(self._python_executable), _plugin_apis, _commands, _args))
 
         with suppress(KeyError):
-            return VARIANT_PROVIDER_CACHE_TABLE[cache_key]
+            return deepcopy(VARIANT_PROVIDER_CACHE_TABLE[cache_key])
 
         result = self._run_call_subprocess(
             plugin_apis=_plugin_apis,
             commands=_commands,
             args=_args,
         )
-        VARIANT_PROVIDER_CACHE_TABLE[cache_key] = result
+        VARIANT_PROVIDER_CACHE_TABLE[cache_key] = deepcopy(result)
         return result
 
     def _run_call_subprocess(
-- 
2.43.0


From 5160327643c5c5cb2535e70f60e7706971e2fe9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:46 +0000
Subject: [PATCH 07/28] fix: keep plugin loaders usable after a failure to load
 plugins

A loader whose __enter__() failed reported to be inside the context manager ever
after, and answered queries as if there were no plugins.
---
 variantlib/plugins/loader.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/variantlib/plugins/loader.py b/variantlib/plugins/loader.py
index e248f80..08cf6f8 100644
--- a/variantlib/plugins/loader.py
+++ b/variantlib/plugins/loader.py
@@ -74,7 +74,12 @@ class BasePluginLoader:
     def __enter__(self) -> Self:
         if self._namespace_map is not None:
             raise RuntimeError("Already inside the context manager!")
-        self._load_all_plugins()
+        try:
+            self._load_all_plugins()
+        except BaseException:
+            # __exit__() is not going to be called
+            self._namespace_map = None
+            raise
         return self
 
     def __exit__(
-- 
2.43.0


From 683e4faca0192061372e86e9879d3211fb68e6f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:46 +0000
Subject: [PATCH 08/28] fix: report plugin failures with non-UTF-8 error output
 as PluginError

---
 variantlib/plugins/loader.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/variantlib/plugins/loader.py b/variantlib/plugins/loader.py
index 08cf6f8..25a9c13 100644
--- a/variantlib/plugins/loader.py
+++ b/variantlib/plugins/loader.py
@@ -156,7 +156,8 @@ class BasePluginLoader:
 
             if process.returncode != 0:
                 raise PluginError(
-                    f"Plugin invocation failed:\n{process.stderr.decode('utf8')}"
+                    f"Plugin invocation failed:\n"
+                    f"{process.stderr.decode('utf8', errors='replace')}"
                 )
 
             return json.loads(process.stdout)  # type: ignore[no-any-return]
-- 
2.43.0


From cf4312d53c2ed3e1211aa983634428a57d279bd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:46 +0000
Subject: [PATCH 09/28] fix: use the next configuration file if one vanishes
 while being read

If the file was removed between being found and being opened, the defaults were
used even though a file of lower precedence existed.
---
 variantlib/configuration.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/variantlib/configuration.py b/variantlib/configuration.py
index 437aa84..e4c4179 100644
--- a/variantlib/configuration.py
+++ b/variantlib/configuration.py
@@ -2,6 +2,7 @@ from __future__ import annotations
 
 import logging
 import sys
+from contextlib import suppress
 from enum import IntEnum
 from functools import cache
 from functools import wraps
@@ -115,11 +116,16 @@ class VariantConfiguration:
     @classmethod
     def get_config(cls) -> ConfigurationModel:
         """Load the configuration from the configuration files"""
-        try:
-            return cls.get_config_from_file(cls.get_config_file())
-        except FileNotFoundError:
-            # No user-configuration file found
-            return ConfigurationModel.default()
+        while True:
+            try:
+                config_file = cls.get_config_file()
+            except FileNotFoundError:
+                # No user-configuration file found
+                return ConfigurationModel.default()
+
+            # If the file has been removed since, look for the next one.
+            with suppress(FileNotFoundError):
+                return cls.get_config_from_file(config_file)
 
     @classproperty
     @check_initialized
-- 
2.43.0


From 8adc51b587d484277af1fbdfbf204678d7c6fdba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:46 +0000
Subject: [PATCH 10/28] fix: cope with shadowed and broken packages in ABI
 dependency support

A package shadowed by another one earlier on sys.path took precedence over it, and
a single package without name or with an invalid version (or an invalid entry in
VARIANT_ABI_DEPENDENCY) made every query fail.
---
 variantlib/resolver/lib.py | 35 +++++++++++++++++++++++++++++++----
 1 file changed, 31 insertions(+), 4 deletions(-)

diff --git a/variantlib/resolver/lib.py b/variantlib/resolver/lib.py
index f966d22..925a2ff 100644
--- a/variantlib/resolver/lib.py
+++ b/variantlib/resolver/lib.py
@@ -6,8 +6,10 @@ import os
 from typing import TYPE_CHECKING
 
 from packaging.utils import canonicalize_name
+from packaging.version import InvalidVersion
 from packaging.version import Version
 
+from variantlib.constants import VALIDATION_FEATURE_NAME_REGEX
 from variantlib.constants import VARIANT_ABI_DEPENDENCY_NAMESPACE
 from variantlib.models.variant import VariantDescription
 from variantlib.models.variant import VariantFeature
@@ -35,6 +37,14 @@ def _normalize_package_name(name: str) -> str:
     return canonicalize_name(name).replace("-", "_")
 
 
+def _is_valid_version(version: str | None) -> bool:
+    try:
+        Version(version or "")
+    except InvalidVersion:
+        return False
+    return True
+
+
 def _generate_version_matches(version: str) -> Generator[str]:
     vspec = Version(version)
     yield f"{vspec.major}"
@@ -128,10 +138,17 @@ def inject_abi_dependency(
     """Inject supported vairants for the abi_dependency namespace"""
 
     # 1. Automatically populate from the current python environment
-    packages = {
-        _normalize_package_name(dist.name): dist.version
-        for dist in importlib.metadata.distributions()
-    }
+    packages: dict[str, str] = {}
+    for dist in importlib.metadata.distributions():
+        if not dist.name or not _is_valid_version(dist.version):
+            logger.warning(
+                "Ignoring installed package with invalid metadata: "
+                "`%(pkg_name)s` `%(pkg_version)s`",
+                {"pkg_name": dist.name, "pkg_version": dist.version},
+            )
+            continue
+        # Packages found earlier on the path shadow the later ones.
+        packages.setdefault(_normalize_package_name(dist.name), dist.version)
 
     # 2. Manually fed from environment variable
     #    Env Var Format: `VARIANT_ABI_DEPENDENCY=packageA==1.2.3,...,packageZ==7.8.9`
@@ -149,6 +166,16 @@ def inject_abi_dependency(
                 continue
 
             pkg_name = _normalize_package_name(pkg_name)
+            if not VALIDATION_FEATURE_NAME_REGEX.fullmatch(
+                pkg_name
+            ) or not _is_valid_version(pkg_version):
+                logger.warning(
+                    "`VARIANT_ABI_DEPENDENCY` received an invalid package name or "
+                    "version `%(pkg_spec)s`. It will be ignored.",
+                    {"pkg_spec": pkg_spec},
+                )
+                continue
+
             if (old_version := packages.get(pkg_name)) is not None:
                 logger.warning(
                     "`VARIANT_ABI_DEPENDENCY` overrides package version: "
-- 
2.43.0


From d49bf3ffb673a2a1c265ddb16f853797ae422224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:52 +0000
Subject: [PATCH 11/28] fix: write index files atomically

An error, interrupt or kill while writing left a truncated index and lost the
previous one, and readers could see partial JSON.
---
 variantlib/commands/add_wheel_to_index_json.py | 4 +++-
 variantlib/commands/generate_index_json.py     | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/variantlib/commands/add_wheel_to_index_json.py b/variantlib/commands/add_wheel_to_index_json.py
index 7cc12f1..7320182 100644
--- a/variantlib/commands/add_wheel_to_index_json.py
+++ b/variantlib/commands/add_wheel_to_index_json.py
@@ -7,6 +7,7 @@ import pathlib
 import zipfile
 
 from variantlib import __package_name__
+from variantlib.commands.utils import atomic_output_path
 from variantlib.constants import VALIDATION_WHEEL_NAME_REGEX
 from variantlib.constants import VARIANT_DIST_INFO_FILENAME
 from variantlib.errors import ValidationError
@@ -137,4 +138,5 @@ def add_wheel_to_index_json(args: list[str]) -> None:
             "to proceed."
         )
 
-    output_json_file.write_text(variant_json.to_str())
+    with atomic_output_path(output_json_file) as temp_path:
+        temp_path.write_text(variant_json.to_str())
diff --git a/variantlib/commands/generate_index_json.py b/variantlib/commands/generate_index_json.py
index 54ed9eb..f74e8a2 100644
--- a/variantlib/commands/generate_index_json.py
+++ b/variantlib/commands/generate_index_json.py
@@ -8,6 +8,7 @@ from collections import defaultdict
 from typing import TYPE_CHECKING
 
 from variantlib import __package_name__
+from variantlib.commands.utils import atomic_output_path
 from variantlib.constants import VALIDATION_WHEEL_NAME_REGEX
 from variantlib.constants import VARIANT_DIST_INFO_FILENAME
 from variantlib.errors import ValidationError
@@ -122,4 +123,5 @@ def generate_index_json(args: list[str]) -> None:
 
     for namever, variants_json in output_files.items():
         path = directory / f"{namever}-variants.json"
-        path.write_text(variants_json.to_str())
+        with atomic_output_path(path) as temp_path:
+            temp_path.write_text(variants_json.to_str())
-- 
2.43.0


From 3fa87ff982fb4f3d5541e0bad23c2db073386985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:52 +0000
Subject: [PATCH 12/28] fix: write pyproject.toml atomically in
 update-pyproject-toml

An error, interrupt or kill while writing left a truncated pyproject.toml.
---
 variantlib/commands/update_pyproject_toml.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/variantlib/commands/update_pyproject_toml.py b/variantlib/commands/update_pyproject_toml.py
index 22aecc8..ee9f91c 100644
--- a/variantlib/commands/update_pyproject_toml.py
+++ b/variantlib/commands/update_pyproject_toml.py
@@ -1,12 +1,14 @@
 from __future__ import annotations
 
 import argparse
+import shutil
 import sys
 from pathlib import Path
 
 from tomlkit.toml_file import TOMLFile
 
 from variantlib import __package_name__
+from variantlib.commands.utils import atomic_output_path
 from variantlib.constants import PYPROJECT_TOML_TOP_KEY
 from variantlib.constants import VARIANT_INFO_DEFAULT_PRIO_KEY
 from variantlib.constants import VARIANT_INFO_NAMESPACE_KEY
@@ -89,5 +91,10 @@ def update_pyproject_toml(args: list[str]) -> None:
                 VARIANT_INFO_PROVIDER_REQUIRES_KEY, default_requires
             )
 
-    toml_file.write(toml_data)
+    with atomic_output_path(parsed_args.file) as temp_path:
+        # Start with a copy, for TOMLFile to preserve the line endings.
+        shutil.copyfile(parsed_args.file, temp_path)
+        temp_file = TOMLFile(temp_path)
+        temp_file.read()
+        temp_file.write(toml_data)
     sys.stdout.write(f"Wrote changes to {parsed_args.file}\n")
-- 
2.43.0


From 4cf63bce678d725ce57c194394cfd65be1ad1e84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:52 +0000
Subject: [PATCH 13/28] fix: write usable providers for plugins without
 attribute

For a plugin whose entry point names a module, update-pyproject-toml wrote the
normalized reference "module:", which pyproject.toml does not accept, and did not
find the package providing it (nor for references with spaces around the colon).
---
 variantlib/commands/update_pyproject_toml.py |  4 +++-
 variantlib/plugins/loader.py                 | 20 +++++++++++++-------
 2 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/variantlib/commands/update_pyproject_toml.py b/variantlib/commands/update_pyproject_toml.py
index ee9f91c..dc03f06 100644
--- a/variantlib/commands/update_pyproject_toml.py
+++ b/variantlib/commands/update_pyproject_toml.py
@@ -83,7 +83,9 @@ def update_pyproject_toml(args: list[str]) -> None:
 
             namespace_table = provider_table.setdefault(namespace, {})
             plugin_api = loader.plugin_api_values[namespace]
-            namespace_table[VARIANT_INFO_PROVIDER_PLUGIN_API_KEY] = plugin_api
+            namespace_table[VARIANT_INFO_PROVIDER_PLUGIN_API_KEY] = (
+                plugin_api.removesuffix(":")
+            )
             default_requires = []
             if (dist := loader.plugin_provider_packages.get(plugin_api)) is not None:
                 default_requires.append(f"{dist.name} >={dist.version}")
diff --git a/variantlib/plugins/loader.py b/variantlib/plugins/loader.py
index 25a9c13..a926df9 100644
--- a/variantlib/plugins/loader.py
+++ b/variantlib/plugins/loader.py
@@ -165,6 +165,15 @@ class BasePluginLoader:
     @abstractmethod
     def _load_all_plugins(self) -> None: ...
 
+    @staticmethod
+    def _normalize_plugin_api(plugin_api: str) -> str:
+        plugin_api_match = validate_matches_re(
+            plugin_api, VALIDATION_PROVIDER_PLUGIN_API_REGEX
+        )
+        import_name: str = plugin_api_match.group("module")
+        attr_path: str = plugin_api_match.group("attr") or ""
+        return f"{import_name}:{attr_path}"
+
     def _load_all_plugins_from_tuple(self, plugin_apis: list[str]) -> None:
         if self._namespace_map is not None:
             raise RuntimeError(
@@ -177,13 +186,8 @@ class BasePluginLoader:
 
         normalized_plugin_apis = []
         for plugin_api in plugin_apis:
-            plugin_api_match = validate_matches_re(
-                plugin_api, VALIDATION_PROVIDER_PLUGIN_API_REGEX
-            )
-            import_name: str = plugin_api_match.group("module")
-            attr_path: str = plugin_api_match.group("attr") or ""
             # normalize it before passing to the subprocess
-            normalized_plugin_apis.append(f"{import_name}:{attr_path}")
+            normalized_plugin_apis.append(self._normalize_plugin_api(plugin_api))
 
             logger.info(
                 "Loading plugin via %(plugin_api)s",
@@ -426,7 +430,9 @@ class EntryPointPluginLoader(BasePluginLoader):
 
             plugin_apis.append(ep.value)
             if ep.dist is not None:
-                self._plugin_provider_packages[ep.value] = ep.dist
+                self._plugin_provider_packages[
+                    self._normalize_plugin_api(ep.value)
+                ] = ep.dist
 
         self._load_all_plugins_from_tuple(plugin_apis=plugin_apis)
 
-- 
2.43.0


From 9d6908064aead0e21aa29a105b54d83de6ce4f76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:52 +0000
Subject: [PATCH 14/28] fix: record static properties of all ahead-of-time
 providers

Variant metadata must list static properties for every ahead-of-time provider, but
make_variant_dist_info() queried only those used by the variant's own properties.
The null variant and variants not using such a provider got a variant.json that
every reader (analyze-wheel, the index commands, installers) rejects. Providers
reporting nothing had the same effect and are refused now.
---
 variantlib/api.py                 | 17 +++++++++--------
 variantlib/models/variant_info.py |  9 +++++++++
 2 files changed, 18 insertions(+), 8 deletions(-)

diff --git a/variantlib/api.py b/variantlib/api.py
index d1f887a..8ba2e7b 100644
--- a/variantlib/api.py
+++ b/variantlib/api.py
@@ -203,14 +203,7 @@ def make_variant_dist_info(
     variant_json.variant_label = get_variant_label(vdesc, variant_label)
 
     if expand_aot_plugin_properties:
-        namespaces = {vprop.namespace for vprop in vdesc.properties}
-        build_namespaces = {
-            ns
-            for ns in namespaces
-            if ns in variant_info.providers
-            and not variant_info.providers[ns].install_time
-            and variant_info.providers[ns].requires
-        }
+        build_namespaces = variant_info.get_build_namespaces()
         if build_namespaces:
             venv_python_executable = (
                 venv_python_executable
@@ -251,6 +244,14 @@ def make_variant_dist_info(
                         if vfeat.name not in feature_prios:
                             feature_prios.append(vfeat.name)
 
+            if missing_namespaces := build_namespaces.difference(
+                variant_json.static_properties
+            ):
+                raise ValidationError(
+                    "The following ahead-of-time plugins did not provide any "
+                    f"properties: {', '.join(sorted(missing_namespaces))}"
+                )
+
         # Validate that we did not end up using an unsupported property.
         # This could happen in two cases:
         # 1. validate_variant() was not called.
diff --git a/variantlib/models/variant_info.py b/variantlib/models/variant_info.py
index 19101a7..f6968e3 100644
--- a/variantlib/models/variant_info.py
+++ b/variantlib/models/variant_info.py
@@ -129,6 +129,15 @@ class VariantInfo:
             requirements.update(provider.requires)
         return requirements
 
+    def get_build_namespaces(self) -> set[VariantNamespace]:
+        """Get namespaces of AoT plugins that need to be queried at build time"""
+
+        return {
+            namespace
+            for namespace, provider in self.providers.items()
+            if not provider.install_time and provider.requires
+        }
+
     def _get_expected_aot_namespaces(self) -> set[VariantNamespace]:
         raise NotImplementedError
 
-- 
2.43.0


From 2e01d1c7b1b3d2db922ee69c5afd09ca685f812f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:35 +0000
Subject: [PATCH 15/28] fix: query ahead-of-time providers in the isolated
 environment

The isolated environment was used only to validate the properties. The supported
properties of ahead-of-time providers were then queried from the calling Python,
where the providers are not installed or another version of them is.
---
 variantlib/commands/make_variant.py | 123 ++++++++++++++--------------
 1 file changed, 63 insertions(+), 60 deletions(-)

diff --git a/variantlib/commands/make_variant.py b/variantlib/commands/make_variant.py
index d2acd0b..9d4bea3 100644
--- a/variantlib/commands/make_variant.py
+++ b/variantlib/commands/make_variant.py
@@ -173,67 +173,73 @@ def _make_variant(
     if not is_null_variant:
         # Transform properties into a VariantDescription
         vdesc = VariantDescription(properties=properties)
-
-        if validate_properties:
-            env_factory: DefaultIsolatedEnv | nullcontext[None]
-
-            if use_isolation:
-                # make it really verbose to make mypy happy
-                if installer is None:
-                    env_factory = DefaultIsolatedEnv()
-                elif installer == "pip":
-                    env_factory = DefaultIsolatedEnv(installer="pip")
-                elif installer == "uv":
-                    env_factory = DefaultIsolatedEnv(installer="uv")
-                else:
-                    raise ValueError(f"unexpected installer={installer}")
-            else:
-                env_factory = nullcontext()
-
-            with env_factory as venv:
-                if venv is not None:
-                    try:
-                        venv.install(
-                            variant_info.get_provider_requires(
-                                {vprop.namespace for vprop in vdesc.properties}
-                            )
-                        )
-                    except CalledProcessError as err:
-                        sys.stderr.write(
-                            "Installing variant provider dependencies failed:\n"
-                            f"{err.stderr.decode()}"
-                        )
-                        raise
-
-                # Verify whether the variant properties are valid
-                vdesc_valid = validate_variant(
-                    vdesc,
-                    variant_info=variant_info,
-                    venv_python_executable=venv.python_executable
-                    if venv is not None
-                    else None,
-                )
-                if vdesc_valid.invalid_properties:
-                    invalid_str = ", ".join(
-                        x.to_str() for x in vdesc_valid.invalid_properties
-                    )
-                    raise ValidationError(
-                        "The following variant properties are invalid according to the "
-                        f"plugins: {invalid_str}"
-                    )
-                if vdesc_valid.unknown_properties:
-                    unknown_str = ", ".join(
-                        x.to_str() for x in vdesc_valid.unknown_properties
-                    )
-                    raise ValidationError(
-                        "The following variant properties use namespaces that are not "
-                        f"provided by any installed plugin: {unknown_str}"
-                    )
     else:
         # Create a null variant
         vdesc = VariantDescription()
 
-    variant_label = get_variant_label(vdesc, variant_label)
+    # Providers of ahead-of-time namespaces are always queried.
+    namespaces = variant_info.get_build_namespaces()
+    if validate_properties:
+        namespaces |= {vprop.namespace for vprop in vdesc.properties}
+
+    env_factory: DefaultIsolatedEnv | nullcontext[None]
+
+    if use_isolation and namespaces:
+        # make it really verbose to make mypy happy
+        if installer is None:
+            env_factory = DefaultIsolatedEnv()
+        elif installer == "pip":
+            env_factory = DefaultIsolatedEnv(installer="pip")
+        elif installer == "uv":
+            env_factory = DefaultIsolatedEnv(installer="uv")
+        else:
+            raise ValueError(f"unexpected installer={installer}")
+    else:
+        env_factory = nullcontext()
+
+    with env_factory as venv:
+        if venv is not None:
+            try:
+                venv.install(variant_info.get_provider_requires(namespaces))
+            except CalledProcessError as err:
+                sys.stderr.write(
+                    "Installing variant provider dependencies failed:\n"
+                    f"{err.stderr.decode()}"
+                )
+                raise
+        venv_python_executable = venv.python_executable if venv is not None else None
+
+        if not is_null_variant and validate_properties:
+            # Verify whether the variant properties are valid
+            vdesc_valid = validate_variant(
+                vdesc,
+                variant_info=variant_info,
+                venv_python_executable=venv_python_executable,
+            )
+            if vdesc_valid.invalid_properties:
+                invalid_str = ", ".join(
+                    x.to_str() for x in vdesc_valid.invalid_properties
+                )
+                raise ValidationError(
+                    "The following variant properties are invalid according to the "
+                    f"plugins: {invalid_str}"
+                )
+            if vdesc_valid.unknown_properties:
+                unknown_str = ", ".join(
+                    x.to_str() for x in vdesc_valid.unknown_properties
+                )
+                raise ValidationError(
+                    "The following variant properties use namespaces that are not "
+                    f"provided by any installed plugin: {unknown_str}"
+                )
+
+        variant_label = get_variant_label(vdesc, variant_label)
+        dist_info_data = make_variant_dist_info(
+            vdesc,
+            variant_info=variant_info,
+            variant_label=variant_label,
+            venv_python_executable=venv_python_executable,
+        )
 
     # Determine output wheel filename
     output_filepath = (
@@ -267,9 +273,6 @@ def _make_variant(
                     # First, add new dist-info file prior to RECORD (not strictly
                     # required, but a nice convention).
                     dist_info_path = f"{components[0]}/{VARIANT_DIST_INFO_FILENAME}"
-                    dist_info_data = make_variant_dist_info(
-                        vdesc, variant_info=variant_info, variant_label=variant_label
-                    )
                     output_zip.writestr(dist_info_path, dist_info_data)
 
                     # Update RECORD for the new checksums.
-- 
2.43.0


From 60c7503b1285963f818507439100e60ee80d9728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:35 +0000
Subject: [PATCH 16/28] fix: refuse multiple values of single-value features in
 make-variant

validate_variant() reports such features, but make-variant ignored the report.
---
 variantlib/commands/make_variant.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/variantlib/commands/make_variant.py b/variantlib/commands/make_variant.py
index 9d4bea3..b078c81 100644
--- a/variantlib/commands/make_variant.py
+++ b/variantlib/commands/make_variant.py
@@ -233,6 +233,15 @@ def _make_variant(
                     f"provided by any installed plugin: {unknown_str}"
                 )
 
+            if vdesc_valid.multi_value_violations:
+                multi_value_str = ", ".join(
+                    sorted(x.to_str() for x in vdesc_valid.multi_value_violations)
+                )
+                raise ValidationError(
+                    "The following variant features do not allow multiple values: "
+                    f"{multi_value_str}"
+                )
+
         variant_label = get_variant_label(vdesc, variant_label)
         dist_info_data = make_variant_dist_info(
             vdesc,
-- 
2.43.0


From 613da2d900ea7311c0e8afb3bfc3126208e0abf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:40 +0000
Subject: [PATCH 17/28] fix: fail on unreadable directory in
 generate-index-json

---
 variantlib/commands/generate_index_json.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/variantlib/commands/generate_index_json.py b/variantlib/commands/generate_index_json.py
index f74e8a2..a2381ec 100644
--- a/variantlib/commands/generate_index_json.py
+++ b/variantlib/commands/generate_index_json.py
@@ -47,7 +47,8 @@ def generate_index_json(args: list[str]) -> None:
         lambda: defaultdict(set)
     )
 
-    for wheel in sorted(directory.glob("*.whl")):
+    # NB: glob() would silently ignore an unreadable directory
+    for wheel in sorted(x for x in directory.iterdir() if x.match("*.whl")):
         # Skip non wheel variants
         if (wheel_info := VALIDATION_WHEEL_NAME_REGEX.fullmatch(wheel.name)) is None:
             logger.exception(
-- 
2.43.0


From 69e419c683e72f53bec18b0d3435799a852c0b35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:20 +0000
Subject: [PATCH 18/28] fix: do not expose lists of variant info in provider
 configs

---
 variantlib/plugins/loader.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/variantlib/plugins/loader.py b/variantlib/plugins/loader.py
index a926df9..eb5d7f6 100644
--- a/variantlib/plugins/loader.py
+++ b/variantlib/plugins/loader.py
@@ -235,7 +235,9 @@ class BasePluginLoader:
             namespace: ProviderConfig(
                 namespace=namespace,
                 configs=[
-                    VariantFeatureConfig(name=name, values=values, multi_value=False)
+                    VariantFeatureConfig(
+                        name=name, values=list(values), multi_value=False
+                    )
                     for name, values in features.items()
                 ],
             )
-- 
2.43.0


From fb375ceb89843cb57647627058965f168d4039de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:47 +0000
Subject: [PATCH 19/28] fix: do not remember invalid provider answers

Answers of the plugin subprocess were stored in the answer cache before
being examined.  A malformed answer made all following queries fail as well.
---
 variantlib/plugins/loader.py | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/variantlib/plugins/loader.py b/variantlib/plugins/loader.py
index eb5d7f6..6b2482f 100644
--- a/variantlib/plugins/loader.py
+++ b/variantlib/plugins/loader.py
@@ -112,9 +112,30 @@ class BasePluginLoader:
             commands=_commands,
             args=_args,
         )
+        self._validate_answer(plugin_apis, commands, result)
         VARIANT_PROVIDER_CACHE_TABLE[cache_key] = deepcopy(result)
         return result
 
+    @staticmethod
+    def _validate_answer(
+        plugin_apis: list[str], commands: dict[str, Any], result: Any
+    ) -> None:
+        """Verify that the subprocess answered all commands for all plugins"""
+        if (
+            not isinstance(result, dict)
+            or result.keys() != commands.keys()
+            or any(
+                not isinstance(answer, dict) or answer.keys() != set(plugin_apis)
+                for answer in result.values()
+            )
+        ):
+            raise PluginError("Plugin invocation returned an unexpected answer")
+
+        for command in commands.keys() & {"get_all_configs", "get_supported_configs"}:
+            for plugin_configs in result[command].values():
+                for vfeat_cfg in plugin_configs:
+                    VariantFeatureConfig(**vfeat_cfg)
+
     def _run_call_subprocess(
         self, plugin_apis: tuple[str], commands: bytes, args: tuple[str]
     ) -> dict[str, Any]:
-- 
2.43.0


From 5c9b7b7ade32bdd3a5a1bb265b1a77b8065f72a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:43 +0000
Subject: [PATCH 20/28] fix: consider installed packages in
 check_variant_supported

Variants with ABI dependencies were offered by get_variants_by_priority()
but reported as unsupported by check_variant_supported().
---
 variantlib/api.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/variantlib/api.py b/variantlib/api.py
index 8ba2e7b..5d80ae7 100644
--- a/variantlib/api.py
+++ b/variantlib/api.py
@@ -22,6 +22,7 @@ from variantlib.models.variant import VariantValidationResult
 from variantlib.models.variant_info import VariantInfo
 from variantlib.plugins.loader import PluginLoader
 from variantlib.resolver.lib import filter_variants
+from variantlib.resolver.lib import inject_abi_dependency
 from variantlib.resolver.lib import sort_and_filter_supported_variants
 from variantlib.utils import aggregate_feature_priorities
 from variantlib.utils import aggregate_namespace_priorities
@@ -317,6 +318,8 @@ def check_variant_supported(
 
     VariantConfiguration.get_config()
 
+    inject_abi_dependency(supported_vprops, [])
+
     return bool(
         list(
             filter_variants(
-- 
2.43.0


From d00bc48f31f4278604cb2e048c46bf314beae7b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:41 +0000
Subject: [PATCH 21/28] fix: ignore packages with undecodable or invalid names
 in ABI dependency support

---
 variantlib/resolver/lib.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/variantlib/resolver/lib.py b/variantlib/resolver/lib.py
index 925a2ff..536e1e7 100644
--- a/variantlib/resolver/lib.py
+++ b/variantlib/resolver/lib.py
@@ -140,15 +140,26 @@ def inject_abi_dependency(
     # 1. Automatically populate from the current python environment
     packages: dict[str, str] = {}
     for dist in importlib.metadata.distributions():
-        if not dist.name or not _is_valid_version(dist.version):
+        try:
+            dist_name, dist_version = dist.name, dist.version
+        except UnicodeDecodeError:
+            dist_name = dist_version = None
+
+        if (
+            not dist_name
+            or not VALIDATION_FEATURE_NAME_REGEX.fullmatch(
+                _normalize_package_name(dist_name)
+            )
+            or not _is_valid_version(dist_version)
+        ):
             logger.warning(
                 "Ignoring installed package with invalid metadata: "
                 "`%(pkg_name)s` `%(pkg_version)s`",
-                {"pkg_name": dist.name, "pkg_version": dist.version},
+                {"pkg_name": dist_name, "pkg_version": dist_version},
             )
             continue
         # Packages found earlier on the path shadow the later ones.
-        packages.setdefault(_normalize_package_name(dist.name), dist.version)
+        packages.setdefault(_normalize_package_name(dist_name), dist_version)
 
     # 2. Manually fed from environment variable
     #    Env Var Format: `VARIANT_ABI_DEPENDENCY=packageA==1.2.3,...,packageZ==7.8.9`
-- 
2.43.0


From b7f0476f445462a58791c892ab2713da3de8eb68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:19 +0000
Subject: [PATCH 22/28] fix: reject falsy values of wrong types in
 configuration files

---
 variantlib/models/configuration.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/variantlib/models/configuration.py b/variantlib/models/configuration.py
index 8a2bc3a..ab2ac19 100644
--- a/variantlib/models/configuration.py
+++ b/variantlib/models/configuration.py
@@ -130,9 +130,15 @@ class VariantConfiguration(BaseModel):
         """
 
         return cls(
-            namespace_priorities=namespace_priorities or [],
-            feature_priorities=feature_priorities or {},
-            property_priorities=property_priorities or {},
+            namespace_priorities=(
+                namespace_priorities if namespace_priorities is not None else []
+            ),
+            feature_priorities=(
+                feature_priorities if feature_priorities is not None else {}
+            ),
+            property_priorities=(
+                property_priorities if property_priorities is not None else {}
+            ),
         )
 
     def to_dict(self) -> dict[str, Any]:
-- 
2.43.0


From 1a84d83f1dde11c311da05ea5fe8681398477930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:56 +0000
Subject: [PATCH 23/28] fix: make cached configuration properties safe against
 concurrent reset

---
 variantlib/configuration.py | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/variantlib/configuration.py b/variantlib/configuration.py
index e4c4179..158cda9 100644
--- a/variantlib/configuration.py
+++ b/variantlib/configuration.py
@@ -68,10 +68,11 @@ R = TypeVar("R")
 def check_initialized(func: Callable[..., R]) -> Callable[..., R]:
     @wraps(func)
     def wrapper(cls: type[VariantConfiguration], *args: Any, **kwargs: Any) -> R:
-        if cls._config is None:
-            cls._config = cls.get_config()
+        # Another thread may call reset() at any time.
+        if (config := cls._config) is None:
+            config = cls._config = cls.get_config()
 
-        return func(cls, *args, **kwargs)
+        return func(config, *args, **kwargs)
 
     return wrapper
 
@@ -129,17 +130,19 @@ class VariantConfiguration:
 
     @classproperty
     @check_initialized
-    def namespace_priorities(cls) -> list[VariantNamespace]:  # noqa: N805
-        return cls._config.namespace_priorities  # type: ignore[union-attr]
+    def namespace_priorities(config: ConfigurationModel) -> list[VariantNamespace]:  # noqa: N805
+        return config.namespace_priorities
 
     @classproperty
     @check_initialized
-    def feature_priorities(cls) -> dict[VariantNamespace, list[VariantFeatureName]]:  # noqa: N805
-        return cls._config.feature_priorities  # type: ignore[union-attr]
+    def feature_priorities(
+        config: ConfigurationModel,  # noqa: N805
+    ) -> dict[VariantNamespace, list[VariantFeatureName]]:
+        return config.feature_priorities
 
     @classproperty
     @check_initialized
     def property_priorities(
-        cls,  # noqa: N805
+        config: ConfigurationModel,  # noqa: N805
     ) -> dict[VariantNamespace, dict[VariantFeatureName, list[VariantFeatureValue]]]:
-        return cls._config.property_priorities  # type: ignore[union-attr]
+        return config.property_priorities
-- 
2.43.0


From eb94ee0c0788f4097de859b090f29310eca6db96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:40 +0000
Subject: [PATCH 24/28] fix: drop local version label from requirements in
 update-pyproject-toml

---
 variantlib/commands/update_pyproject_toml.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/variantlib/commands/update_pyproject_toml.py b/variantlib/commands/update_pyproject_toml.py
index dc03f06..e9142cd 100644
--- a/variantlib/commands/update_pyproject_toml.py
+++ b/variantlib/commands/update_pyproject_toml.py
@@ -88,7 +88,9 @@ def update_pyproject_toml(args: list[str]) -> None:
             )
             default_requires = []
             if (dist := loader.plugin_provider_packages.get(plugin_api)) is not None:
-                default_requires.append(f"{dist.name} >={dist.version}")
+                # Local version labels are not permitted with ">=".
+                version = dist.version.partition("+")[0]
+                default_requires.append(f"{dist.name} >={version}")
             namespace_table.setdefault(
                 VARIANT_INFO_PROVIDER_REQUIRES_KEY, default_requires
             )
-- 
2.43.0


From 2375fec685b43f81a09b48fc26f5b19aa2d155fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:13 +0000
Subject: [PATCH 25/28] fix: update pyproject.toml files with out-of-order
 variant tables

---
 variantlib/commands/update_pyproject_toml.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/variantlib/commands/update_pyproject_toml.py b/variantlib/commands/update_pyproject_toml.py
index e9142cd..390729e 100644
--- a/variantlib/commands/update_pyproject_toml.py
+++ b/variantlib/commands/update_pyproject_toml.py
@@ -59,11 +59,12 @@ def update_pyproject_toml(args: list[str]) -> None:
     except FileNotFoundError:
         parser.error(f"{str(parsed_args.file)!r} does not exist")
 
-    # prepare all relevant tables
+    # Prepare all relevant tables. Add new tables and keys only once they are
+    # complete, since tomlkit may add a copy if the tables are out of order.
     variant_table = toml_data.setdefault(PYPROJECT_TOML_TOP_KEY, {})
-    default_prio_table = variant_table.setdefault(VARIANT_INFO_DEFAULT_PRIO_KEY, {})
-    namespace_prio_key = default_prio_table.setdefault(VARIANT_INFO_NAMESPACE_KEY, [])
-    provider_table = variant_table.setdefault(VARIANT_INFO_PROVIDER_DATA_KEY, {})
+    default_prio_table = variant_table.get(VARIANT_INFO_DEFAULT_PRIO_KEY, {})
+    namespace_prio_key = default_prio_table.get(VARIANT_INFO_NAMESPACE_KEY, [])
+    provider_table = variant_table.get(VARIANT_INFO_PROVIDER_DATA_KEY, {})
 
     with EntryPointPluginLoader() as loader:
         for namespace in parsed_args.delete:
@@ -81,7 +82,7 @@ def update_pyproject_toml(args: list[str]) -> None:
             if namespace not in namespace_prio_key:
                 namespace_prio_key.append(namespace)
 
-            namespace_table = provider_table.setdefault(namespace, {})
+            namespace_table = provider_table.get(namespace, {})
             plugin_api = loader.plugin_api_values[namespace]
             namespace_table[VARIANT_INFO_PROVIDER_PLUGIN_API_KEY] = (
                 plugin_api.removesuffix(":")
@@ -94,6 +95,11 @@ def update_pyproject_toml(args: list[str]) -> None:
             namespace_table.setdefault(
                 VARIANT_INFO_PROVIDER_REQUIRES_KEY, default_requires
             )
+            provider_table.setdefault(namespace, namespace_table)
+
+    default_prio_table.setdefault(VARIANT_INFO_NAMESPACE_KEY, namespace_prio_key)
+    variant_table.setdefault(VARIANT_INFO_DEFAULT_PRIO_KEY, default_prio_table)
+    variant_table.setdefault(VARIANT_INFO_PROVIDER_DATA_KEY, provider_table)
 
     with atomic_output_path(parsed_args.file) as temp_path:
         # Start with a copy, for TOMLFile to preserve the line endings.
-- 
2.43.0


From 7ac60745c94cf1e77569391ad24cb042d68d3f7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:37:29 +0000
Subject: [PATCH 26/28] fix: Do not mix up variants whose truncated hashes
 collide

---
 variantlib/api.py                | 8 +++++---
 variantlib/resolver/filtering.py | 5 +++--
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/variantlib/api.py b/variantlib/api.py
index 5d80ae7..b79d84c 100644
--- a/variantlib/api.py
+++ b/variantlib/api.py
@@ -79,14 +79,16 @@ def get_variants_by_priority(
         )
 
     config = VariantConfiguration.get_config()
+    # NB: the hash is truncated, so different variants may share it
     label_map = {
-        vdesc.hexdigest: label for label, vdesc in variants_json.variants.items()
+        tuple(vdesc.properties): label
+        for label, vdesc in variants_json.variants.items()
     }
     # handle the implicit null variant
-    label_map.setdefault(VariantDescription([]).hexdigest, NULL_VARIANT_LABEL)
+    label_map.setdefault((), NULL_VARIANT_LABEL)
 
     return [
-        label_map[vdesc.hexdigest]
+        label_map[tuple(vdesc.properties)]
         for vdesc in sort_and_filter_supported_variants(
             list(variants_json.variants.values()),
             supported_vprops,
diff --git a/variantlib/resolver/filtering.py b/variantlib/resolver/filtering.py
index da77def..d2e2fc7 100644
--- a/variantlib/resolver/filtering.py
+++ b/variantlib/resolver/filtering.py
@@ -34,14 +34,15 @@ def remove_duplicates(
         """
         validate_type(vdesc, VariantDescription)
 
-        if vdesc.hexdigest in seen:
+        # NB: the hash is truncated, so different variants may share it
+        if (vprops := tuple(vdesc.properties)) in seen:
             logger.info(
                 "Variant `%(vhash)s` has been removed because it is a duplicate",
                 {"vhash": vdesc.hexdigest},
             )
             return False
 
-        seen.add(vdesc.hexdigest)
+        seen.add(vprops)
         return True
 
     yield from filter(_should_include, vdescs)
-- 
2.43.0


From d779d968bad17c854642523dc2e7b4d0649e4dbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:59:49 +0000
Subject: [PATCH 27/28] fix: Notice packages installed while the process runs

---
 variantlib/resolver/lib.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/variantlib/resolver/lib.py b/variantlib/resolver/lib.py
index 536e1e7..4e1345a 100644
--- a/variantlib/resolver/lib.py
+++ b/variantlib/resolver/lib.py
@@ -1,5 +1,6 @@
 from __future__ import annotations
 
+import importlib
 import importlib.metadata
 import logging
 import os
@@ -139,6 +140,8 @@ def inject_abi_dependency(
 
     # 1. Automatically populate from the current python environment
     packages: dict[str, str] = {}
+    # Notice packages installed since, even if the directory time is the same.
+    importlib.invalidate_caches()
     for dist in importlib.metadata.distributions():
         try:
             dist_name, dist_version = dist.name, dist.version
-- 
2.43.0


From 9f7d8377192f9c3bb7a5c9852ed4351c8002a18f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:14:11 +0000
Subject: [PATCH 28/28] fix: Reject null for optional string keys in variant
 metadata

A null value was taken for the default of the key, and its type not
checked.
---
 variantlib/validators/keytracking.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/variantlib/validators/keytracking.py b/variantlib/validators/keytracking.py
index a2954af..3114676 100644
--- a/variantlib/validators/keytracking.py
+++ b/variantlib/validators/keytracking.py
@@ -68,9 +68,9 @@ class KeyTrackingValidator:
             raise ValidationError(f"{self.key}: required key not found")
 
         self._expected_keys.append(set())
-        # validate only non-default type -- this makes optional keys easier
+        # validate only specified keys -- this makes optional keys easier
         # (since type validator can't handle optional types)
-        if self._data[-1] is not default:
+        if key in self._data[-2]:
             self.validate(self._data[-1], expected_type)
 
         # return the value
-- 
2.43.0

