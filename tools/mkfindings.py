import json,subprocess
L={}
for l in subprocess.check_output(["git","-C","/repo","log","--format=%h\t%s"],text=True).splitlines():
    h,s=l.split("\t"); L[s.replace("fix: ","")]=h
F=[
("C03","write converted wheels atomically","make-variant/unmake-variant wrote the output wheel at its final path, so a crash, error or concurrent reader met a truncated wheel and a failed run left one behind"),
("C02","parse RECORD lines as CSV","unmake-variant dropped RECORD rows of other files whose path merely started like the variant.json path / quoted or unterminated rows were mishandled by make-variant and unmake-variant"),
("C01","refuse wheels without RECORD in make-variant","make-variant reported success for a wheel without RECORD although no variant.json was added"),
("C04","verify wheels before merging them into an index","a wheel rejected by generate-index-json/add-wheel-to-index-json (label collision, different static properties, late inconsistency) had already altered the index being built"),
("C04","process wheels in a fixed order in generate-index-json","which of several inconsistent wheels was indexed depended on the directory listing order"),
("C07","do not share provider answers between interpreters and callers","the process-wide answer cache returned answers of another interpreter, and callers mutating a result altered later answers"),
("C08","keep plugin loaders usable after a failure to load plugins","a loader whose __enter__ failed could never be used again"),
("C08","report plugin failures with non-UTF-8 error output as PluginError","a provider failing with non-UTF-8 stderr raised UnicodeDecodeError instead of PluginError"),
("C15","use the next configuration file if one vanishes while being read","a configuration file removed between the search and the read made the read fail with FileNotFoundError"),
("C11","cope with shadowed and broken packages in ABI dependency support","shadowed duplicates overrode the importable version; nameless or unparsable distributions and invalid VARIANT_ABI_DEPENDENCY entries crashed every ranking"),
("C06","write index files atomically","index files were rewritten in place, so a crash or error destroyed the previous index"),
("C17","write pyproject.toml atomically in update-pyproject-toml","pyproject.toml was rewritten in place, so a crash or error destroyed it"),
("C17","write usable providers for plugins without attribute","update-pyproject-toml wrote 'module:' for module-style plugins, which the project file parser rejects"),
("C13","record static properties of all ahead-of-time providers","static properties were recorded only for ahead-of-time providers used by the variant, so other wheels of the project disagreed and install-time support was lost"),
("C13","query ahead-of-time providers in the isolated environment","with isolation and --skip-plugin-validation or --null-variant the ahead-of-time provider was queried in the caller's interpreter"),
("C12","refuse multiple values of single-value features in make-variant","make-variant accepted several values for a single-value feature"),
("C04","fail on unreadable directory in generate-index-json","generate-index-json took an unreadable wheel directory for an empty one and reported success without writing an index"),
("C07","do not expose lists of variant info in provider configs","a caller altering returned provider configurations altered the static properties of the variant info they came from, hence later answers"),
("C08","do not remember invalid provider answers","a well-formed JSON answer of the wrong shape (or with ill-typed configs) was cached before being examined, so that every later query failed although the provider worked again"),
("C10","consider installed packages in check_variant_supported","a variant with an ABI dependency satisfied by an installed package was offered for installation but reported unsupported by check_variant_supported"),
("C10","Do not mix up variants whose truncated hashes collide","two variants with different properties but the same truncated hash were taken for duplicates: one was dropped and the other returned under the wrong label"),
("C11","Notice packages installed while the process runs","a package installed or upgraded between two calls was not noticed when the time of its directory stayed the same (coarse file times, clock set back), since importlib.metadata remembers directory listings"),
("C11","ignore packages with undecodable or invalid names in ABI dependency support","an installed package whose metadata is not UTF-8 or whose name is no valid package name made every ranking fail"),
("C15","reject falsy values of wrong types in configuration files","values such as \"\", false, 0 or a table/array of the wrong kind were silently replaced by defaults instead of being refused"),
("C16","make cached configuration properties safe against concurrent reset","reading a cached configuration property raised AttributeError when another thread called VariantConfiguration.reset() in between"),
("C17","drop local version label from requirements in update-pyproject-toml","for a plugin installed with a local version (1.0+cpu) update-pyproject-toml wrote a requirement that is not valid"),
("C17","update pyproject.toml files with out-of-order variant tables","when other tables stand between those of [variant], added providers and priorities were written empty although success was reported"),
("C21","Reject null for optional string keys in variant metadata","null for plugin-api or enable-if in variant.json or an index was accepted and lost in conversion instead of being rejected"),
]
fs=[]
for p,s,w in F:
    h=L[s]
    fs.append({"property":p,"status":"fixed","commit":h,"what":w,"text":f"fixed: property={p} {h} {w}"})
assert len(fs)==len(L)-1
json.dump({"findings":fs},open("/verif/known_findings.json","w"),indent=1)
