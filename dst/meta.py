"""Texts for the evidence files."""
RULE = ("Case i is generated from H(VERIF_SEED, property, i): a simulated machine (files, interpreters, plugins, "
        "packages, configuration), a list of operations and enumeration/name/clock seeds; it is executed once without "
        "faults and then several times with faults placed at seam events recorded in the fault-free run.")
NONTRIVIAL = {}
REAL = ["all of variantlib (/repo), unmodified", "the provider script variantlib sends to the interpreter",
        "zipfile, json, tomllib, tomlkit, packaging, platformdirs, importlib.metadata, argparse, tempfile, shutil",
        "the kernel's tmpfs for file contents"]
STUB = ["process creation (provider script runs in-process with its own sys.modules, argv, stdio and exit status)",
        "build.env.DefaultIsolatedEnv (pip/uv/venv): simulated interpreter with an installable package set",
        "plugin packages (generated modules)", "clock, temporary names, pids, random bytes"]
ASSUMPTIONS = [
    "a crash kills the process but not the machine: completed system calls survive (no power loss, no fsync modelling)",
    "plugins are deterministic within one process lifetime, as the protocol requires",
    "configuration paths are fixed for the life of a process (no chdir between reads)",
]
EXTRA = {}

NONTRIVIAL.update({
    "C01": "Non-trivial: a make-variant reported success and its output was judged.",
    "C02": "Non-trivial: an unmake-variant reported success and its output was judged.",
    "C03": "Non-trivial: the conversion succeeded or was killed (so intermediate states were judged).",
    "C04": "Non-trivial: generate-index-json succeeded on a directory with at least one valid wheel.",
    "C05": "Non-trivial: a wheel was added to an index.",
    "C06": "Non-trivial: the index command succeeded or was killed.",
    "C07": "Non-trivial: at least two answers in one process history were judged.",
    "C08": "Non-trivial: a failure was seen, or an answer after earlier queries.",
    "C09": "Non-trivial: fewer plugin modules were allowed to run than there are providers.",
    "C10": "Non-trivial: an answer after earlier calls or changes was judged.",
    "C11": "Non-trivial: an answer after earlier calls or changes was judged.",
    "C12": "Non-trivial: a request was refused, or a validated build succeeded.",
    "C13": "Non-trivial: a build with ahead-of-time providers succeeded.",
    "C14": "Non-trivial: the installer's offer was judged.",
    "C15": "Non-trivial: a read after or during changes, or a failing read.",
    "C16": "Non-trivial: more thread switches than thread starts and ends need.",
    "C17": "Non-trivial: an update succeeded and was judged.",
    "C18": "Non-trivial: more than one output was compared.",
    "C22": "Non-trivial: at least one switch from one process to another in mid-command.",
    "C20": "Non-trivial: at least three labels of one history were compared.",
    "C21": "Non-trivial: a document was accepted or refused and that was judged.",
    "C19": "Non-trivial: more than one report was judged, or one under faults.",
})
EXTRA.update({
    "C04": ["which of several inconsistent wheels is kept is free, if independent of listing order"],
    "C05": ["index commands run one after another (at the same time: C22)"],
    "C11": ["a broken distribution is never combined with another copy of the same package"],
    "C15": ["at most one change happens during one read"],
    "C16": ["a loader object is used by one thread only"],
    "C17": ["files are edited through tomlkit as installed; its clean refusals of scattered tables are accepted"],
    "C22": ["processes have different pids", "lost updates between commands replacing the same file are accepted",
            "provider subprocesses run to their end without a switch"],
    "C18": ["zip time stamps of variant.json are not compared"],
})
