"""The properties: source of properties.jsonl and MANIFEST.json (tools/gen.py)."""

REP = "src/auditwheel/repair.py"
ABI = "src/auditwheel/wheel_abi.py"
LDD = "src/auditwheel/lddtree.py"
MREP = "src/auditwheel/main_repair.py"
WT = "src/auditwheel/wheeltools.py"
TOOLS = "src/auditwheel/tools.py"
PAT = "src/auditwheel/patcher.py"
POL = "src/auditwheel/policy/__init__.py"
ELF = "src/auditwheel/elfutils.py"

P = []


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), technique=None, level="model_checking", note=None, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, state=state,
                  observe=observe, technique=technique, level=level, note=note, na=na))


ENUM = ("explicit-state enumeration of bounded worlds (wheels x build machines x options), each executed on the real command line and "
        "compared with an independent reference model")
NOTE = ("Exhaustive within the stated bounds: every enumerated world is executed on the real tool and judged by the oracle. Trusts: the "
        "synthetic ELF generator, the independent ELF reader, the reference model of loader and policy; patchelf and strip are the real tools.")
WORLD_TXT = ("every wheel, every set of libraries on the build machine (dependency graphs, symlinks, search directories, symbol versions) and "
             "every combination of repair options")

prop("C01", "A repaired wheel is self-contained and loads the same libraries as before",
     "After a successful repair, every ELF file of the output wheel finds, from its installed place and on a machine that offers only what the "
     "claimed platform policy grants plus what the user excluded, every library it needs, directly and transitively. Each dependency is "
     "satisfied by the same library (a copy of the same file) that the dynamic loader found on the build machine.",
     ["inputs", "configurations"], WORLD_TXT,
     "The integration tests repair a few fixed wheels inside docker images; the unit tests mock the patcher. Neither enumerates dependency "
     "graphs, duplicate sonames, RPATH shapes, nested packages or symlinked libraries.",
     [REP, LDD, ABI, PAT],
     [("dependency walk", f"{LDD}:ldd"), ("grafting loop", f"{REP}:repair_wheel"), ("RPATH of consumers", f"{REP}:append_rpath_within_wheel"),
      ("merging of inner libraries' answers", f"{ABI}:get_wheel_elfdata / get_external_libs_recursively")],
     observe=["output wheel: NEEDED, SONAME, RPATH of every ELF file, replayed by a loader model"], technique=ENUM, note=NOTE)

prop("C02", "The grafted set is exactly the external closure under the claimed policy",
     "The libraries a successful repair copies into the wheel are exactly the transitive external dependencies that the claimed platform "
     "policy does not grant and the user did not exclude. Nothing granted by the policy, nothing already in the wheel and nothing only "
     "reachable through a granted library is copied, nothing required is left out, and each library is copied once.",
     ["inputs", "configurations"], WORLD_TXT,
     "Tests assert the closure for a handful of wheels and sonames; over- and under-grafting depends on the graph shape, the whitelist of "
     "the chosen policy and on which files of the wheel are reached, which only enumeration covers.",
     [REP, LDD, POL, ABI],
     [("external references per policy", f"{POL}:WheelPolicies.lddtree_external_references"), ("grafting", f"{REP}:repair_wheel, copylib")],
     technique=ENUM, note=NOTE)

prop("C03", "Grafted libraries get a content-derived unique name, used consistently",
     "Every grafted library is placed directly in the requested library directory of the wheel, as the original (symlink-resolved) file name "
     "with the first 8 hex digits of the SHA-256 of the original content inserted before the first dot (not repeated if already there), with the original permissions made "
     "owner-writable. Its SONAME equals that name, and every ELF file of the wheel that depended on it, and its symbol version requirements, "
     "refer to it by that name only.",
     ["inputs", "configurations"], WORLD_TXT,
     "Tests look at one or two libraries with ordinary names; names without dots, with several dots, with hashes, aliases through symlinks and equal names "
     "with different contents are not covered.",
     [REP, PAT, "src/auditwheel/hashfile.py"],
     [("copy and rename", f"{REP}:copylib"), ("content hash", "src/auditwheel/hashfile.py:hashfile"), ("renaming of references", f"{PAT}:Patchelf.replace_needed, set_soname")],
     technique=ENUM, note=NOTE)

prop("C04", "Search paths after repair stay inside the wheel and keep what was valid",
     "Every ELF file of the wheel that received a grafted dependency ends with a DT_RPATH made of its former entries that denote places inside the wheel, in their order and without duplicates, "
     "followed by the $ORIGIN-relative path of the grafted library directory; entries that leave the wheel or are relative are dropped. Grafted libraries have RPATH "
     "$ORIGIN exactly when they need another grafted library and none otherwise; ELF files without grafted dependencies keep their search path unchanged.",
     ["inputs", "configurations"], WORLD_TXT,
     "Unit tests check a few RPATH strings with a mocked patcher; combinations of tokens, dot-dot entries, duplicates, RUNPATH vs RPATH, and file locations are not enumerated.",
     [REP, PAT, TOOLS],
     [("RPATH filter", f"{REP}:append_rpath_within_wheel, _is_valid_rpath, _resolve_rpath_tokens"), ("deduplication", f"{TOOLS}:unique_by_index"),
      ("RPATH writing", f"{PAT}:Patchelf.set_rpath, clear_rpath")],
     technique=ENUM, note=NOTE)

prop("C05", "Platform tags added by repair are sound for everything in the wheel",
     "For every platform tag a repair adds to a wheel, every ELF file of the output, grafted libraries included, requires only symbol versions (GLIBC, GLIBCXX, CXXABI, GCC, ZLIB, ...) "
     "that the policy of that tag lists for that architecture; no tag manylinux_X_Y is added when some file requires a glibc newer than X.Y.",
     ["inputs", "configurations"], "every set of versioned symbol requirements spread over extensions, inner libraries and direct or transitive grafted libraries, for every requested platform and architecture",
     "Tests check a few fixed wheels; the verdict depends on the combination of versions over all files, of which tests sample a handful.",
     [ABI, POL, ELF, MREP],
     [("versioned symbols of the wheel and of what would be grafted", f"{ABI}:analyze_wheel_abi, get_versioned_symbols"), ("version to policy", f"{POL}:WheelPolicies.versioned_symbols_policy")],
     technique=ENUM, note=NOTE)

prop("C06", "Repair succeeds exactly when the platform is attainable, with exact tags",
     "Repairing to a platform succeeds exactly when the wheel's own and to-be-grafted content meets that policy, and every required library can be located; otherwise it fails with a non-zero status. The tags added are the requested "
     "policy with its aliases and, unless --only-plat is given, also the best policy the wheel attains without extra grafting if that has higher priority; 'auto' selects the best attainable policy.",
     ["inputs", "configurations"], WORLD_TXT,
     "Tests cover a few platform choices on fixed wheels; the decision is a function of five independent limits (symbols, references, blacklist, UCS, ISA) and the request, whose combinations only enumeration reaches.",
     [MREP, ABI, POL],
     [("limits and overall policy", f"{ABI}:analyze_wheel_abi"), ("acceptance and tags", f"{MREP}:execute"), ("policy order and lookup", f"{POL}:WheelPolicies, Policy")],
     technique=ENUM, note=NOTE)

prop("C07", "Wheels with forbidden content never get a restricted platform tag",
     "A wheel with an extension that refers to UCS2 Python symbols or to PyFPE symbols, that uses a symbol black-listed by a policy for a library it needs, or that requires an x86-64 ISA extension level above the baseline (unless the ISA check is disabled) is never given a platform tag whose policy "
     "forbids this, by any combination of options.",
     ["inputs", "configurations"], "every combination of forbidden symbols or ISA notes, their place (extension, inner library, grafted library), policies and options",
     "Tests mock the analysis or use one wheel per feature; combinations with options, places and policies are not covered.",
     [ABI, MREP, ELF, POL],
     [("UCS2 and PyFPE", f"{ELF}:elf_references_pyfpe_jbuf, elf_is_python_extension, elf_find_ucs2_symbols"), ("blacklist", f"{POL}:WheelPolicies + {ABI}:analyze_wheel_abi"),
      ("ISA extension", "src/auditwheel/architecture.py + " + ABI), ("refusal", f"{MREP}:execute")],
     technique=ENUM, note=NOTE)

prop("C08", "File name and WHEEL metadata of a repaired wheel agree; other fields kept",
     "In the output of a repair the Tag lines of WHEEL are exactly the product of the python, abi and platform tags of the file name, without duplicates and with the platform tags sorted; name, version, build, python and abi tags are the input's, the replaced linux or any tag is gone, and every other WHEEL field is unchanged (Root-Is-Purelib becomes false when the wheel was tagged any). "
     "With --no-update-tags the file name and WHEEL are unchanged.",
     ["inputs", "configurations"], "every input file name (compressed tag sets, build tags), WHEEL content (extra fields, line endings, multiple tags), platform choice and option",
     "The tests compare the tags of a few wheels; compressed tag sets, wheels already carrying platform tags and unusual WHEEL files are not enumerated.",
     [WT, MREP, POL],
     [("retagging", f"{WT}:add_platforms"), ("replaced platforms", f"{POL}:get_replace_platforms")],
     technique=ENUM, note=NOTE)

prop("C09", "RECORD of the output lists exactly the archive with correct hashes",
     "The RECORD of every wheel written lists each archive member exactly once with its SHA-256 and size (RECORD itself with neither) and lists nothing else; signature files of the former RECORD are removed.",
     ["inputs", "configurations"], "every set of member names (commas, quotes, non-ASCII, nested), every state of the input's RECORD, and every repair option that adds, moves or changes members",
     "Tests check RECORD on simple wheels; quoting, moved scripts, SBOM files, stripped files and stale entries are not combined.",
     [WT], [("rewriting", f"{WT}:rewrite_record"), ("on leaving the wheel", f"{WT}:InWheel.__exit__")], technique=ENUM, note=NOTE)

prop("C10", "Repair changes only what it must",
     "Every member of the input that needs no patching is in the output with identical content and permissions (with read and write for the owner), directories included; the only members added are grafted libraries, moved scripts and the SBOM, and the .dist-info files come last in the archive. "
     "The input wheel, the working directory and every file outside the output directory are unchanged, and no temporary files remain.",
     ["inputs", "configurations"], WORLD_TXT + ", including member modes, umask, empty directories, symlinked libraries and unusual names",
     "Tests check the presence of a few members; they do not compare every member's bytes and mode over variations of the wheel and the options.",
     [WT, TOOLS, REP, "src/auditwheel/tmpdirs.py"],
     [("unpack", f"{TOOLS}:zip2dir"), ("pack", f"{TOOLS}:dir2zip"), ("context", f"{WT}:InWheel"), ("script shim", f"{REP}:_replace_elf_script_with_shim")],
     technique=ENUM, note=NOTE)

prop("C15", "--exclude keeps a library out of the wheel and leaves references to it alone",
     "A library whose name, or whose full resolved path, matches any --exclude pattern is never copied into the wheel and references to it keep their original name, whatever else needs it; libraries that do not match are treated as without the option, and libraries reachable only through an excluded one are not grafted.",
     ["inputs", "configurations"], "every pattern (name, glob, path), every position of the excluded library in the dependency graph, with every other option",
     "Tests exclude one direct dependency of one wheel; excluded transitive, shared, in-wheel and symlinked libraries and path patterns are not enumerated.",
     [LDD, MREP, REP], [("exclusion in the walk", f"{LDD}:ldd, _ldd"), ("option", f"{MREP}:execute")], technique=ENUM, note=NOTE)

prop("C25", "No ELF file of a repaired wheel depends on libpython",
     "After a repair that succeeds (other than for Android), no ELF file of the wheel, extension, bundled or grafted library, needs libpythonX.Y, and libpython is never copied into the wheel, whether or not it exists on the build machine; libraries merely named alike are treated as ordinary ones, and all other dependencies stay satisfied.",
     ["inputs", "configurations"], "every place of a libpython dependency in the dependency graph, with every graph, platform and option",
     "One test uses one wheel whose extension needs libpython directly; transitive, shared, missing and mixed dependencies are not covered.",
     [REP, LDD, POL], [("removal", f"{REP}:repair_wheel"), ("recognition", f"{LDD}:LIBPYTHON_RE")], technique=ENUM, note=NOTE)

FAULT = ("fault_enumeration: every mutating file-system call of the real run is failed, torn, cut short, interrupted or killed in turn (libc-level injector), "
         "and the resulting file system states are checked exhaustively")

prop("C12", "A failed or interrupted run never leaves a wrong wheel or does damage",
     "If a run of auditwheel repair fails, is interrupted or is killed at any point, or any system call or any patchelf or strip invocation fails, then under every wheel name of the output "
     "directory is either what was there before or the complete, correct new wheel; every other file is unchanged and, unless the process was killed, nothing temporary is left. A run that reports success "
     "wrote exactly what a fault-free run writes, and running the command again after a failure or kill succeeds with that result.",
     ["crash_points", "fault_sequences"], "every point of a run at which a system call or an external tool can fail, do half of its work or the process can be killed or interrupted, with the output absent, present, or being the input itself",
     "No test injects a failure; the state left by a crash in the middle of any of the some 150 file-system mutations of a run is out of reach of tests.",
     [TOOLS, WT, MREP, REP, "src/auditwheel/tmpdirs.py"],
     [("archive writing", f"{TOOLS}:dir2zip, atomic_write"), ("packing on leaving the wheel", f"{WT}:InWheel.__exit__"), ("copy of a pure wheel", f"{MREP}:execute"), ("scratch directory", "src/auditwheel/tmpdirs.py:InTemporaryDirectory")],
     observe=["whole file system state after the fault; exit status; result of a repeated run"], technique=FAULT, level="fault_enumeration",
     note="Every mutating call of the recorded run of each scenario is a fault point; every listed fault is injected at each. Crash model: mutations persist in order. Trusts the LD_PRELOAD injector.")

prop("C30", "Concurrent runs do not interfere with each other",
     "When several auditwheel processes run at the same time in any interleaving, on different wheels or on the same one, sharing the output directory (which may not exist yet) and the temporary directory, each ends with the same exit status "
     "and the output directory has the same complete wheels as if the runs had been made one after the other, and nothing else is left.",
     ["schedules"], "every interleaving of the file-system operations of two processes on shared directories, for equal and different wheels and every kind of output",
     "The tests never run two processes at once; races on the output directory show in a few of many schedules.",
     [MREP, TOOLS, WT, "src/auditwheel/tmpdirs.py"],
     [("output directory", f"{MREP}:execute"), ("temporary archive and final rename", f"{TOOLS}:atomic_write"), ("scratch directory", "src/auditwheel/tmpdirs.py")],
     observe=["exit statuses and final file system of each schedule"],
     technique="stateless model checking of the implementation: two real processes under a controlled scheduler (libc-level), all schedules up to a preemption bound with partial-order reduction to operations on shared paths",
     note="All schedules of two processes within the preemption bound are executed on the real code; operations on paths only one process touches are treated as independent.")

prop("C11", "Repair output is reproducible",
     "With SOURCE_DATE_EPOCH set, the bytes of the repaired wheel, the output of show --json and the exit status depend only on the wheel, the libraries and the options: not on hash "
     "seeds or the iteration order of sets, the order of directory listings, the clock, the time zone, the locale, the working directory, HOME or the names and place of temporary files. "
     "Every archive member of the output is dated SOURCE_DATE_EPOCH (the earliest date a zip archive can express, if that is later).",
     ["inputs", "configurations", "schedules"], "every resolution of the environment's nondeterminism (set order, listing order, clock, time zone, cwd, temporary names, locale) for every wheel and option",
     "One test repairs one wheel twice in the same process, so it sees one hash seed, one listing order and one temporary directory pattern.",
     [TOOLS, WT, REP, POL, ABI, "src/auditwheel/sboms.py"],
     [("archive", f"{TOOLS}:dir2zip, walk"), ("grafting order", f"{REP}:repair_wheel"), ("SBOM", "src/auditwheel/sboms.py:create_sbom_for_wheel"), ("RECORD", f"{WT}:rewrite_record")],
     observe=["sha256 of the output wheel, standard output of show --json, exit status under each resolution"],
     technique="explicit-state exploration of the resolutions of environment nondeterminism (all permutations of listing orders and set orders, clock, names) on the real code; all executions of a world must reach the same state",
     note="All listed resolutions are executed per world; hash seeds are chosen so that every order of tracked three-element sets occurs. Larger sets are covered by several, not all, orders.")

prop("C13", "Repairing several wheels in one command equals repairing each alone",
     "auditwheel repair with several wheels gives, for every wheel before the first that fails, the output that a command of its own gives; it stops at the first failure with that wheel's exit status, "
     "and nothing is written for the failing wheel or for those after it. Results do not depend on the wheels processed before.",
     ["histories"], "every sequence of wheels (repaired, refused, failing in the middle, pure, of other libc or architecture, repeated) and the repair options",
     "The tests always pass one wheel per command, so state left over from one wheel to the next (module caches, loop variables, the working directory, the output directory) is not exercised.",
     [MREP, REP, ABI, POL], [("loop over the wheels", f"{MREP}:execute"), ("caches", f"{ABI}:get_wheel_elfdata, {TOOLS}")],
     observe=["output directory and exit status of each command"],
     technique="explicit-state enumeration of operation sequences (histories) on the real tool up to a length, compared with the composition of single steps",
     note="Every sequence of wheels of the menu up to the bound is run on the real command line in one process and compared with one process per wheel.")

prop("C14", "Every needed library is resolved to the file the documented search order gives",
     "As the dynamic loader of glibc does, needed names are resolved breadth first, each once per file analysed, to the first existing ELF file of the same class, byte order, machine and OS ABI in: the DT_RPATH directories of the file that asks and of those that led to it, nearest first (none if the file that asks has DT_RUNPATH, and never those of a file that has), "
     "the environment ((AUDITWHEEL_)LD_LIBRARY_PATH), the DT_RUNPATH directories of the file that asks, --ldpaths (or else ld.so.conf, with the files it includes in sorted order, then /lib, /lib64, /usr/lib, /usr/lib64; for musl the directories of its path file or else /lib, /usr/local/lib, /usr/lib), the loader's directory, and as a last resort the DT_RPATH directories of those that led to a file with DT_RUNPATH and the DT_RUNPATH directories of the analysed file. "
     "$ORIGIN is the directory of the real file and an empty entry the working directory; symbolic links are followed to the file they really lead to, dangling or looping ones count as absent, and the walk ends for every cyclic graph with each reachable name listed, missing ones without a path.",
     ["inputs", "configurations"], "every combination of the state of the name in each search directory, search tags on up to three nested files, NEEDED graph, link topology, spelling of the search entries, linker configuration files and content of the system directories",
     "Tests use the libraries of the host, two fixed --ldpaths lists and mocks; precedence between six sources, incompatible candidates, link topologies and cyclic graphs are not covered.",
     [LDD], [("search order", f"{LDD}:ldd"), ("candidates", f"{LDD}:find_lib"), ("links", f"{LDD}:readlink"), ("entries", f"{LDD}:parse_ld_paths"), ("command line", "src/auditwheel/main_lddtree.py:execute")],
     observe=["the tree printed by auditwheel lddtree"],
     technique="explicit-state enumeration of the bounded space of search-directory states, NEEDED graphs and link topologies, each executed on the real command line and compared with an independent reference walk, which the real dynamic loader confirms",
     note="Exhaustive within the stated bounds. Relative search entries and hardware capability subdirectories are outside the space. The reference walk is itself checked against the real ld.so of the machine on every world of three nested files and of names present twice.")

prop("C16", "Queued ELF edits are applied together, exactly and once",
     "The edits requested of the ELF patcher for a file, whether through the file itself, a symbolic link to it or before it was renamed, leave every file untouched until they are applied; applying gives each file exactly the requested NEEDED entries, version references, SONAME and search path "
     "(DT_RPATH, for Android DT_RUNPATH) and nothing else, and applying again changes nothing. A query of the search path answers what applying will write, removing and replacing the same name is refused without effect, "
     "the 'none' patcher refuses whenever an edit is pending, Android below API 24 refuses a search path, and patchelf older than 0.14.5 or missing is refused.",
     ["histories"], "every sequence of patcher operations on several files, for every patcher and platform",
     "Tests mock patchelf and check single operations; the effect of operations in combination, order and through aliases on real files is not tested.",
     [PAT], [("pending edits", f"{PAT}:ElfPatcher"), ("one patchelf call per file", f"{PAT}:_Patchelf.apply_updates"), ("version check", f"{PAT}:_verify_patchelf")],
     state=[("_updates", "edits requested but not applied, per real path", f"{PAT}:ElfPatcher._updates")],
     observe=["dynamic sections, inode and bytes of the files after each operation; answers; exceptions"],
     technique="explicit-state exploration of all operation sequences up to a depth against an abstract state machine; every model trace is executed step by step on the real patcher and the real patchelf",
     note="Every sequence within the depth bound is replayed on the implementation (conformance check at every step). One replacement per name between two applications.")

MSHOW = "src/auditwheel/main_show.py"

prop("C17", "A repaired wheel is a fixed point and show confirms its tag",
     "On the machine where a wheel was repaired, auditwheel show of the output reports a platform tag at least as old as every platform the repair claimed. Repairing the output again with the same options succeeds and gives a wheel of the same name "
     "with the same members, permissions and contents; repairing it without --plat keeps every tag it has and changes nothing but the tags.",
     ["histories", "inputs"], WORLD_TXT + ", followed by show and further repairs of the result",
     "No test repairs or shows the output of a repair; whether the second analysis of grafted, renamed and re-pathed libraries agrees with the first depends on graph and options.",
     [REP, ABI, MREP, MSHOW, LDD], [("analysis of bundled libraries", f"{ABI}:get_wheel_elfdata"), ("grafting", f"{REP}:repair_wheel"), ("tags", f"{WT}:add_platforms")],
     observe=["output wheel, show --json of it, output of the repeated repair"],
     technique="explicit-state exploration: from every state (repaired wheel) reached from the enumerated worlds the follow-up commands are executed on the real tool and the states reached are compared", note=NOTE)

prop("C20", "show reports exactly what the wheel's content implies, and changes nothing",
     "auditwheel show --json reports as overall_tag the best platform for which the wheel needs no external library, no newer symbol version, no black-listed symbol, no unsupported instruction set, UCS2 or PyFPE symbol; sym_tag, pyfpe, ucs2 and unsupported_isa give the separate reasons, external_libs the libraries (with the paths found, or null) outside the policy with the highest priority, "
     "and policy_upgrades, for every better platform, exactly the libraries and black-listed symbols to eliminate. The text output states the same tag and reasons; symbol versions of every ELF file of the wheel are listed; no file is created, changed or removed.",
     ["inputs", "configurations"], "every wheel, build machine and option of show",
     "Tests compare the text of two or three fixed wheels; the JSON fields and their agreement with the text are tested with mocks.",
     [MSHOW, ABI, POL, ELF, "src/auditwheel/json.py"], [("report", f"{MSHOW}:execute, _output_json"), ("verdict", f"{ABI}:analyze_wheel_abi"), ("per-policy references", f"{POL}:WheelPolicies.lddtree_external_references")],
     observe=["standard output of show --json and show, digests of all files before and after"], technique=ENUM, note=NOTE)

prop("C21", "The verdict of every policy fact is that of the published platform tables",
     "For each architecture, every symbol version, library and black-listed symbol of the published policies, used by an extension module, is consistent with exactly the platforms whose tables (and, for glibc, PEP 600) admit it; a version of a listed prefix that the tables do not list (newer, or of another architecture) is consistent with none; versions with prefixes the tables do not know do not matter. "
     "A platform and each of its aliases name the same policy: repair gives byte-identical wheels that carry exactly the platform and its aliases as tags. repair --plat refuses every name that is not a platform, or alias, of the machine's architecture and libc, and --help lists exactly these.",
     ["inputs", "configurations"], "every architecture, libc, symbol version, library, black-listed symbol and platform name, and pairs of versions",
     "Tests check a few versions of x86_64 against a few policies; the tables have thousands of facts per architecture, and the replacement of the {ARCH} templates, symbol-version pruning, inheritance of priorities and ordering decide each one.",
     [POL, "src/auditwheel/policy/manylinux-policy.json", "src/auditwheel/policy/musllinux-policy.json", ABI, MREP, MSHOW],
     [("tables", f"{POL}:WheelPolicies"), ("symbol versions", f"{POL}:WheelPolicies.versioned_symbols_policy"), ("libraries and black-lists", f"{POL}:WheelPolicies.lddtree_external_references"), ("platform names", f"{MREP}:configure_parser")],
     observe=["show --json for a wheel with the fact, repair --plat and its output"],
     technique="explicit-state enumeration of all facts of the policy tables (and pairs) as transitions of the real command line, compared with a reference snapshot and the rule of PEP 600",
     note="Every listed fact is executed. The snapshot of the tables in /verif/ref is the reference; tables edited on purpose need a new snapshot.")

prop("C18", "Only the ELF files of the wheel's architecture and libc count",
     "Architecture and libc of a wheel are those of its file name's platform tags or else of --plat; where these say nothing, or different things, those of the first ELF file in RECORD that has one (machine, class, byte order and, for 32-bit ARM, hard-float EABI 5; interpreter, needed libc or loader, else the extension's SOABI suffix). "
     "ELF files of another or unknown architecture, or of another libc, are left as they are and change neither the report nor the libraries and tags of the repaired wheel. A wheel without any file that counts is refused with the names of the others, as are a --plat of another architecture or libc and an extension module without a libc to go by; nothing is written then.",
     ["inputs", "configurations"], "every combination of file name tags, ELF files (machine, flags, libc, kind) in any order, and command",
     "Tests have a few wheels with one architecture each, and mocks; mixtures, order, ambiguous names and the ARM, 32-bit and byte-order variants are not covered.",
     [ABI, LDD, WT, MREP, MSHOW, "src/auditwheel/architecture.py", "src/auditwheel/libc.py"],
     [("gating", f"{ABI}:get_wheel_elfdata"), ("machine and libc", f"{LDD}:_get_platform, ldd"), ("file name", f"{WT}:get_wheel_architecture, get_wheel_libc"), ("--plat", f"{MREP}:execute")],
     state=[("architecture, libc", "what is known of the wheel while its files are visited", f"{ABI}:get_wheel_elfdata")],
     observe=["show --json; repaired wheel; exit status and message"], technique=ENUM,
     note="Exhaustive within the stated bounds; the oracle is an automaton over the list of files, compared with the real command line for every list. The build machine is x86_64 with glibc.")

prop("C27", "Android wheels get the libraries their API level lacks and keep their tag",
     "A wheel with exactly one platform tag, android_<level>_<arch>, is judged by the published library list of the highest level not above its own: repair grafts what its ELF files (extensions, libraries, executables) need, directly or not, beyond that list and libpython, found through their search paths, AUDITWHEEL_LD_LIBRARY_PATH and --ldpaths only, never in LD_LIBRARY_PATH or the build machine's directories; file name and tags stay, NEEDED entries name the copies, libpython entries are kept, and search paths are written as DT_RUNPATH, never DT_RPATH. "
     "show reports the wheel's own tag as overall tag if nothing is to be grafted, linux_<arch> otherwise, with these libraries. A wheel with further android, linux or any tags, below level 21, of an unsupported architecture, with a library that is not found, with libraries to graft below level 24, or with a --plat of another libc is refused and nothing is written.",
     ["inputs", "configurations"], "every pair of deviations of level, architecture, library, place, kind of file, search path, options, tags and dependency graph",
     "Tests repair one wheel from CI with one library; levels, tables, executables, search paths and the sources of libraries interact, and the paths are shared with the Linux code that treats each of them differently.",
     [POL, "src/auditwheel/policy/android-policy.json", PAT, ABI, LDD, REP, MREP, MSHOW], [("policy of a level", f"{POL}:WheelPolicies.__init__"), ("libpython", f"{POL}:WheelPolicies.lddtree_external_references"), ("RUNPATH", f"{PAT}:Patchelf.apply_updates, {PAT}:ElfPatcher.set_rpath"), ("library directories", f"{ABI}:get_wheel_elfdata, {LDD}:ld_paths_from_arg")],
     observe=["show --json; exit status, name, tags, members, NEEDED, SONAME and search paths of the repaired wheel, and of repairing it again"], technique=ENUM, note="Exhaustive within the stated bounds on the real command line, against an independent reference walk of the same files.")

prop("C28", "Damaged input never passes silently and leaves nothing behind",
     "If the archive is cut short or any byte of it is changed, repair and show either refuse it with a non-zero status or do exactly what they do with the intact wheel (modes and times of members aside). "
     "Whatever is wrong with the metadata of the wheel or with the bytes of its ELF files and of the libraries of the build machine, the command either refuses, leaving no file in the wheel directory and no temporary file, or writes a complete wheel: "
     "RECORD exact, every other member unchanged, and every library still asked for and found grafted.",
     ["inputs", "fault_sequences"], "every length and every changed byte of an archive, of its extension module and of a library, and every broken metadata file",
     "Tests use intact wheels; truncation and corruption at a position, and their effect on what is left on disk, are not sampled at all.",
     [TOOLS, WT, ABI, ELF, "src/auditwheel/tmpdirs.py"], [("unpack", f"{TOOLS}:zip2dir"), ("metadata", f"{WT}:InWheelCtx"), ("ELF filter", f"{ELF}:elf_file_filter"), ("RECORD", f"{WT}:rewrite_record")],
     observe=["exit status, wheel directory, temporary directory, members of the output"], level="fault_enumeration",
     technique="exhaustive enumeration of corruption points: every truncation length and every single-byte change of archive, module and library, and all pairs of metadata damages, each run on the real command line and judged against the intact run",
     note="Exhaustive over positions of one small wheel and library; one byte is changed at a time with the stated masks. Running time on damaged symbol version counts is not bounded (a loop bound of pyelftools).")

prop("C29", "Wheels without ELF files are refused, or copied when that is allowed",
     "A wheel in which no ELF file counts is refused by repair and show with a non-zero status, and by show --json with a JSON document that gives the error; with --allow-pure-python-wheel, if all its platform tags are 'any', repair instead writes a byte-identical copy of the same name and mode into the wheel directory (nothing, if it already is that file) and goes on with the next wheel, and show reports it as pure with status 0. "
     "A wheel with an ELF file below a purelib folder is always refused and a wheel with an ELF file that counts is always processed, whatever its tags say. A refused wheel leaves no file behind, and an input wheel that is not the output itself is never changed.",
     ["inputs", "configurations", "histories"], "every combination of file name tags, content, option, place of the output and sequence of wheels",
     "Tests cover one pure wheel with and without the option through mocked internals; contents that only look pure or binary, the place of the output and sequences are not covered.",
     [MREP, MSHOW, ABI, WT, "src/auditwheel/options.py"], [("refusal and copy", f"{MREP}:execute"), ("report", f"{MSHOW}:execute"), ("purelib", f"{ABI}:get_wheel_elfdata"), ("pure tags", f"{WT}:get_wheel_architecture")],
     observe=["exit status, standard output, wheel directory and input wheels"], technique=ENUM,
     note="Exhaustive within the stated bounds on the real command line.")

prop("C26", "Nothing but the output wheel is written, whatever the input wheel contains",
     "No command creates, changes, removes or re-permissions any file or directory outside its own temporary directory (which is removed) and the wheel directory, and there only the output wheel, whatever names, links, modes, RECORD entries, needed libraries and search paths the wheel contains. "
     "An entry of RECORD or a member that leads outside the unpacked wheel is neither analysed nor patched, and nothing but the libraries to graft gets from outside into the output. Every member of the output and every entry of its RECORD is a relative name without parent directories.",
     ["inputs"], "every hostile name in every place of a wheel where a name occurs, alone and combined, with every command",
     "Tests use well-formed wheels only; a path that escapes works just as well until someone makes one.",
     [TOOLS, WT, REP, "src/auditwheel/tmpdirs.py", ABI], [("unpacking", f"{TOOLS}:zip2dir"), ("RECORD", f"{WT}:InWheelCtx.iter_files"), ("grafting", f"{REP}:repair_wheel, copylib"), ("search path", f"{REP}:append_rpath_within_wheel"), ("temporary directory", "src/auditwheel/tmpdirs.py:InTemporaryDirectory")],
     observe=["digests, modes and links of the whole scratch directory before and after; members of the output"], technique=ENUM,
     note="Exhaustive within the menu of names and places. The command runs as an unprivileged user; names climb at most two levels or are absolute names inside the scratch directory.")

prop("C22", "ELF programs in the scripts folder still run after the repair",
     "An ELF program directly in the scripts folder of a wheel that needs a grafted library is moved to <name>.scripts and replaced by a #!python script of the same name and mode; once the repaired wheel is installed by the wheel specification, on a machine without the libraries, starting it gives the same output and exit status (or signal) as the original did, for the same arguments, environment and standard input. "
     "This holds for every file name, mode, number of programs, wheel name and version, with --strip, --lib-sdir and --exclude, and after a second repair. A program that needs nothing, other scripts, and programs elsewhere in the wheel stay in their places.",
     ["inputs", "configurations"], "every pair of deviations of the name, mode and dependencies of the program, the wheel's name and version, the options and layout of the scripts, with lists of arguments",
     "Tests check the text of the shim for one program; whether the moved program starts depends on quoting, modes, the installer's rules, the search path from its new folder and the order of moves and edits.",
     [REP, PAT, WT], [("moved scripts", f"{REP}:_replace_elf_script_with_shim, {REP}:_path_is_script"), ("shim", f"{REP}:_script_shim"), ("edits after the move", f"{PAT}:Patchelf.update_elf_path")],
     observe=["output, exit status and signals of the installed program; members and modes of the wheel"], technique=ENUM, note="Real programs, repaired by the real command line, installed by the specification and really run, against the original program.")

prop("C23", "The result of a command does not depend on how it is written",
     "For the same wheel, libraries and options, repair gives the same status and a wheel of the same name, member order, modes and contents, in exactly the wheel directory named (created, with its parents, if needed; by default wheelhouse below the working directory), and show --json prints the same document, "
     "whether files and directories (those searched for libraries too, by option or environment) are given absolute, relative, through links or with dot components, from whatever working directory, temporary directory, verbosity and compression level, and in whatever order and spelling the options come. The working directory, the input wheel and everything else stay as they are.",
     ["configurations"], "every combination of spelling of the wheel, the wheel directory and the library directory, working and temporary directory, verbosity, compression level and option order",
     "Tests run from one directory with absolute paths; the code changes its working directory in between and resolves names before and after.",
     [MREP, REP, WT, "src/auditwheel/tmpdirs.py", "src/auditwheel/main.py", MSHOW], [("names resolved before the working directory changes", f"{MREP}:execute, {REP}:repair_wheel"), ("working directory", "src/auditwheel/tmpdirs.py:InTemporaryDirectory")],
     observe=["exit status, wheel directory, output wheel, other directories"], technique=ENUM, note="Exhaustive within the stated bounds on the real command line, compared with the plainest form of the same command.")

prop("C24", "Options come from the command line, else the environment, else the default",
     "For --plat, --zip-compression-level and --patcher the value is that of the command line, else that of AUDITWHEEL_PLAT, AUDITWHEEL_ZIP_COMPRESSION_LEVEL and AUDITWHEEL_PATCHER, else auto, the default level of zlib and patchelf; the result is exactly that of giving the value explicitly. Each member of the output is deflated at that level. "
     "A value that is not one of the choices (the empty one included), a patcher that is not installed and the patcher 'none' for a wheel that needs edits are refused with a non-zero status, nothing being written, whichever source they come from.",
     ["configurations"], "every pair of command line and environment value of each option, and combinations of the three",
     "Tests build a parser of their own for two options and a few values; the effect on the output, and combinations, are not tested.",
     [TOOLS, MREP, PAT, WT], [("environment defaults", f"{TOOLS}:EnvironmentDefault"), ("options", f"{MREP}:configure_parser"), ("level", f"{TOOLS}:dir2zip"), ("patcher", f"{PAT}:ElfPatcher.get_patcher")],
     observe=["exit status; tags, compressed sizes and digest of the output"], technique=ENUM, note="All listed pairs and combinations are executed on the real command line.")

prop("C31", "Repaired binaries, when run, do what they did before",
     "A process that loads the extension modules of a repaired wheel, or a program of it, on a machine without the libraries of the build machine, does what it did with the original wheel and these libraries: all symbols - interposed functions and variables, versioned, weak, thread-local and indirect ones - are bound to the same definitions, the same calls give the same results, constructors and destructors run in the same order. "
     "This holds for every graph of modules and libraries, whichever module is loaded first and in local or global scope, whatever compiler and linker options made the files, and with --strip, --lib-sdir and --exclude (the user then having the excluded library).",
     ["inputs", "configurations"], "every graph of extension modules or programs and libraries up to isomorphism within the bounds, every way of linking, option and order of loading",
     "Tests repair a few prebuilt wheels, mostly in docker images; whether the edited files still load and bind as before is decided by the dynamic loader, from the order and names of dependencies, versions and layout.",
     [REP, PAT, LDD, ABI], [("renaming of dependencies", f"{PAT}:Patchelf.apply_updates"), ("grafting loop", f"{REP}:repair_wheel"), ("strip", f"{REP}:strip_symbols"), ("search paths", f"{REP}:append_rpath_within_wheel")],
     observe=["what processes log that load the modules or run the programs before and after the repair"],
     technique="explicit-state enumeration of all bounded dependency graphs and ways of linking, each compiled, repaired on the real command line and really run under the real dynamic loader, against the run of the original",
     note="Real compiled code, the real loader, patchelf and strip: no model in between. Exhaustive within the stated bounds.")

prop("C32", "--strip removes symbol tables and debug information, and nothing else",
     "With --strip no ELF file that counts - extension, bundled library, program, script wherever it was moved, grafted library - has a symbol table or debug information in the repaired wheel, whether or not anything has to be grafted. "
     "Everything else is as without the option: file name, members, modes, other files and those of other architectures, names of grafted libraries, and of every ELF file the dependencies, versions, search path, dynamic symbols and loaded contents. Without the option no ELF file loses the symbol table or debug information it had.",
     ["inputs", "configurations"], "every assignment of symbol tables and debug information to the files of every role, and every option together with --strip",
     "The tests that use --strip (in docker images only) look at whether the wheel still works; which of the files (programs, moved scripts, libraries nobody needs, libraries of libraries) are stripped, and what else changes, is not looked at.",
     [REP, MREP], [("which files", f"{REP}:repair_wheel"), ("strip", f"{REP}:strip_symbols"), ("option", f"{MREP}:execute")],
     observe=["sections, dynamic facts and members of the output wheels of the same command with and without --strip"], technique=ENUM,
     note="Exhaustive within the stated menu; strip and patchelf are the real tools.")

SB, WP = "src/auditwheel/sboms.py", "src/auditwheel/_vendor/whichprovides/__init__.py"

prop("C19", "The SBOM lists exactly the grafted libraries that a package provides",
     "repair adds sboms/auditwheel.cdx.json to the dist-info directory, with its hash in RECORD, exactly if the package manager of the build machine (dpkg, rpm, apk, or apt-file for what these do not know) knows the owner of at least one grafted library; other SBOMs of the wheel and one of an earlier repair stay. It is a CycloneDX 1.4 document of the wheel (pkg:pypi, with the output's file name) and one component per such library: "
     "name, version and purl (type, distribution, percent-encoded name and version) of the owning package and a unique bom-ref, the wheel depending on all of them. Excluded, white-listed and unowned libraries do not appear, and a package manager that is missing, fails, or answers nonsense or about other files does not make the repair fail.",
     ["inputs", "configurations", "fault_sequences"], "every package manager, ownership of the grafted libraries, set of grafted libraries, wheel name, option and failure of the manager",
     "Tests mock the package lookup for one or two libraries; names and versions with special characters, several managers, shared packages, partial knowledge and failing managers are not covered.",
     [SB, WP, REP], [("document", f"{SB}:create_sbom_for_wheel"), ("owners", f"{WP}:whichprovides"), ("libraries", f"{REP}:repair_wheel")],
     observe=["the SBOM and RECORD of the output wheel"], technique=ENUM,
     note="Exhaustive within the menu. The managers are stand-ins that answer in the documented format of the real ones.")
