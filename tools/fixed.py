"""Write the fixed findings (one per fix: commit in /repo) into known_findings.json."""
import json
from pathlib import Path

F = [
    ("C12", "f60b514", "a repair that fails while writing tags or the SBOM left an output wheel behind"),
    ("C12", "13959ab", "a failing write of the archive left a truncated wheel behind"),
    ("C07", "fdc1b5f", "a wheel that references PyFPE_jbuf was repaired to every requested platform"),
    ("C06", "d0d31b8", "libraries to graft were not counted for a platform requested by its alias"),
    ("C25", "4d61c53", "grafted libraries kept their dependency on libpython"),
    ("C03", "9d4f5a0", "grafting a library whose file name has no dot crashed"),
    ("C14", "f283c53", "a symlink loop in a library directory hung every command"),
    ("C01", "1248adb", "two ELF files that resolve the same soname to different libraries got the same copy"),
    ("C26", "e44132b", "RECORD entries that point outside the wheel were read (and crashed)"),
    ("C11", "8dd6c95", "the order of the SBOM components depended on hash seeds and addresses"),
    ("C09", "36ea32d", "RECORD.p7s survived the rewrite of RECORD"),
    ("C06", "dec28c2", "--lib-sdir with more than one directory level crashed"),
    ("C14", "bb5885d", "DT_RUNPATH was searched before LD_LIBRARY_PATH"),
    ("C05", "40d2b15", "the symbol versions needed by some grafted libraries were not counted"),
    ("C12", "4e3adcd", "output wheels were not written atomically"),
    ("C30", "0fa09ae", "concurrent repairs failed when both created the wheel directory"),
    ("C14", "dc60fd6", "'..' in the target of a symlink was taken lexically, another file was found than by the system"),
    ("C14", "72028c7", "DT_RPATH was searched although DT_RUNPATH was set, if no directory of DT_RUNPATH existed"),
    ("C18", "4f4e91c", "an executable whose interpreter is not installed crashed show and repair"),
    ("C19", "5fa00d0", "apk package names with a dash in the version were split in the wrong place"),
    ("C19", "584312d", "apt-file answers about other files crashed the repair"),
    ("C19", "fb61ced", "progress messages of apt-file became a part of package names"),
    ("C22", "1a7cff2", "an ELF script stored without executable bits could not be started after the repair"),
    ("C27", "9c9f939", "grafted libraries of Android wheels lost their dependency on libpython"),
    ("C27", "f479454", "executables in Android wheels were taken for glibc ones and ignored"),
    ("C02", "78962e0", "libraries with ld-linux inside their name were taken for the dynamic loader and not grafted"),
    ("C14", "71b1caa", "files included by ld.so.conf were read in directory order"),
    ("C14", "567ce85", "include followed by a tab or several spaces in ld.so.conf was ignored"),
    ("C14", "1bba0ad", "directories on lines of their own in the path file of musl were ignored"),
    ("C07", "3d75eb4", "UCS2 references without a symbol type, as present linkers write them, were not seen"),
    ("C07", "6481397", "PyFPE_jbuf was not seen in extension modules whose name is not ASCII"),
    ("C05", "7489e5b", "a library needed under two names, one of them white-listed, was grafted without counting its symbol versions"),
    ("C20", "627b066", "the ISA extensions of libraries of the wheel that other files load were not checked"),
    ("C07", "3582966", "black-listed symbols used by libraries of the wheel that other files load were not counted"),
    ("C23", "4170c38", "relative directories in --ldpaths, LD_LIBRARY_PATH and AUDITWHEEL_LD_LIBRARY_PATH were never found"),
    ("C07", "6792cf0", "wheels with line separators or newlines in a file name crashed show and repair"),
    ("C17", "0b87aaf", "the ISA extensions of what an unreached library of the wheel loads counted in the repaired wheel, but not before"),
    ("C14", "d96f71a", "the DT_RPATH of the asking library was searched after that of the extension, that of libraries in between not at all, DT_RUNPATH was inherited"),
    ("C01", "c6d56d1", "libraries were looked up depth first, so the first requester of a name, whose path decides, was not the loader's"),
    ("C19", "1907b7e", "a package manager that cannot be run, or whose answer is not understood (not UTF-8, an empty answer of rpm), crashed the repair"),
    ("C06", "2897503", "a wheel with a blank line in RECORD was refused with an IndexError (since 6792cf0, one of ours)"),
]
p = Path(__file__).resolve().parent.parent / "known_findings.json"
k = [e for e in json.loads(p.read_text()) if e["status"] != "fixed"]
k += [{"property": a, "status": "fixed", "record": f"fixed: property={a} {h} {w}"} for a, h, w in F]
p.write_text(json.dumps(k, indent=1, ensure_ascii=False) + "\n")
