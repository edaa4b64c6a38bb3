From f60b514b788f5b6eee4084cbf6b336d369f3a089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:26 +0000
Subject: [PATCH 01/41] fix: don't write the output wheel of a failed repair

---
 src/auditwheel/wheeltools.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/auditwheel/wheeltools.py b/src/auditwheel/wheeltools.py
index 0ac4c3a..7a98618 100644
--- a/src/auditwheel/wheeltools.py
+++ b/src/auditwheel/wheeltools.py
@@ -137,14 +137,17 @@ class InWheel(InTemporaryDirectory):
         value: BaseException | None,
         tb: TracebackType | None,
     ) -> None:
-        if self.out_wheel is not None:
-            rewrite_record(self.name)
-            date_time = None
-            timestamp = os.environ.get("SOURCE_DATE_EPOCH")
-            if timestamp:
-                date_time = datetime.fromtimestamp(int(timestamp), tz=timezone.utc)
-            dir2zip(self.name, self.out_wheel, self.zip_compression_level, date_time)
-        return super().__exit__(exc, value, tb)
+        try:
+            # don't write a half-processed wheel when the body of the context failed
+            if exc is None and self.out_wheel is not None:
+                rewrite_record(self.name)
+                date_time = None
+                timestamp = os.environ.get("SOURCE_DATE_EPOCH")
+                if timestamp:
+                    date_time = datetime.fromtimestamp(int(timestamp), tz=timezone.utc)
+                dir2zip(self.name, self.out_wheel, self.zip_compression_level, date_time)
+        finally:
+            super().__exit__(exc, value, tb)
 
 
 class InWheelCtx(InWheel):
-- 
2.43.0


From 13959ab859e89d3987d59f5cd77e2fda6fba29ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:26 +0000
Subject: [PATCH 02/41] fix: don't leave a truncated wheel behind when writing
 the archive fails

---
 src/auditwheel/tools.py | 37 ++++++++++++++++++++++---------------
 1 file changed, 22 insertions(+), 15 deletions(-)

diff --git a/src/auditwheel/tools.py b/src/auditwheel/tools.py
index 639a065..c2733b5 100644
--- a/src/auditwheel/tools.py
+++ b/src/auditwheel/tools.py
@@ -156,21 +156,28 @@ def dir2zip(
         logger.warning("dir2zip, clipping timestamp to 1980-01-01")
         date_time_args = (1980, 1, 1, 0, 0, 0)
     compression = zipfile.ZIP_DEFLATED
-    with zipfile.ZipFile(zip_fname, "w", compression=compression) as z:
-        for dname, _, files in walk(in_dir):
-            if dname != in_dir:
-                out_dname = f"{dname.relative_to(in_dir)}/"
-                zinfo = zipfile.ZipInfo.from_file(dname, out_dname)
-                zinfo.date_time = date_time_args
-                z.writestr(zinfo, b"")
-            for file in files:
-                fname = dname / file
-                out_fname = fname.relative_to(in_dir)
-                zinfo = zipfile.ZipInfo.from_file(fname, out_fname)
-                zinfo.date_time = date_time_args
-                zinfo.compress_type = compression
-                with fname.open("rb") as fp:
-                    z.writestr(zinfo, fp.read(), compresslevel=zip_compression_level)
+    # only a complete archive shall ever be visible as zip_fname
+    tmp_fname = zip_fname.with_name(f".{zip_fname.name}.tmp")
+    try:
+        with zipfile.ZipFile(tmp_fname, "w", compression=compression) as z:
+            for dname, _, files in walk(in_dir):
+                if dname != in_dir:
+                    out_dname = f"{dname.relative_to(in_dir)}/"
+                    zinfo = zipfile.ZipInfo.from_file(dname, out_dname)
+                    zinfo.date_time = date_time_args
+                    z.writestr(zinfo, b"")
+                for file in files:
+                    fname = dname / file
+                    out_fname = fname.relative_to(in_dir)
+                    zinfo = zipfile.ZipInfo.from_file(fname, out_fname)
+                    zinfo.date_time = date_time_args
+                    zinfo.compress_type = compression
+                    with fname.open("rb") as fp:
+                        z.writestr(zinfo, fp.read(), compresslevel=zip_compression_level)
+        tmp_fname.replace(zip_fname)
+    except BaseException:
+        tmp_fname.unlink(missing_ok=True)
+        raise
     logger.debug(
         "dir2zip from %s to %s takes %s",
         in_dir,
-- 
2.43.0


From fdc1b5f9baab763fc9da7706961cac3383e6b6d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:26 +0000
Subject: [PATCH 03/41] fix: refuse to repair a wheel that references
 PyFPE_jbuf to a platform tag

---
 src/auditwheel/main_repair.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/auditwheel/main_repair.py b/src/auditwheel/main_repair.py
index 937d4ae..0804f5e 100644
--- a/src/auditwheel/main_repair.py
+++ b/src/auditwheel/main_repair.py
@@ -245,6 +245,14 @@ def execute(args: argparse.Namespace, parser: argparse.ArgumentParser) -> int:
             )
             parser.error(msg)
 
+        if requested_policy > wheel_abi.pyfpe_policy:
+            msg = (
+                f'cannot repair "{wheel_file}" to "{plat}" ABI because it uses the '
+                "PyFPE_jbuf symbol. You'll need to compile the wheel against a python "
+                "without the --with-fpectl flag."
+            )
+            parser.error(msg)
+
         if requested_policy > wheel_abi.blacklist_policy:
             msg = (
                 f'cannot repair "{wheel_file}" to "{plat}" ABI because it '
-- 
2.43.0


From d0d31b830c3df6cd3ac9d4178eef6b10f0c74942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:54 +0000
Subject: [PATCH 04/41] fix: count the libraries to graft for a policy
 requested by its alias

---
 src/auditwheel/wheel_abi.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/auditwheel/wheel_abi.py b/src/auditwheel/wheel_abi.py
index b377e3a..3db0e03 100644
--- a/src/auditwheel/wheel_abi.py
+++ b/src/auditwheel/wheel_abi.py
@@ -500,7 +500,10 @@ def analyze_wheel_abi(
             (
                 len(e.libs)
                 for e in external_refs.values()
-                if e.policy.name.startswith(f"{requested_policy_base_name}_")
+                if any(
+                    name.startswith(f"{requested_policy_base_name}_")
+                    for name in (e.policy.name, *e.policy.aliases)
+                )
             ),
             default=0,
         )
-- 
2.43.0


From 4d61c53927643d1bdc8d225c873219e4f519fadf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:54 +0000
Subject: [PATCH 05/41] fix: remove the libpython dependency of grafted
 libraries

---
 src/auditwheel/repair.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/auditwheel/repair.py b/src/auditwheel/repair.py
index b9ca254..335261a 100644
--- a/src/auditwheel/repair.py
+++ b/src/auditwheel/repair.py
@@ -120,7 +120,10 @@ def repair_wheel(
             needed = elf_read_dt_needed(path)  # TODO perf, we already read those at some point
             replacements = []
             for n in needed:
-                if n in soname_map:
+                # same as for the extensions, libpython is never there
+                if LIBPYTHON_RE.match(n):
+                    patcher.remove_needed(path, n)
+                elif n in soname_map:
                     replacements.append((n, soname_map[n][0]))
             if replacements:
                 patcher.set_rpath(path, "$ORIGIN")
-- 
2.43.0


From 9d4f5a08e7a09027b9b48e816ab9b68aa32ed1fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:54 +0000
Subject: [PATCH 06/41] fix: graft a library whose file name has no extension

---
 src/auditwheel/repair.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/auditwheel/repair.py b/src/auditwheel/repair.py
index 335261a..ecd4cd5 100644
--- a/src/auditwheel/repair.py
+++ b/src/auditwheel/repair.py
@@ -177,8 +177,8 @@ def copylib(src_path: Path, dest_dir: Path, patcher: ElfPatcher) -> tuple[str, P
         shorthash = hashfile(f)[:8]
 
     src_name = src_path.name
-    base, ext = src_name.split(".", 1)
-    new_soname = f"{base}-{shorthash}.{ext}" if not base.endswith(f"-{shorthash}") else src_name
+    base, dot, ext = src_name.partition(".")
+    new_soname = f"{base}-{shorthash}{dot}{ext}" if not base.endswith(f"-{shorthash}") else src_name
 
     dest_path = dest_dir / new_soname
     if dest_path.exists():
-- 
2.43.0


From f283c53ead1479c4c2e8a1b1a3c763cb3312eb06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:54 +0000
Subject: [PATCH 07/41] fix: don't hang on a symlink loop in a library
 directory

---
 src/auditwheel/lddtree.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/auditwheel/lddtree.py b/src/auditwheel/lddtree.py
index af46a8e..eacbb59 100644
--- a/src/auditwheel/lddtree.py
+++ b/src/auditwheel/lddtree.py
@@ -206,7 +206,10 @@ def readlink(path: str, root: str, *, prefixed: bool = False) -> str:
     if prefixed:
         path = path[len(root) :]
 
-    while os.path.islink(root + path):
+    # same limit as the kernel, the path can be part of a symlink loop
+    for _ in range(40):
+        if not os.path.islink(root + path):
+            break
         path = os.path.join(os.path.dirname(path), os.readlink(root + path))
 
     return normpath((root + path) if prefixed else path)
-- 
2.43.0


From 1248adbbb49206b5ae1e7a1873887801535e0b56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:18 +0000
Subject: [PATCH 08/41] fix: handle ELF files that resolve the same soname to
 different libraries

---
 src/auditwheel/repair.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/auditwheel/repair.py b/src/auditwheel/repair.py
index ecd4cd5..9ea7b0c 100644
--- a/src/auditwheel/repair.py
+++ b/src/auditwheel/repair.py
@@ -45,7 +45,9 @@ def repair_wheel(
     if not external_refs_by_fn:
         return None
 
-    soname_map: dict[str, tuple[str, Path]] = {}
+    # grafted libraries, with the new names of their own dependencies
+    # the same soname can be a different library for another ELF file
+    grafted_libs: dict[Path, dict[str, str]] = {}
 
     out_dir = out_dir.resolve(strict=True)
     wheel_fname = wheel_path.name
@@ -74,6 +76,7 @@ def repair_wheel(
         for fn, v in external_refs_by_fn.items():
             ext_libs = v[abis[0]].libs
             replacements: list[tuple[str, str]] = []
+            new_paths: list[Path] = []
             for soname, src_path in ext_libs.items():
                 # Handle libpython dependencies by removing them
                 if LIBPYTHON_RE.match(soname):
@@ -97,8 +100,10 @@ def repair_wheel(
                     dest_dir.mkdir()
                 sbom_filepaths.append(src_path)
                 new_soname, new_path = copylib(src_path, dest_dir, patcher)
-                soname_map[soname] = (new_soname, new_path)
+                new_paths.append(new_path)
                 replacements.append((soname, new_soname))
+            for new_path in new_paths:
+                grafted_libs[new_path] = {**dict(replacements), **grafted_libs.get(new_path, {})}
             if replacements:
                 patcher.replace_needed(fn, *replacements)
 
@@ -116,7 +121,7 @@ def repair_wheel(
         # we need to update those records so each now knows about the new
         # name of the other.
         # we also clear or set RPATH depending on the presence of internal dependencies
-        for _, path in soname_map.values():
+        for path, soname_map in grafted_libs.items():
             needed = elf_read_dt_needed(path)  # TODO perf, we already read those at some point
             replacements = []
             for n in needed:
@@ -124,7 +129,7 @@ def repair_wheel(
                 if LIBPYTHON_RE.match(n):
                     patcher.remove_needed(path, n)
                 elif n in soname_map:
-                    replacements.append((n, soname_map[n][0]))
+                    replacements.append((n, soname_map[n]))
             if replacements:
                 patcher.set_rpath(path, "$ORIGIN")
                 patcher.replace_needed(path, *replacements)
@@ -134,9 +139,8 @@ def repair_wheel(
         # strip before applying ELF patches to reduce chances of an invalid ELF being produced
         # as seen in https://github.com/pypa/auditwheel/issues/716
         if strip:
-            libs_to_strip = [path for (_, path) in soname_map.values()]
             extensions = [script_shims.get(path, path) for path in external_refs_by_fn]
-            strip_symbols(itertools.chain(libs_to_strip, extensions))
+            strip_symbols(itertools.chain(grafted_libs, extensions))
 
         patcher.apply_updates()
 
-- 
2.43.0


From e44132bd26b0b68b44a1b39ee343599f6e3b8060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:48 +0000
Subject: [PATCH 09/41] fix: ignore RECORD entries that are not inside the
 wheel

---
 src/auditwheel/wheeltools.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/auditwheel/wheeltools.py b/src/auditwheel/wheeltools.py
index 7a98618..b01d9ca 100644
--- a/src/auditwheel/wheeltools.py
+++ b/src/auditwheel/wheeltools.py
@@ -192,8 +192,11 @@ class InWheelCtx(InWheel):
         record = record_name.read_text()
         reader = csv.reader(r for r in record.splitlines())
         for row in reader:
-            filename = row[0]
-            yield Path(filename)
+            filename = Path(row[0])
+            if filename.is_absolute() or ".." in filename.parts:
+                logger.warning("ignoring %s from RECORD: not inside the wheel", filename)
+                continue
+            yield filename
 
 
 def add_platforms(
-- 
2.43.0


From 8dd6c9563a262e8206e8f71f71f4fc556df90cc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:48 +0000
Subject: [PATCH 10/41] fix: write the SBOM components in a reproducible order

---
 src/auditwheel/sboms.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/auditwheel/sboms.py b/src/auditwheel/sboms.py
index 5d0c049..878307d 100644
--- a/src/auditwheel/sboms.py
+++ b/src/auditwheel/sboms.py
@@ -67,7 +67,8 @@ def create_sbom_for_wheel(
         "dependencies": sbom_dependencies,
     }
 
-    for filepath, provided_by in sbom_packages.items():
+    # whichprovides does not return the packages in a reproducible order
+    for filepath, provided_by in sorted(sbom_packages.items(), key=lambda item: item[0]):
         bom_ref = (
             provided_by.purl + f"#{hashlib.sha256(filepath.encode(errors='ignore')).hexdigest()}"
         )
-- 
2.43.0


From 36ea32dd144d357a7ab96535434fab615e1009b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:55 +0000
Subject: [PATCH 11/41] fix: remove the RECORD.p7s signature, too, when RECORD
 is rewritten

---
 src/auditwheel/wheeltools.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/auditwheel/wheeltools.py b/src/auditwheel/wheeltools.py
index b01d9ca..daeb1c2 100644
--- a/src/auditwheel/wheeltools.py
+++ b/src/auditwheel/wheeltools.py
@@ -73,9 +73,10 @@ def rewrite_record(bdist_dir: Path) -> None:
     record_path = info_dir / "RECORD"
     record_relpath = record_path.relative_to(bdist_dir)
     # Unsign wheel - because we're invalidating the record hash
-    sig_path = info_dir / "RECORD.jws"
-    if sig_path.exists():
-        sig_path.unlink()
+    for sig_name in ("RECORD.jws", "RECORD.p7s"):
+        sig_path = info_dir / sig_name
+        if sig_path.exists():
+            sig_path.unlink()
 
     def files() -> Generator[Path]:
         for dir_, _, files in walk(bdist_dir):
-- 
2.43.0


From dec28c2eaa3f71dc6090e3fe3772b556d7a9ef09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:02 +0000
Subject: [PATCH 12/41] fix: create the parents of a nested --lib-sdir

---
 src/auditwheel/repair.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/auditwheel/repair.py b/src/auditwheel/repair.py
index 9ea7b0c..7d7f477 100644
--- a/src/auditwheel/repair.py
+++ b/src/auditwheel/repair.py
@@ -97,7 +97,7 @@ def repair_wheel(
                     raise ValueError(msg)
 
                 if not dest_dir.exists():
-                    dest_dir.mkdir()
+                    dest_dir.mkdir(parents=True)
                 sbom_filepaths.append(src_path)
                 new_soname, new_path = copylib(src_path, dest_dir, patcher)
                 new_paths.append(new_path)
-- 
2.43.0


From bb5885df34f68822245dad73038f947fa4421ae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:02 +0000
Subject: [PATCH 13/41] fix: search DT_RUNPATH after the environment, as the
 dynamic loader does

---
 src/auditwheel/lddtree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/auditwheel/lddtree.py b/src/auditwheel/lddtree.py
index eacbb59..bf4ecc3 100644
--- a/src/auditwheel/lddtree.py
+++ b/src/auditwheel/lddtree.py
@@ -593,8 +593,8 @@ def ldd(
     all_ldpaths = (
         ldpaths["rpath"]
         + rpaths
-        + runpaths
         + ldpaths["env"]
+        + runpaths
         + ldpaths["runpath"]
         + ldpaths["conf"]
         + ldpaths["interp"]
-- 
2.43.0


From 40d2b154b8924f06678534959e1d54e30b8337c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:02 +0000
Subject: [PATCH 14/41] fix: count the symbol versions of every grafted library

Only the libraries needed by the top-level ELF files counted, and of those
sharing a soname only one: the wheel got a platform tag that a grafted
library does not meet.
---
 src/auditwheel/wheel_abi.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/auditwheel/wheel_abi.py b/src/auditwheel/wheel_abi.py
index 3db0e03..27eef29 100644
--- a/src/auditwheel/wheel_abi.py
+++ b/src/auditwheel/wheel_abi.py
@@ -305,14 +305,14 @@ def get_versioned_symbols(libs: dict[Path, str]) -> dict[str, dict[str, set[str]
     :return: {soname: {depname: set([symbol_version])}} e.g.
     {'external_ref.so.1': {'libc.so.6', set(['GLIBC_2.5','GLIBC_2.12'])}}
     """
-    result = {}
+    result: dict[str, dict[str, set[str]]] = {}
     for path, elf in elf_file_filter(libs.keys()):
         # {depname: set(symbol_version)}, e.g. {'libc.so.6', set(['GLIBC_2.5','GLIBC_2.12'])}
-        elf_versioned_symbols: dict[str, set[str]] = defaultdict(set)
+        # the same soname can be more than one library
+        elf_versioned_symbols = result.setdefault(libs[path], defaultdict(set))
         for key, value in elf_find_versioned_symbols(elf):
             log.debug("path %s, key %s, value %s", path, key, value)
             elf_versioned_symbols[key].add(value)
-        result[libs[path]] = elf_versioned_symbols
     return result
 
 
@@ -461,12 +461,21 @@ def analyze_wheel_abi(
     log.debug(json.dumps(external_refs))
 
     external_libs = get_external_libs(external_refs)
-    external_versioned_symbols = get_versioned_symbols(external_libs)
+    # every library that would be grafted counts, whichever ELF file of the wheel needs it;
+    # the same soname can be a different library for another ELF file
+    grafted_refs: dict[str, ExternalReference] = {
+        p.name: ExternalReference({}, {}, p) for p in policies
+    }
+    grafted_libs: dict[Path, str] = {}
+    for refs in external_refs_by_fn.values():
+        update(grafted_refs, refs)
+        grafted_libs.update(get_external_libs(refs))
+    external_versioned_symbols = get_versioned_symbols(grafted_libs)
     symbol_policies = get_symbol_policies(
         policies,
         versioned_symbols,
         external_versioned_symbols,
-        external_refs,
+        grafted_refs,
     )
     symbol_policy = policies.versioned_symbols_policy(versioned_symbols)
 
-- 
2.43.0


From 4e3adcd542ce2afaeede9c1608d9b7a7dc95c5b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:41 +0000
Subject: [PATCH 15/41] fix: write every output wheel through its own temporary
 file

The copy of a pure wheel could be left truncated under its final name, and two
runs writing the same wheel shared one temporary file.
---
 src/auditwheel/main_repair.py |  5 +--
 src/auditwheel/tools.py       | 66 +++++++++++++++++++++++------------
 2 files changed, 47 insertions(+), 24 deletions(-)

diff --git a/src/auditwheel/main_repair.py b/src/auditwheel/main_repair.py
index 0804f5e..a3f0acd 100644
--- a/src/auditwheel/main_repair.py
+++ b/src/auditwheel/main_repair.py
@@ -13,7 +13,7 @@ from auditwheel.error import NonPlatformWheelError, WheelToolsError
 from auditwheel.libc import Libc
 from auditwheel.patcher import ElfPatcher
 from auditwheel.policy import WheelPolicies
-from auditwheel.tools import EnvironmentDefault
+from auditwheel.tools import EnvironmentDefault, atomic_write
 from auditwheel.wheeltools import get_wheel_architecture, get_wheel_libc
 
 logger = logging.getLogger(__name__)
@@ -213,7 +213,8 @@ def execute(args: argparse.Namespace, parser: argparse.ArgumentParser) -> int:
             if is_pure_python and args.ALLOW_PURE_PY_WHEEL:
                 dest_fname = wheel_dir / wheel_file.name
                 if not dest_fname.is_file() or not dest_fname.samefile(wheel_file):
-                    shutil.copy2(wheel_file, dest_fname)
+                    with atomic_write(dest_fname) as tmp_fname:
+                        shutil.copy2(wheel_file, tmp_fname)
                 # process next wheel
                 continue
             return 1
diff --git a/src/auditwheel/tools.py b/src/auditwheel/tools.py
index c2733b5..3d9e621 100644
--- a/src/auditwheel/tools.py
+++ b/src/auditwheel/tools.py
@@ -5,7 +5,9 @@ import logging
 import os
 import subprocess
 import time
+import uuid
 import zipfile
+from contextlib import contextmanager
 from datetime import datetime, timezone
 from pathlib import Path
 from typing import TYPE_CHECKING, Any, TypeVar
@@ -120,6 +122,30 @@ def zip2dir(zip_fname: Path, out_dir: Path) -> None:
     )
 
 
+@contextmanager
+def atomic_write(path: Path) -> Generator[Path]:
+    """Provide the name of a temporary file that becomes `path` on success only
+
+    Parameters
+    ----------
+    path : Path
+        Filename to write, no incomplete file is ever visible under that name
+
+    Yields
+    ------
+    tmp_path : Path
+        Filename to write to in the meantime, in the same directory as `path`
+
+    """
+    tmp_path = path.with_name(f".auditwheel-{uuid.uuid4().hex}.tmp")
+    try:
+        yield tmp_path
+        tmp_path.replace(path)
+    except BaseException:
+        tmp_path.unlink(missing_ok=True)
+        raise
+
+
 def dir2zip(
     in_dir: Path,
     zip_fname: Path,
@@ -156,28 +182,24 @@ def dir2zip(
         logger.warning("dir2zip, clipping timestamp to 1980-01-01")
         date_time_args = (1980, 1, 1, 0, 0, 0)
     compression = zipfile.ZIP_DEFLATED
-    # only a complete archive shall ever be visible as zip_fname
-    tmp_fname = zip_fname.with_name(f".{zip_fname.name}.tmp")
-    try:
-        with zipfile.ZipFile(tmp_fname, "w", compression=compression) as z:
-            for dname, _, files in walk(in_dir):
-                if dname != in_dir:
-                    out_dname = f"{dname.relative_to(in_dir)}/"
-                    zinfo = zipfile.ZipInfo.from_file(dname, out_dname)
-                    zinfo.date_time = date_time_args
-                    z.writestr(zinfo, b"")
-                for file in files:
-                    fname = dname / file
-                    out_fname = fname.relative_to(in_dir)
-                    zinfo = zipfile.ZipInfo.from_file(fname, out_fname)
-                    zinfo.date_time = date_time_args
-                    zinfo.compress_type = compression
-                    with fname.open("rb") as fp:
-                        z.writestr(zinfo, fp.read(), compresslevel=zip_compression_level)
-        tmp_fname.replace(zip_fname)
-    except BaseException:
-        tmp_fname.unlink(missing_ok=True)
-        raise
+    with (
+        atomic_write(zip_fname) as tmp_fname,
+        zipfile.ZipFile(tmp_fname, "w", compression=compression) as z,
+    ):
+        for dname, _, files in walk(in_dir):
+            if dname != in_dir:
+                out_dname = f"{dname.relative_to(in_dir)}/"
+                zinfo = zipfile.ZipInfo.from_file(dname, out_dname)
+                zinfo.date_time = date_time_args
+                z.writestr(zinfo, b"")
+            for file in files:
+                fname = dname / file
+                out_fname = fname.relative_to(in_dir)
+                zinfo = zipfile.ZipInfo.from_file(fname, out_fname)
+                zinfo.date_time = date_time_args
+                zinfo.compress_type = compression
+                with fname.open("rb") as fp:
+                    z.writestr(zinfo, fp.read(), compresslevel=zip_compression_level)
     logger.debug(
         "dir2zip from %s to %s takes %s",
         in_dir,
-- 
2.43.0


From 0fa09aec4302548680d23ffc13751f1c98bc1f41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:42 +0000
Subject: [PATCH 16/41] fix: let concurrent repairs create the same wheel
 directory

---
 src/auditwheel/main_repair.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/auditwheel/main_repair.py b/src/auditwheel/main_repair.py
index a3f0acd..f06e565 100644
--- a/src/auditwheel/main_repair.py
+++ b/src/auditwheel/main_repair.py
@@ -194,8 +194,8 @@ def execute(args: argparse.Namespace, parser: argparse.ArgumentParser) -> int:
 
         logger.info("Repairing %s", wheel_filename)
 
-        if not wheel_dir.exists():
-            wheel_dir.mkdir(parents=True)
+        # another process may create it at the same time
+        wheel_dir.mkdir(parents=True, exist_ok=True)
 
         try:
             wheel_abi = analyze_wheel_abi(
-- 
2.43.0


From dc60fd6b4dcdb48e0a7a0f98a8f54522ca1c1c17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:05 +0000
Subject: [PATCH 17/41] fix: ".." in the target of a symlink is relative to the
 real directory

---
 src/auditwheel/lddtree.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/auditwheel/lddtree.py b/src/auditwheel/lddtree.py
index bf4ecc3..134b3fe 100644
--- a/src/auditwheel/lddtree.py
+++ b/src/auditwheel/lddtree.py
@@ -211,6 +211,9 @@ def readlink(path: str, root: str, *, prefixed: bool = False) -> str:
         if not os.path.islink(root + path):
             break
         path = os.path.join(os.path.dirname(path), os.readlink(root + path))
+        if not root and os.pardir in path.split("/"):
+            # the parent of a symlinked directory is the parent of its target
+            path = os.path.join(os.path.realpath(os.path.dirname(path)), os.path.basename(path))
 
     return normpath((root + path) if prefixed else path)
 
-- 
2.43.0


From 72028c72a8c5e054e7343352893b1723bab36f3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:05 +0000
Subject: [PATCH 18/41] fix: DT_RPATH is ignored whenever DT_RUNPATH is set,
 existing directory or not

---
 src/auditwheel/lddtree.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/auditwheel/lddtree.py b/src/auditwheel/lddtree.py
index 134b3fe..e0be4f1 100644
--- a/src/auditwheel/lddtree.py
+++ b/src/auditwheel/lddtree.py
@@ -499,6 +499,7 @@ def ldd(
     needed: list[str] = []
     rpaths: list[str] = []
     runpaths: list[str] = []
+    has_runpath = False
 
     with open(path, "rb") as f:
         elf = ELFFile(f)
@@ -543,10 +544,11 @@ def ldd(
                 if t.entry.d_tag == "DT_RPATH":
                     rpaths = parse_ld_paths(t.rpath, path=str(path), root=root)  # type: ignore[attr-defined]
                 elif t.entry.d_tag == "DT_RUNPATH":
+                    has_runpath = True
                     runpaths = parse_ld_paths(t.runpath, path=str(path), root=root)  # type: ignore[attr-defined]
                 elif t.entry.d_tag == "DT_NEEDED":
                     needed.append(t.needed)  # type: ignore[attr-defined]
-            if runpaths:
+            if has_runpath:
                 # If both RPATH and RUNPATH are set, only the latter is used.
                 rpaths = []
 
-- 
2.43.0


From 4f4e91c7b3e695057850e1992d05f6f8ae903798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:30 +0000
Subject: [PATCH 19/41] fix: don't crash on an executable whose interpreter is
 not installed

---
 src/auditwheel/wheel_abi.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/auditwheel/wheel_abi.py b/src/auditwheel/wheel_abi.py
index 27eef29..032e41e 100644
--- a/src/auditwheel/wheel_abi.py
+++ b/src/auditwheel/wheel_abi.py
@@ -78,8 +78,8 @@ def _fixup_elf_trees(
         for candidate in resolved_executables:
             for library in candidate.libraries.values():
                 assert library.realpath is not None  # noqa: S101
-                assert library.realpath.is_file()  # noqa: S101
-                if path_to_elf.samefile(library.realpath):
+                # the interpreter is not necessarily installed on this machine
+                if library.realpath.is_file() and path_to_elf.samefile(library.realpath):
                     return candidate
         return None
 
-- 
2.43.0


From 5fa00d018039a5d56365210dd3f705a310c36280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:52 +0000
Subject: [PATCH 20/41] fix: split apk package names that contain a dash from
 the version

---
 src/auditwheel/_vendor/whichprovides/__init__.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/auditwheel/_vendor/whichprovides/__init__.py b/src/auditwheel/_vendor/whichprovides/__init__.py
index fa3e3fe..2d534e3 100644
--- a/src/auditwheel/_vendor/whichprovides/__init__.py
+++ b/src/auditwheel/_vendor/whichprovides/__init__.py
@@ -18,7 +18,11 @@ __all__ = ["ProvidedBy", "whichprovides"]
 __version__ = "0.4.0"
 
 _OS_RELEASE_LINES_RE = re.compile(r"^([A-Z_]+)=(?:\"([^\"]*)\"|(.*))$", re.MULTILINE)
-_APK_WHO_OWNS_RE = re.compile(r" is owned by ([^\s\-]+)-([^\s]+)$", re.MULTILINE)
+_APK_WHO_OWNS_RE = re.compile(
+    # the name can contain dashes, the version can't: <name>-<version>-r<revision>
+    r" is owned by ([^\s]+)-([^\s\-]+-r[0-9]+)$",
+    re.MULTILINE,
+)
 _DPKG_SEARCH_RE = re.compile(r"^([^:]+):")
 _DPKG_VERSION_RE = re.compile(r"^Version: ([^\s]+)", re.MULTILINE)
 _APT_FILE_SEARCH_RE = re.compile(r"^([^:]+): (.+)$", re.MULTILINE)
-- 
2.43.0


From 584312d5cf49a8d68c41721ce533d8eaf0b772d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:52 +0000
Subject: [PATCH 21/41] fix: ignore files that were not asked for in the
 results of apt-file

---
 src/auditwheel/_vendor/whichprovides/__init__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/auditwheel/_vendor/whichprovides/__init__.py b/src/auditwheel/_vendor/whichprovides/__init__.py
index 2d534e3..2e0d7c8 100644
--- a/src/auditwheel/_vendor/whichprovides/__init__.py
+++ b/src/auditwheel/_vendor/whichprovides/__init__.py
@@ -277,6 +277,9 @@ class AptFilePackageProvider(PackageProvider):
                 ),
             ).decode()
             for package_name, filepath in _APT_FILE_SEARCH_RE.findall(stdout):
+                # apt-file also lists files that only contain one of the paths
+                if filepath not in filepaths:
+                    continue
                 stdout = subprocess.check_output(
                     [apt_bin, "show", package_name],
                     stderr=subprocess.DEVNULL,
-- 
2.43.0


From fb61ced1ee1d66d90c486e1f03ab27ffb597459e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:01 +0000
Subject: [PATCH 22/41] fix: don't take the progress messages of apt-file for a
 part of the package name

---
 src/auditwheel/_vendor/whichprovides/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/auditwheel/_vendor/whichprovides/__init__.py b/src/auditwheel/_vendor/whichprovides/__init__.py
index 2e0d7c8..6a14608 100644
--- a/src/auditwheel/_vendor/whichprovides/__init__.py
+++ b/src/auditwheel/_vendor/whichprovides/__init__.py
@@ -25,7 +25,7 @@ _APK_WHO_OWNS_RE = re.compile(
 )
 _DPKG_SEARCH_RE = re.compile(r"^([^:]+):")
 _DPKG_VERSION_RE = re.compile(r"^Version: ([^\s]+)", re.MULTILINE)
-_APT_FILE_SEARCH_RE = re.compile(r"^([^:]+): (.+)$", re.MULTILINE)
+_APT_FILE_SEARCH_RE = re.compile(r"^([^:\n]+): (.+)$", re.MULTILINE)
 
 
 @dataclasses.dataclass
-- 
2.43.0


From 1a7cff25dd2ccde67d875c835bdf63a442b86113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:30 +0000
Subject: [PATCH 23/41] fix: keep an ELF script executable when it is moved out
 of the scripts folder

---
 src/auditwheel/repair.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/auditwheel/repair.py b/src/auditwheel/repair.py
index 7d7f477..ee8de97 100644
--- a/src/auditwheel/repair.py
+++ b/src/auditwheel/repair.py
@@ -286,7 +286,10 @@ def _replace_elf_script_with_shim(package_name: str, orig_path: Path) -> Path:
 
     with orig_path.open("w", newline="\n") as f:
         f.write(_script_shim(new_path))
-    orig_path.chmod(new_path.stat().st_mode)
+    mode = new_path.stat().st_mode
+    orig_path.chmod(mode)
+    # installers make scripts executable, but not the other files
+    new_path.chmod(mode | (mode & 0o444) >> 2)
 
     return new_path
 
-- 
2.43.0


From 9c9f939eb2ac3e5e676cd7cc1bc5d0437400b9d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:24 +0000
Subject: [PATCH 24/41] fix: keep the libpython dependency of grafted libraries
 on Android

---
 src/auditwheel/repair.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/auditwheel/repair.py b/src/auditwheel/repair.py
index ee8de97..bf4934d 100644
--- a/src/auditwheel/repair.py
+++ b/src/auditwheel/repair.py
@@ -14,6 +14,7 @@ from typing import TYPE_CHECKING
 from auditwheel.elfutils import elf_read_dt_needed
 from auditwheel.hashfile import hashfile
 from auditwheel.lddtree import LIBPYTHON_RE
+from auditwheel.libc import Libc
 from auditwheel.policy import get_replace_platforms
 from auditwheel.sboms import create_sbom_for_wheel
 from auditwheel.tools import is_subdir, unique_by_index
@@ -126,7 +127,8 @@ def repair_wheel(
             replacements = []
             for n in needed:
                 # same as for the extensions, libpython is never there
-                if LIBPYTHON_RE.match(n):
+                # (but libpython dependencies are normal on Android)
+                if LIBPYTHON_RE.match(n) and wheel_abi.policies.libc != Libc.ANDROID:
                     patcher.remove_needed(path, n)
                 elif n in soname_map:
                     replacements.append((n, soname_map[n]))
-- 
2.43.0


From f4794543ec999c7749405d2a8f1a59c38c2750e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:11 +0000
Subject: [PATCH 25/41] fix: recognize Android executables by their interpreter

---
 src/auditwheel/lddtree.py   | 9 +++++++--
 src/auditwheel/wheel_abi.py | 3 ++-
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/auditwheel/lddtree.py b/src/auditwheel/lddtree.py
index e0be4f1..3a8f168 100644
--- a/src/auditwheel/lddtree.py
+++ b/src/auditwheel/lddtree.py
@@ -522,8 +522,13 @@ def ldd(
                     Path(readlink(interpreter, root, prefixed=True)),
                     platform,
                 )
-                # if we have an interpreter and it's not MUSL, assume GLIBC
-                libc = Libc.MUSL if soname.startswith("ld-musl-") else Libc.GLIBC
+                # if we have an interpreter and it's not MUSL or Android, assume GLIBC
+                if soname.startswith("ld-musl-"):
+                    libc = Libc.MUSL
+                elif soname in ("linker", "linker64"):
+                    libc = Libc.ANDROID
+                else:
+                    libc = Libc.GLIBC
                 if ldpaths is None:
                     ldpaths = load_ld_paths(libc).copy()
                 # TODO: Should read it and scan for /lib paths.
diff --git a/src/auditwheel/wheel_abi.py b/src/auditwheel/wheel_abi.py
index 032e41e..f9ffb68 100644
--- a/src/auditwheel/wheel_abi.py
+++ b/src/auditwheel/wheel_abi.py
@@ -173,7 +173,8 @@ def get_wheel_elfdata(
                     continue
 
                 if elftree.libc is not None:
-                    if libc is None:
+                    # Android wheels always have a platform tag
+                    if libc is None and elftree.libc != Libc.ANDROID:
                         log.info("setting libc to %s", elftree.libc)
                         libc = elftree.libc
                     elif libc != elftree.libc:
-- 
2.43.0


From 78962e0f37b1c28a103b9aff2b8f8f93c85d9053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:12 +0000
Subject: [PATCH 26/41] fix: only names starting with ld-linux are the dynamic
 loader

A library whose name merely contains it, such as libbuild-linux.so.1
("ld-linux" is a substring), was neither grafted nor reported.
---
 src/auditwheel/policy/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/auditwheel/policy/__init__.py b/src/auditwheel/policy/__init__.py
index b55fc59..5f71ad9 100644
--- a/src/auditwheel/policy/__init__.py
+++ b/src/auditwheel/policy/__init__.py
@@ -233,7 +233,7 @@ class WheelPolicies:
             whitelist: frozenset[str],
         ) -> Generator[str]:
             for lib in libs:
-                if "ld-linux" in lib or lib in ["ld64.so.2", "ld64.so.1"]:
+                if lib.startswith("ld-linux") or lib in ["ld64.so.2", "ld64.so.1"]:
                     # always exclude ELF dynamic linker/loader
                     # 'ld64.so.2' on s390x
                     # 'ld64.so.1' on ppc64le
-- 
2.43.0


From 71b1caae1553f5c08edb15cb1b218353adc0d15b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:13 +0000
Subject: [PATCH 27/41] fix: read the files ld.so.conf includes in sorted order

glob.glob lists them in directory order, so which of two libraries was
found depended on the file system; ldconfig sorts them.
---
 src/auditwheel/lddtree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/auditwheel/lddtree.py b/src/auditwheel/lddtree.py
index 3a8f168..5f1961f 100644
--- a/src/auditwheel/lddtree.py
+++ b/src/auditwheel/lddtree.py
@@ -302,7 +302,7 @@ def parse_ld_so_conf(ldso_conf: str, *, root: str = "/", _first: bool = True) ->
                     else:
                         line = os.path.dirname(ldso_conf) + "/" + line
                     log.debug("%s  glob: %s", dbg_pfx, line)
-                    for path in glob.glob(line):
+                    for path in sorted(glob.glob(line)):
                         paths += parse_ld_so_conf(path, root=root, _first=False)
                 else:
                     paths += [normpath(root + line)]
-- 
2.43.0


From 567ce8539704d0906bc7c76be2e483342f881fa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:13 +0000
Subject: [PATCH 28/41] fix: accept any whitespace after include in ld.so.conf

A tab made the line a directory name and several spaces a relative
pattern: the included file was ignored.
---
 src/auditwheel/lddtree.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/auditwheel/lddtree.py b/src/auditwheel/lddtree.py
index 5f1961f..b5e24cd 100644
--- a/src/auditwheel/lddtree.py
+++ b/src/auditwheel/lddtree.py
@@ -295,8 +295,8 @@ def parse_ld_so_conf(ldso_conf: str, *, root: str = "/", _first: bool = True) ->
                 line = input_line.split("#", 1)[0].strip()
                 if not line:
                     continue
-                if line.startswith("include "):
-                    line = line[8:]
+                if re.match(r"include\s", line):
+                    line = line[8:].lstrip()
                     if line[0] == "/":
                         line = root + line.lstrip("/")
                     else:
-- 
2.43.0


From 1bba0ad83780308f9d565d9696f9d4feb0c6a577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:13 +0000
Subject: [PATCH 29/41] fix: directories of the musl path file can be on lines
 of their own

musl separates them by newlines or colons; several lines were read as one
directory name and no library was found.
---
 src/auditwheel/lddtree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/auditwheel/lddtree.py b/src/auditwheel/lddtree.py
index b5e24cd..5d1aaaa 100644
--- a/src/auditwheel/lddtree.py
+++ b/src/auditwheel/lddtree.py
@@ -373,7 +373,7 @@ def load_ld_paths(
             ]
         else:
             ldpaths["conf"] = []
-            for ldpath in ld_musl[0].read_text().split(":"):
+            for ldpath in re.split(r"[:\n]", ld_musl[0].read_text()):
                 ldpath_stripped = ldpath.strip()
                 if ldpath_stripped == "":
                     continue
-- 
2.43.0


From 3d75eb4041938c9236f55196656ab688fb15b6cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:14 +0000
Subject: [PATCH 30/41] fix: see UCS2 references that have no symbol type

---
 src/auditwheel/elfutils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/auditwheel/elfutils.py b/src/auditwheel/elfutils.py
index 7f1b131..a7a91ab 100644
--- a/src/auditwheel/elfutils.py
+++ b/src/auditwheel/elfutils.py
@@ -78,7 +78,7 @@ def elf_find_ucs2_symbols(elf: ELFFile) -> Iterator[str]:
             if (
                 "PyUnicodeUCS2_" in sym.name
                 and sym["st_shndx"] == "SHN_UNDEF"
-                and sym["st_info"]["type"] == "STT_FUNC"
+                and sym["st_info"]["type"] in ("STT_FUNC", "STT_NOTYPE")
             ):
                 yield sym.name
 
-- 
2.43.0


From 648139789a5dca6c35ff9d455093d63ea3384c64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:14 +0000
Subject: [PATCH 31/41] fix: recognize extension modules whose name is not
 ASCII

---
 src/auditwheel/elfutils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/auditwheel/elfutils.py b/src/auditwheel/elfutils.py
index a7a91ab..1b19153 100644
--- a/src/auditwheel/elfutils.py
+++ b/src/auditwheel/elfutils.py
@@ -102,6 +102,8 @@ def elf_is_python_extension(fn: Path, elf: ELFFile) -> tuple[bool, int | None]:
     module_init_f = {
         "init" + modname: 2,
         "PyInit_" + modname: 3,
+        # PEP 489, for names that are not ASCII
+        "PyInitU_" + modname.encode("punycode").decode("ascii").replace("-", "_"): 3,
         "_cffi_pypyinit_" + modname: 2,
     }
 
-- 
2.43.0


From 7489e5bde25a7b3918d2f456888968ac78b78ef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:30 +0000
Subject: [PATCH 32/41] fix: count a library that is needed under two names for
 both of them

---
 src/auditwheel/wheel_abi.py | 58 ++++++++++++++++++-------------------
 1 file changed, 28 insertions(+), 30 deletions(-)

diff --git a/src/auditwheel/wheel_abi.py b/src/auditwheel/wheel_abi.py
index f9ffb68..8f4d678 100644
--- a/src/auditwheel/wheel_abi.py
+++ b/src/auditwheel/wheel_abi.py
@@ -280,40 +280,41 @@ def get_wheel_elfdata(
     )
 
 
-def get_external_libs(external_refs: dict[str, ExternalReference]) -> dict[Path, str]:
+def get_external_libs(external_refs: dict[str, ExternalReference]) -> dict[str, set[Path]]:
     """Get external library dependencies for all policies excluding the default
     linux policy
     :param external_refs: external references for all policies
-    :return: {realpath: soname} e.g.
-    {'/path/to/external_ref.so.1.2.3': 'external_ref.so.1'}
+    :return: {soname: set([realpath])} e.g.
+    {'external_ref.so.1': set(['/path/to/external_ref.so.1.2.3'])}
     """
-    result: dict[Path, str] = {}
+    result: dict[str, set[Path]] = {}
     for external_ref in external_refs.values():
         # linux tag (priority 0) has no white-list, do not analyze it
         if external_ref.policy.priority == 0:
             continue
         # go through all libs, retrieving their soname and realpath
         for libname, realpath in external_ref.libs.items():
-            if realpath and realpath not in result:
-                result[Path(realpath)] = libname
+            if realpath:
+                result.setdefault(libname, set()).add(realpath)
     return result
 
 
-def get_versioned_symbols(libs: dict[Path, str]) -> dict[str, dict[str, set[str]]]:
+def get_versioned_symbols(libs: dict[str, set[Path]]) -> dict[str, dict[str, set[str]]]:
     """Get versioned symbols used in libraries
-    :param libs: {realpath: soname} dict to search for versioned symbols e.g.
-    {'/path/to/external_ref.so.1.2.3': 'external_ref.so.1'}
+    :param libs: {soname: set([realpath])} dict to search for versioned symbols e.g.
+    {'external_ref.so.1': set(['/path/to/external_ref.so.1.2.3'])}
     :return: {soname: {depname: set([symbol_version])}} e.g.
     {'external_ref.so.1': {'libc.so.6', set(['GLIBC_2.5','GLIBC_2.12'])}}
     """
     result: dict[str, dict[str, set[str]]] = {}
-    for path, elf in elf_file_filter(libs.keys()):
-        # {depname: set(symbol_version)}, e.g. {'libc.so.6', set(['GLIBC_2.5','GLIBC_2.12'])}
+    for soname, paths in libs.items():
         # the same soname can be more than one library
-        elf_versioned_symbols = result.setdefault(libs[path], defaultdict(set))
-        for key, value in elf_find_versioned_symbols(elf):
-            log.debug("path %s, key %s, value %s", path, key, value)
-            elf_versioned_symbols[key].add(value)
+        for path, elf in elf_file_filter(paths):
+            # {depname: set(symbol_version)}, e.g. {'libc.so.6', set(['GLIBC_2.5','GLIBC_2.12'])}
+            elf_versioned_symbols = result.setdefault(soname, defaultdict(set))
+            for key, value in elf_find_versioned_symbols(elf):
+                log.debug("path %s, key %s, value %s", path, key, value)
+                elf_versioned_symbols[key].add(value)
     return result
 
 
@@ -385,25 +386,21 @@ def _get_machine_policy(
         files and their dependencies.
     """
     result = policies.highest
-    machine_to_check: dict[Path, tuple[str | None, Architecture | None]] = {}
+    # the same library can have more than one soname
+    machine_to_check: dict[tuple[Path, str | None], Architecture | None] = {}
     for fn, dynamic_executable in elftree_by_fn.items():
-        if fn in machine_to_check:
-            continue
-        machine_to_check[fn] = (None, dynamic_executable.platform.extended_architecture)
+        machine_to_check[fn, None] = dynamic_executable.platform.extended_architecture
         for dependency in dynamic_executable.libraries.values():
             if dependency.soname not in external_so_names:
                 continue
             if dependency.realpath is None:
                 continue
             assert dependency.platform is not None  # noqa: S101
-            if dependency.realpath in machine_to_check:
-                continue
-            machine_to_check[dependency.realpath] = (
-                dependency.soname,
-                dependency.platform.extended_architecture,
+            machine_to_check[dependency.realpath, dependency.soname] = (
+                dependency.platform.extended_architecture
             )
 
-    for fn, (soname, extended_architecture) in machine_to_check.items():
+    for (fn, soname), extended_architecture in machine_to_check.items():
         if extended_architecture is None:
             continue
         if policies.architecture.is_superset(extended_architecture):
@@ -461,16 +458,17 @@ def analyze_wheel_abi(
     log.debug("external reference info")
     log.debug(json.dumps(external_refs))
 
-    external_libs = get_external_libs(external_refs)
     # every library that would be grafted counts, whichever ELF file of the wheel needs it;
-    # the same soname can be a different library for another ELF file
+    # the same soname can be a different library for another ELF file, and
+    # the same library can have another soname there
     grafted_refs: dict[str, ExternalReference] = {
         p.name: ExternalReference({}, {}, p) for p in policies
     }
-    grafted_libs: dict[Path, str] = {}
+    grafted_libs: dict[str, set[Path]] = {}
     for refs in external_refs_by_fn.values():
         update(grafted_refs, refs)
-        grafted_libs.update(get_external_libs(refs))
+        for soname, paths in get_external_libs(refs).items():
+            grafted_libs.setdefault(soname, set()).update(paths)
     external_versioned_symbols = get_versioned_symbols(grafted_libs)
     symbol_policies = get_symbol_policies(
         policies,
@@ -528,7 +526,7 @@ def analyze_wheel_abi(
         machine_policy = _get_machine_policy(
             policies,
             elftree_by_fn,
-            frozenset(external_libs.values()),
+            frozenset(grafted_libs),
         )
 
     ucs_policy = policies.linux if data.uses_ucs2_symbols else policies.highest
-- 
2.43.0


From 627b0661ccf6ce34890e6c36a8303966fd377f2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:30 +0000
Subject: [PATCH 33/41] fix: check the ISA extensions of the libraries of the
 wheel

---
 src/auditwheel/wheel_abi.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/auditwheel/wheel_abi.py b/src/auditwheel/wheel_abi.py
index 8f4d678..63b7049 100644
--- a/src/auditwheel/wheel_abi.py
+++ b/src/auditwheel/wheel_abi.py
@@ -52,6 +52,7 @@ class WheelAbIInfo:
 class WheelElfData:
     policies: WheelPolicies
     full_elftree: dict[Path, DynamicExecutable]
+    inner_elftree: dict[Path, DynamicExecutable]
     full_external_refs: dict[Path, dict[str, ExternalReference]]
     versioned_symbols: dict[str, set[str]]
     uses_ucs2_symbols: bool
@@ -127,6 +128,7 @@ def get_wheel_elfdata(
 ) -> WheelElfData:
     full_elftree: dict[Path, DynamicExecutable] = {}
     nonpy_elftree: dict[Path, DynamicExecutable] = {}
+    inner_elftree: dict[Path, DynamicExecutable] = {}
     full_external_refs: dict[Path, dict[str, ExternalReference]] = {}
     versioned_symbols: dict[str, set[str]] = defaultdict(set)
     uses_ucs2_symbols = False
@@ -238,6 +240,11 @@ def get_wheel_elfdata(
             for elf in itertools.chain(full_elftree.values(), nonpy_elftree.values())
             for lib in elf.needed
         }
+        loaded_libs = {
+            lib.realpath
+            for elf in itertools.chain(full_elftree.values(), nonpy_elftree.values())
+            for lib in elf.libraries.values()
+        }
 
         if policies is None:
             # we have no python extensions, either we have shared libraries with
@@ -255,6 +262,8 @@ def get_wheel_elfdata(
             # we should walk its elftree.
             if fn.name not in needed_libs:
                 full_elftree[fn] = elf_tree
+            elif ctx.path / fn in loaded_libs:
+                inner_elftree[fn] = elf_tree
 
             # Even if a non-pyextension ELF file is not needed, we
             # should include it as an external reference, because
@@ -273,6 +282,7 @@ def get_wheel_elfdata(
     return WheelElfData(
         policies,
         full_elftree,
+        inner_elftree,
         full_external_refs,
         versioned_symbols,
         uses_ucs2_symbols,
@@ -525,7 +535,8 @@ def analyze_wheel_abi(
     else:
         machine_policy = _get_machine_policy(
             policies,
-            elftree_by_fn,
+            # the libraries of the wheel that the other ELF files load count too
+            {**elftree_by_fn, **data.inner_elftree},
             frozenset(grafted_libs),
         )
 
-- 
2.43.0


From 3582966a89b2e072f2095a924d34b77f302b53ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:30 +0000
Subject: [PATCH 34/41] fix: count the black-listed symbols of every ELF file
 of the wheel

---
 src/auditwheel/wheel_abi.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/auditwheel/wheel_abi.py b/src/auditwheel/wheel_abi.py
index 63b7049..5fa4d4d 100644
--- a/src/auditwheel/wheel_abi.py
+++ b/src/auditwheel/wheel_abi.py
@@ -479,6 +479,9 @@ def analyze_wheel_abi(
         update(grafted_refs, refs)
         for soname, paths in get_external_libs(refs).items():
             grafted_libs.setdefault(soname, set()).update(paths)
+    # likewise for the black-listed symbols
+    for name, external_ref in external_refs.items():
+        external_ref.blacklist = grafted_refs[name].blacklist
     external_versioned_symbols = get_versioned_symbols(grafted_libs)
     symbol_policies = get_symbol_policies(
         policies,
-- 
2.43.0


From 4170c38ccac32e4090fccf7ce42541cae83cbccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:30 +0000
Subject: [PATCH 35/41] fix: relative library search paths of the option and
 the environment

---
 src/auditwheel/main.py    |  7 +++++++
 src/auditwheel/options.py |  3 +++
 src/auditwheel/tools.py   | 29 +++++++++++++++++++++++++++++
 3 files changed, 39 insertions(+)

diff --git a/src/auditwheel/main.py b/src/auditwheel/main.py
index 68c5c21..bf44900 100644
--- a/src/auditwheel/main.py
+++ b/src/auditwheel/main.py
@@ -2,6 +2,7 @@ from __future__ import annotations
 
 import argparse
 import logging
+import os
 import pathlib
 import sys
 from importlib import metadata
@@ -9,6 +10,7 @@ from pathlib import Path
 
 import auditwheel
 from auditwheel import main_lddtree, main_repair, main_show
+from auditwheel.tools import absolute_search_paths
 
 
 def main() -> int | None:
@@ -47,5 +49,10 @@ def main() -> int | None:
     if not hasattr(args, "func"):
         p.print_help()
         return None
+
+    # the commands do not stay in the current directory
+    for variable in ("AUDITWHEEL_LD_LIBRARY_PATH", "LD_LIBRARY_PATH"):
+        if variable in os.environ:
+            os.environ[variable] = absolute_search_paths(os.environ[variable])
     result: int | None = args.func(args, p)
     return result
diff --git a/src/auditwheel/options.py b/src/auditwheel/options.py
index eeb8bc1..cb45d18 100644
--- a/src/auditwheel/options.py
+++ b/src/auditwheel/options.py
@@ -4,6 +4,8 @@ from __future__ import annotations
 
 from typing import TYPE_CHECKING
 
+from auditwheel.tools import absolute_search_paths
+
 if TYPE_CHECKING:
     from argparse import ArgumentParser
 
@@ -32,6 +34,7 @@ def ldpaths(parser: ArgumentParser) -> None:
     parser.add_argument(
         "--ldpaths",
         dest="LDPATHS",
+        type=absolute_search_paths,
         help="Colon-delimited list of directories to search for external libraries. "
         "This replaces the default list; to add to this list, set the environment "
         "variable AUDITWHEEL_LD_LIBRARY_PATH.",
diff --git a/src/auditwheel/tools.py b/src/auditwheel/tools.py
index 3d9e621..58f85c3 100644
--- a/src/auditwheel/tools.py
+++ b/src/auditwheel/tools.py
@@ -122,6 +122,35 @@ def zip2dir(zip_fname: Path, out_dir: Path) -> None:
     )
 
 
+def absolute_search_paths(search_paths: str) -> str:
+    """Make the entries of a colon-delimited list of directories absolute
+
+    Parameters
+    ----------
+    search_paths : str
+        List of directories as in LD_LIBRARY_PATH, an empty entry being the
+        current directory
+
+    Returns
+    -------
+    search_paths : str
+        The same list, which stays valid when the current directory changes
+
+    """
+    if not search_paths:
+        return search_paths
+    result = []
+    for entry in search_paths.split(":"):
+        if entry.startswith("$"):
+            result.append(entry)
+        elif ".." in Path(entry).parts:
+            # the parent of a symlinked directory is the parent of its target
+            result.append(os.path.realpath(entry))
+        else:
+            result.append(str(Path.cwd() / entry))
+    return ":".join(result)
+
+
 @contextmanager
 def atomic_write(path: Path) -> Generator[Path]:
     """Provide the name of a temporary file that becomes `path` on success only
-- 
2.43.0


From 6792cf0fa2342caad9d0fd0725d2d9f916f05054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:30 +0000
Subject: [PATCH 36/41] fix: read RECORD as a CSV file

---
 src/auditwheel/wheeltools.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/auditwheel/wheeltools.py b/src/auditwheel/wheeltools.py
index daeb1c2..6e4fbbe 100644
--- a/src/auditwheel/wheeltools.py
+++ b/src/auditwheel/wheeltools.py
@@ -190,9 +190,9 @@ class InWheelCtx(InWheel):
             msg = "This function should be called from context manager"
             raise ValueError(msg)
         record_name = _dist_info_dir(self.path) / "RECORD"
-        record = record_name.read_text()
-        reader = csv.reader(r for r in record.splitlines())
-        for row in reader:
+        with record_name.open(newline="", encoding="utf-8") as record_file:
+            rows = list(csv.reader(record_file))
+        for row in rows:
             filename = Path(row[0])
             if filename.is_absolute() or ".." in filename.parts:
                 logger.warning("ignoring %s from RECORD: not inside the wheel", filename)
-- 
2.43.0


From 0b87aaf8d6fead41786fa3141e285fc6de980fb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:56 +0000
Subject: [PATCH 37/41] fix: check the ISA extensions of every library the
 wheel needs

---
 src/auditwheel/wheel_abi.py | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/auditwheel/wheel_abi.py b/src/auditwheel/wheel_abi.py
index 5fa4d4d..4356e0f 100644
--- a/src/auditwheel/wheel_abi.py
+++ b/src/auditwheel/wheel_abi.py
@@ -53,6 +53,7 @@ class WheelElfData:
     policies: WheelPolicies
     full_elftree: dict[Path, DynamicExecutable]
     inner_elftree: dict[Path, DynamicExecutable]
+    inner_variants: set[Path]
     full_external_refs: dict[Path, dict[str, ExternalReference]]
     versioned_symbols: dict[str, set[str]]
     uses_ucs2_symbols: bool
@@ -129,6 +130,7 @@ def get_wheel_elfdata(
     full_elftree: dict[Path, DynamicExecutable] = {}
     nonpy_elftree: dict[Path, DynamicExecutable] = {}
     inner_elftree: dict[Path, DynamicExecutable] = {}
+    inner_variants: set[Path] = set()
     full_external_refs: dict[Path, dict[str, ExternalReference]] = {}
     versioned_symbols: dict[str, set[str]] = defaultdict(set)
     uses_ucs2_symbols = False
@@ -241,10 +243,12 @@ def get_wheel_elfdata(
             for lib in elf.needed
         }
         loaded_libs = {
-            lib.realpath
+            lib.realpath.relative_to(ctx.path)
             for elf in itertools.chain(full_elftree.values(), nonpy_elftree.values())
             for lib in elf.libraries.values()
+            if lib.realpath is not None and lib.realpath.is_relative_to(ctx.path)
         }
+        loaded_names = {path.name for path in loaded_libs}
 
         if policies is None:
             # we have no python extensions, either we have shared libraries with
@@ -262,8 +266,12 @@ def get_wheel_elfdata(
             # we should walk its elftree.
             if fn.name not in needed_libs:
                 full_elftree[fn] = elf_tree
-            elif ctx.path / fn in loaded_libs:
+            else:
                 inner_elftree[fn] = elf_tree
+                if fn.name in loaded_names and fn not in loaded_libs:
+                    # another library of the wheel is loaded instead,
+                    # e.g. this one is in a glibc-hwcaps directory
+                    inner_variants.add(fn)
 
             # Even if a non-pyextension ELF file is not needed, we
             # should include it as an external reference, because
@@ -283,6 +291,7 @@ def get_wheel_elfdata(
         policies,
         full_elftree,
         inner_elftree,
+        inner_variants,
         full_external_refs,
         versioned_symbols,
         uses_ucs2_symbols,
@@ -369,6 +378,7 @@ def _get_machine_policy(
     policies: WheelPolicies,
     elftree_by_fn: dict[Path, DynamicExecutable],
     external_so_names: frozenset[str],
+    variants: set[Path],
 ) -> Policy:
     """
     Determine the most appropriate machine policy for the wheel based on ELF
@@ -392,6 +402,8 @@ def _get_machine_policy(
         dependency graphs.
     :param external_so_names: Set of SONAMEs that are treated as external
         references and may be whitelisted by individual policies.
+    :param variants: ELF files of the wheel another one stands in for, only
+        their dependencies are checked.
     :return: The selected :class:`Policy` after considering all relevant ELF
         files and their dependencies.
     """
@@ -399,7 +411,8 @@ def _get_machine_policy(
     # the same library can have more than one soname
     machine_to_check: dict[tuple[Path, str | None], Architecture | None] = {}
     for fn, dynamic_executable in elftree_by_fn.items():
-        machine_to_check[fn, None] = dynamic_executable.platform.extended_architecture
+        if fn not in variants:
+            machine_to_check[fn, None] = dynamic_executable.platform.extended_architecture
         for dependency in dynamic_executable.libraries.values():
             if dependency.soname not in external_so_names:
                 continue
@@ -538,9 +551,10 @@ def analyze_wheel_abi(
     else:
         machine_policy = _get_machine_policy(
             policies,
-            # the libraries of the wheel that the other ELF files load count too
+            # the libraries of the wheel that the other ELF files need count too
             {**elftree_by_fn, **data.inner_elftree},
             frozenset(grafted_libs),
+            data.inner_variants,
         )
 
     ucs_policy = policies.linux if data.uses_ucs2_symbols else policies.highest
-- 
2.43.0


From d96f71a60e21b0006eaa8b20454420cb217c2c28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:27 +0000
Subject: [PATCH 38/41] fix: search DT_RPATH and DT_RUNPATH in the order of the
 loader

The DT_RPATH of the ELF file that asks comes before those of the files that
led to it, which are inherited by all the libraries below, not only those of
the top file. A file with DT_RUNPATH does not use any DT_RPATH, and DT_RUNPATH
is not inherited: what was found that way only is still found, last.
---
 src/auditwheel/lddtree.py | 30 +++++++++++++++++++++++-------
 1 file changed, 23 insertions(+), 7 deletions(-)

diff --git a/src/auditwheel/lddtree.py b/src/auditwheel/lddtree.py
index 5d1aaaa..5bec5af 100644
--- a/src/auditwheel/lddtree.py
+++ b/src/auditwheel/lddtree.py
@@ -446,6 +446,7 @@ def ldd(
     display: str | None = None,
     exclude: frozenset[str] = frozenset(),
     _all_libs: dict[str, DynamicLibrary] | None = None,
+    _rpaths: list[str] | None = None,
 ) -> DynamicExecutable:
     """Parse the ELF dependency tree of the specified file
 
@@ -468,6 +469,8 @@ def ldd(
         List of soname (DT_NEEDED) to exclude from the tree
     _all_libs
         Recursive use only; dict of all libs we've seen
+    _rpaths
+        Recursive use only; DT_RPATH directories of the ELFs that led here
 
     Returns
     -------
@@ -491,6 +494,8 @@ def ldd(
     _first = _all_libs is None
     if _all_libs is None:
         _all_libs = {}
+    if _rpaths is None:
+        _rpaths = []
 
     log.debug("ldd(%s)", path)
 
@@ -591,23 +596,25 @@ def ldd(
 
         if ldpaths is None:
             ldpaths = load_ld_paths(libc).copy()
-        # Propagate the rpaths used by the main ELF since those will be
-        # used at runtime to locate things.
-        ldpaths["rpath"] = rpaths
+        # Propagate the runpaths used by the main ELF. The runtime ldso
+        # doesn't, so this is a last resort only.
         ldpaths["runpath"] = runpaths
         log.debug("  ldpaths[rpath]   = %s", rpaths)
         log.debug("  ldpaths[runpath] = %s", runpaths)
 
     assert ldpaths is not None  # noqa: S101
 
+    # The rpaths of an ELF are used for all the ELFs it leads to, unless they have
+    # a runpath: these are a last resort only, too.
+    rpaths_chain = rpaths + _rpaths
     all_ldpaths = (
-        ldpaths["rpath"]
-        + rpaths
+        ([] if has_runpath else rpaths_chain)
         + ldpaths["env"]
         + runpaths
-        + ldpaths["runpath"]
         + ldpaths["conf"]
         + ldpaths["interp"]
+        + (rpaths_chain if has_runpath else [])
+        + ldpaths["runpath"]
     )
     _excluded_libs: set[str] = set()
     for soname in needed:
@@ -637,7 +644,16 @@ def ldd(
         _all_libs[soname] = DynamicLibrary(soname, fullpath, realpath)
         if realpath is None or fullpath is None:
             continue
-        dependency = ldd(realpath, root, prefix, ldpaths, fullpath, exclude, _all_libs)
+        dependency = ldd(
+            realpath,
+            root,
+            prefix,
+            ldpaths,
+            fullpath,
+            exclude,
+            _all_libs,
+            rpaths_chain,
+        )
         _all_libs[soname] = DynamicLibrary(
             soname,
             fullpath,
-- 
2.43.0


From c6d56d1985e3307cee190b7550ebf5ce90f26ae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:43 +0000
Subject: [PATCH 39/41] fix: look up needed libraries breadth first

As the runtime loader does: the first file that asks for a name decides where
it is searched, which is another one depth first.
---
 src/auditwheel/lddtree.py | 32 ++++++++++++++++++++++----------
 1 file changed, 22 insertions(+), 10 deletions(-)

diff --git a/src/auditwheel/lddtree.py b/src/auditwheel/lddtree.py
index 5bec5af..e0808c0 100644
--- a/src/auditwheel/lddtree.py
+++ b/src/auditwheel/lddtree.py
@@ -19,7 +19,7 @@ import glob
 import logging
 import os
 import re
-from dataclasses import dataclass
+from dataclasses import dataclass, replace
 from fnmatch import fnmatch
 from pathlib import Path
 
@@ -447,6 +447,7 @@ def ldd(
     exclude: frozenset[str] = frozenset(),
     _all_libs: dict[str, DynamicLibrary] | None = None,
     _rpaths: list[str] | None = None,
+    _pending: list[tuple[str, list[str]]] | None = None,
 ) -> DynamicExecutable:
     """Parse the ELF dependency tree of the specified file
 
@@ -471,6 +472,9 @@ def ldd(
         Recursive use only; dict of all libs we've seen
     _rpaths
         Recursive use only; DT_RPATH directories of the ELFs that led here
+    _pending
+        Recursive use only; names of the libs to parse next and the DT_RPATH
+        directories of the ELFs that led there
 
     Returns
     -------
@@ -496,6 +500,8 @@ def ldd(
         _all_libs = {}
     if _rpaths is None:
         _rpaths = []
+    if _pending is None:
+        _pending = []
 
     log.debug("ldd(%s)", path)
 
@@ -644,22 +650,28 @@ def ldd(
         _all_libs[soname] = DynamicLibrary(soname, fullpath, realpath)
         if realpath is None or fullpath is None:
             continue
+        _pending.append((soname, rpaths_chain))
+
+    # The runtime ldso loads the libraries breadth first.
+    while _first and _pending:
+        soname, pending_rpaths = _pending.pop(0)
+        library = _all_libs[soname]
+        assert library.realpath is not None  # noqa: S101
         dependency = ldd(
-            realpath,
+            library.realpath,
             root,
             prefix,
             ldpaths,
-            fullpath,
+            library.path,
             exclude,
             _all_libs,
-            rpaths_chain,
+            pending_rpaths,
+            _pending,
         )
-        _all_libs[soname] = DynamicLibrary(
-            soname,
-            fullpath,
-            realpath,
-            dependency.platform,
-            dependency.needed,
+        _all_libs[soname] = replace(
+            library,
+            platform=dependency.platform,
+            needed=dependency.needed,
         )
 
     return DynamicExecutable(
-- 
2.43.0


From 1907b7e470461568c992dbbd0db00c14a96fda11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:06 +0000
Subject: [PATCH 40/41] fix: a package manager that can't be run, or whose
 answer isn't understood, knows no package

---
 src/auditwheel/_vendor/whichprovides/__init__.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/auditwheel/_vendor/whichprovides/__init__.py b/src/auditwheel/_vendor/whichprovides/__init__.py
index 6a14608..d14ce3f 100644
--- a/src/auditwheel/_vendor/whichprovides/__init__.py
+++ b/src/auditwheel/_vendor/whichprovides/__init__.py
@@ -114,6 +114,8 @@ class PackageProvider:
                 cls._has_bin_cache[bin] = bin_which
                 return bin_which
             cls._has_bin_cache[bin] = False
+        except OSError:  # It can't be executed at all.
+            cls._has_bin_cache[bin] = False
         return None
 
     @classmethod
@@ -165,7 +167,7 @@ class ApkPackageProvider(_SinglePackageProvider):
                     package_name=match.group(1),
                     package_version=match.group(2),
                 )
-        except subprocess.CalledProcessError:
+        except (subprocess.CalledProcessError, OSError, ValueError):
             pass
         return None
 
@@ -202,7 +204,7 @@ class RpmPackageProvider(_SinglePackageProvider):
                 package_name=package_name,
                 package_version=f"{package_version}-{package_release}",
             )
-        except subprocess.CalledProcessError:
+        except (subprocess.CalledProcessError, OSError, ValueError):
             pass
         return None
 
@@ -240,7 +242,7 @@ class DpkgPackageProvider(_SinglePackageProvider):
                         package_name=package_name,
                         package_version=match.group(1),
                     )
-        except subprocess.CalledProcessError:
+        except (subprocess.CalledProcessError, OSError, ValueError):
             pass
         return None
 
@@ -292,7 +294,7 @@ class AptFilePackageProvider(PackageProvider):
                         package_name=package_name,
                         package_version=package_version,
                     )
-        except subprocess.CalledProcessError:
+        except (subprocess.CalledProcessError, OSError, ValueError):
             pass
         return results
 
-- 
2.43.0


From 2897503aac56af4723549355390bee333e150643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:06 +0000
Subject: [PATCH 41/41] fix: skip blank lines of RECORD

---
 src/auditwheel/wheeltools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/auditwheel/wheeltools.py b/src/auditwheel/wheeltools.py
index 6e4fbbe..f13b4d6 100644
--- a/src/auditwheel/wheeltools.py
+++ b/src/auditwheel/wheeltools.py
@@ -191,7 +191,7 @@ class InWheelCtx(InWheel):
             raise ValueError(msg)
         record_name = _dist_info_dir(self.path) / "RECORD"
         with record_name.open(newline="", encoding="utf-8") as record_file:
-            rows = list(csv.reader(record_file))
+            rows = [row for row in csv.reader(record_file) if row]
         for row in rows:
             filename = Path(row[0])
             if filename.is_absolute() or ".." in filename.parts:
-- 
2.43.0

