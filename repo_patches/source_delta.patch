From 458d6452b9960f31bb8e92f27d2fb8955d89dcb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:52 +0000
Subject: [PATCH 01/25] fix: never reuse or trust a JavaScript engine process
 that did not finish its evaluation

A node process which died, was killed by the timer, or was left in the
middle of an evaluation (interrupt, write error) could stay cached, so that
its stale output was returned for the next expression; a death in the middle
of an evaluation was a busy wait until the timeout and then reported as one,
or as success with chopped output; a late timer could kill the following
evaluation; and non-ASCII output longer than one read raised
UnicodeDecodeError when a chunk ended inside a character.
---
 src/cwl_utils/sandboxjs.py | 112 +++++++++++++++++++++----------------
 1 file changed, 65 insertions(+), 47 deletions(-)

diff --git a/src/cwl_utils/sandboxjs.py b/src/cwl_utils/sandboxjs.py
index ab4b624..d83b501 100644
--- a/src/cwl_utils/sandboxjs.py
+++ b/src/cwl_utils/sandboxjs.py
@@ -190,40 +190,35 @@ class NodeJSEngine(JSEngine):
 
         created_new_process = False
 
-        if context is not None:
-            nodejs = self.localdata.procs.get((js_engine, context))
-        else:
-            nodejs = self.localdata.procs.get(js_engine)
+        key = js_engine if context is None else (js_engine, context)
+
+        # A process only is in the cache while it is idle and ready for more work.
+        nodejs = self.localdata.procs.pop(key, None)
 
         if nodejs is None or nodejs.poll() is not None:
             js_engine_code = files("cwl_utils").joinpath(js_engine).read_text("utf-8")
 
             created_new_process = True
 
-            new_proc = self.new_js_proc(
+            nodejs = self.new_js_proc(
                 js_engine_code,
                 force_docker_pull=force_docker_pull,
                 container_engine=container_engine,
             )
 
-            if context is None:
-                self.localdata.procs[js_engine] = new_proc
-                nodejs = new_proc
-            else:
-                self.localdata.procs[(js_engine, context)] = new_proc
-                nodejs = new_proc
-
         killed = []
+        done = []
+        kill_lock = threading.Lock()
 
         def terminate() -> None:
             """Kill the node process if it exceeds timeout limit."""
-            with suppress(OSError):
-                killed.append(True)
-                nodejs.kill()
+            with kill_lock, suppress(OSError):
+                if not done:
+                    killed.append(True)
+                    nodejs.kill()
 
         timer = threading.Timer(timeout, terminate)
         timer.daemon = True
-        timer.start()
 
         stdin_text = ""
         if created_new_process and context is not None:
@@ -237,44 +232,67 @@ class NodeJSEngine(JSEngine):
         rselect: list[BytesIO] = [nodejs.stdout, nodejs.stderr]
         wselect: list[BytesIO] = [nodejs.stdin]
 
+        finished_mark = self.process_finished_str.encode("utf-8")
+
         def process_finished() -> bool:
-            return stdout_buf.getvalue().decode("utf-8").endswith(
-                self.process_finished_str
-            ) and stderr_buf.getvalue().decode("utf-8").endswith(
-                self.process_finished_str
-            )
+            return stdout_buf.getvalue().endswith(
+                finished_mark
+            ) and stderr_buf.getvalue().endswith(finished_mark)
 
-        while not process_finished() and timer.is_alive():
-            rready, wready, _ = select.select(rselect, wselect, [])
-            try:
-                if nodejs.stdin in wready:
-                    buf = stdin_buf.read(select.PIPE_BUF)
-                    if buf:
-                        os.write(nodejs.stdin.fileno(), buf)
-                for pipes in ((nodejs.stdout, stdout_buf), (nodejs.stderr, stderr_buf)):
-                    if pipes[0] in rready:
-                        buf = os.read(pipes[0].fileno(), select.PIPE_BUF)
+        finished = False
+        try:
+            timer.start()
+            while not process_finished() and timer.is_alive() and rselect:
+                rready, wready, _ = select.select(rselect, wselect, [])
+                try:
+                    if nodejs.stdin in wready:
+                        buf = stdin_buf.read(select.PIPE_BUF)
                         if buf:
-                            pipes[1].write(buf)
-            except OSError:
-                break
-        timer.cancel()
+                            os.write(nodejs.stdin.fileno(), buf)
+                    for pipes in (
+                        (nodejs.stdout, stdout_buf),
+                        (nodejs.stderr, stderr_buf),
+                    ):
+                        if pipes[0] in rready:
+                            buf = os.read(pipes[0].fileno(), select.PIPE_BUF)
+                            if buf:
+                                pipes[1].write(buf)
+                            else:  # end of file: the process is going away
+                                rselect.remove(pipes[0])
+                except OSError:
+                    break
+            finished = process_finished()
+        finally:
+            timer.cancel()
+            with kill_lock:
+                done.append(True)
+            if finished and not killed:
+                self.localdata.procs[key] = nodejs
+            else:
+                # It died, was killed or still is at work: never use it again.
+                nodejs.kill()
+                nodejs.wait()
 
         stdin_buf.close()
-        stdoutdata = stdout_buf.getvalue()[: -len(self.process_finished_str) - 1]
-        stderrdata = stderr_buf.getvalue()[: -len(self.process_finished_str) - 1]
+        stdoutdata = stdout_buf.getvalue()
+        stderrdata = stderr_buf.getvalue()
 
-        nodejs.poll()
-
-        if nodejs.poll() not in (None, 0):
-            if killed:
-                returncode = -1
-            else:
-                returncode = nodejs.returncode
-        else:
+        if finished:
+            stdoutdata = stdoutdata[: -len(finished_mark) - 1]
+            stderrdata = stderrdata[: -len(finished_mark) - 1]
             returncode = 0
-
-        return returncode, stdoutdata.decode("utf-8"), stderrdata.decode("utf-8")
+        elif killed:
+            returncode = -1
+        else:
+            returncode = nodejs.returncode
+            if returncode in (0, -1):  # these mean success and timeout
+                returncode = 1
+
+        return (
+            returncode,
+            stdoutdata.decode("utf-8", "strict" if finished else "replace"),
+            stderrdata.decode("utf-8", "strict" if finished else "replace"),
+        )
 
     def new_js_proc(
         self,
-- 
2.43.0


From 5b4ec93a781a8b5a21a3b66534d2f7ed8343912f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:29 +0000
Subject: [PATCH 02/25] fix: look at the version of a local Node.js before
 starting it, and try every name for it

A version such as v21.0.0-nightly2023 raised ValueError; a Node.js found to be
too old (or whose version could not be read) was left running; and a too old
'nodejs' hid a good 'node'.
---
 src/cwl_utils/sandboxjs.py | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/src/cwl_utils/sandboxjs.py b/src/cwl_utils/sandboxjs.py
index d83b501..2056f3f 100644
--- a/src/cwl_utils/sandboxjs.py
+++ b/src/cwl_utils/sandboxjs.py
@@ -147,9 +147,11 @@ class NodeJSEngine(JSEngine):
         current_version_str = subprocess.check_output(  # nosec
             [working_alias, "-v"], text=True
         )
-        current_version = [
-            int(v) for v in current_version_str.strip().strip("v").split(".")
-        ]
+        # or with a suffix: 'v21.0.0-nightly2023041500\n' -> [21, 0, 0]
+        version_match = re.match(r"v?(\d+(?:\.\d+)*)", current_version_str.strip())
+        if version_match is None:
+            raise ValueError(f"Not a version of Node.js: {current_version_str!r}.")
+        current_version = [int(v) for v in version_match.group(1).split(".")]
         minimum_node_version = [
             int(v) for v in self.minimum_node_version_str.split(".")
         ]
@@ -301,7 +303,7 @@ class NodeJSEngine(JSEngine):
         container_engine: str = "docker",
     ) -> "subprocess.Popen[str]":
         """Return a subprocess ready to submit javascript to."""
-        required_node_version, docker = (False,) * 2
+        old_node_version = False
         nodejs: subprocess.Popen[str] | None = None
         trynodes = ("nodejs", "node")
         for n in trynodes:
@@ -314,6 +316,8 @@ class NodeJSEngine(JSEngine):
                     != "t"
                 ):
                     continue
+                elif not self.check_js_threshold_version(n):
+                    old_node_version = True
                 else:
                     nodejs = subprocess.Popen(  # nosec
                         [n, "--eval", js_text],
@@ -323,12 +327,11 @@ class NodeJSEngine(JSEngine):
                         universal_newlines=True,
                     )
                     self.processes_to_kill.append(nodejs)
-                    required_node_version = self.check_js_threshold_version(n)
                     break
-            except (subprocess.CalledProcessError, OSError):
+            except (subprocess.CalledProcessError, OSError, ValueError):
                 pass
 
-        if nodejs is None or nodejs is not None and not required_node_version:
+        if nodejs is None:
             try:
                 nodeimg = "node:alpine"
                 if container_engine == "singularity":
@@ -457,7 +460,6 @@ class NodeJSEngine(JSEngine):
                     stderr=subprocess.PIPE,
                 )
                 self.processes_to_kill.append(nodejs)
-                docker = True
             except OSError as e:
                 if e.errno == errno.ENOENT:
                     pass
@@ -467,7 +469,7 @@ class NodeJSEngine(JSEngine):
                 _logger.debug("Error while attempting to run nodejs: %s", e)
 
         # docker failed and nodejs not on system
-        if nodejs is None:
+        if nodejs is None and not old_node_version:
             raise JavascriptException(
                 "NodeJSEngine requires Node.js engine to evaluate and validate "
                 "Javascript expressions, but couldn't find it.  Tried {trynodes}, "
@@ -477,7 +479,7 @@ class NodeJSEngine(JSEngine):
             )
 
         # docker failed, but nodejs is installed on system but the version is below the required version
-        if not docker and not required_node_version:
+        if nodejs is None:
             raise JavascriptException(
                 "NodeJSEngine requires minimum v{} version of Node.js engine.".format(
                     self.minimum_node_version_str
-- 
2.43.0


From a5f7cf4a3de1b95572e1f3f6490cc11523c313eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:12 +0000
Subject: [PATCH 03/25] fix: find, pull and use the Node.js image for the
 JavaScript engine correctly

- udocker: the one-line match made it pull every time
- singularity: a forced pull with the image present got the file name as the
  source; an image just pulled, and any at the second start, was not used
- docker, podman, udocker: 'pull' has no option --force, so that forcing failed
---
 src/cwl_utils/sandboxjs.py | 40 +++++++++++++++-----------------------
 1 file changed, 16 insertions(+), 24 deletions(-)

diff --git a/src/cwl_utils/sandboxjs.py b/src/cwl_utils/sandboxjs.py
index 2056f3f..31fff16 100644
--- a/src/cwl_utils/sandboxjs.py
+++ b/src/cwl_utils/sandboxjs.py
@@ -3,7 +3,6 @@
 
 import collections
 import errno
-import glob
 import json
 import os
 import re
@@ -339,8 +338,13 @@ class NodeJSEngine(JSEngine):
                 elif container_engine in ("podman", "udocker"):
                     nodeimg = f"docker.io/library/{nodeimg}"
 
+                singularity_cache = None
+                if container_engine == "singularity":
+                    singularity_cache = os.environ.get("CWL_SINGULARITY_CACHE")
+                cwd = Path(singularity_cache) if singularity_cache else Path.cwd()
+                singularity_img = cwd / "node_alpine.sif"
+
                 if not self.have_node_slim:
-                    singularity_cache: str | None = None
                     match container_engine:
                         case "docker" | "podman":
                             dockerimgs = subprocess.check_output(  # nosec
@@ -348,17 +352,7 @@ class NodeJSEngine(JSEngine):
                                 text=True,
                             )
                         case "singularity":
-                            singularity_cache = os.environ.get("CWL_SINGULARITY_CACHE")
-                            if singularity_cache:
-                                singularityimgs = glob.glob(
-                                    singularity_cache + "/node_alpine.sif"
-                                )
-                            else:
-                                singularityimgs = glob.glob(
-                                    str(Path.cwd() / "node_alpine.sif")
-                                )
-                            if singularityimgs:
-                                nodeimg = singularityimgs[0]
+                            pass
                         case "udocker":
                             matches = re.search(
                                 re.escape(nodeimg),
@@ -377,20 +371,19 @@ class NodeJSEngine(JSEngine):
                             )
                     # if output is an empty string
                     need_singularity = (
-                        container_engine == "singularity" and not singularityimgs
+                        container_engine == "singularity"
+                        and not singularity_img.exists()
                     )
-                    need_docker = container_engine != "singularity" and (
-                        len(dockerimgs.split("\n")) <= 1
+                    need_docker = (
+                        container_engine != "singularity" and not dockerimgs.strip()
                     )
                     if need_singularity or need_docker or force_docker_pull:
                         # pull node:alpine docker container
                         nodejs_pull_commands = [container_engine, "pull"]
-                        if force_docker_pull:
+                        if force_docker_pull and container_engine == "singularity":
+                            # the others always pull, and have no such option
                             nodejs_pull_commands.append("--force")
                         nodejs_pull_commands.append(nodeimg)
-                        cwd = (
-                            Path(singularity_cache) if singularity_cache else Path.cwd()
-                        )
                         try:
                             nodejsimg = subprocess.check_output(  # nosec
                                 nodejs_pull_commands, text=True, cwd=str(cwd)
@@ -402,12 +395,11 @@ class NodeJSEngine(JSEngine):
                                 container_engine,
                             )
                         except (subprocess.CalledProcessError, OSError) as err:
-                            if not (
-                                need_singularity
-                                and glob.glob(str(cwd / "node_alpine.sif"))
-                            ):
+                            if not (need_singularity and singularity_img.exists()):
                                 raise err
                     self.have_node_slim = True
+                if container_engine == "singularity" and singularity_img.exists():
+                    nodeimg = str(singularity_img)
                 nodejs_commands = [container_engine]
                 if (
                     container_engine != "singularity"
-- 
2.43.0


From 43cd08ff9dde8473fe403c91541bba58e38ac4b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:58 +0000
Subject: [PATCH 04/25] fix: singularity: set the cached flavor before the
 version

Another thread could see the version already, but an empty flavor, and take an
apptainer 1 for an unknown program, for example.
---
 src/cwl_utils/singularity.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/cwl_utils/singularity.py b/src/cwl_utils/singularity.py
index 03797a1..00d0990 100644
--- a/src/cwl_utils/singularity.py
+++ b/src/cwl_utils/singularity.py
@@ -36,8 +36,10 @@ def get_version() -> tuple[list[int], str]:
             raise RuntimeError("Output of 'singularity --version' not recognized.")
 
         version_string = version_match.group(2)
-        _SINGULARITY_VERSION = [int(i) for i in version_string.split(".")]
+        version = [int(i) for i in version_string.split(".")]
+        # The version last: once it is there, other threads use both.
         _SINGULARITY_FLAVOR = version_match.group(1)
+        _SINGULARITY_VERSION = version
 
         _logger.debug(
             f"Singularity version: {version_string}" " ({_SINGULARITY_FLAVOR}."
-- 
2.43.0


From a6c0df1f6452e52317db4888bdc07fb68fad2307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:10 +0000
Subject: [PATCH 05/25] fix: end the user namespace probe of singularity when
 it times out

The hanging process was left running.
---
 src/cwl_utils/utils.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/cwl_utils/utils.py b/src/cwl_utils/utils.py
index bfae73d..3327230 100644
--- a/src/cwl_utils/utils.py
+++ b/src/cwl_utils/utils.py
@@ -216,12 +216,13 @@ def singularity_supports_userns() -> bool:
     if _USERNS is None:
         try:
             hello_image = files("cwl_utils").joinpath("hello.simg")
-            result = subprocess.Popen(  # nosec
+            result = subprocess.run(  # nosec
                 ["singularity", "exec", "--userns", str(hello_image), "true"],
                 stderr=subprocess.PIPE,
                 stdout=subprocess.DEVNULL,
-                universal_newlines=True,
-            ).communicate(timeout=60)[1]
+                text=True,
+                timeout=60,
+            ).stderr
             _USERNS = (
                 "No valid /bin/sh" in result
                 or "/bin/sh doesn't exist in container" in result
-- 
2.43.0


From 7231675504dcd5c86fa9df1a32ebf05ecff9ff4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:57 +0000
Subject: [PATCH 06/25] fix: give a saved container image its final name only
 when it is complete

---
 src/cwl_utils/image_puller.py | 43 ++++++++++++++++++++---------------
 1 file changed, 25 insertions(+), 18 deletions(-)

diff --git a/src/cwl_utils/image_puller.py b/src/cwl_utils/image_puller.py
index 5604002..1a237f3 100644
--- a/src/cwl_utils/image_puller.py
+++ b/src/cwl_utils/image_puller.py
@@ -3,6 +3,7 @@
 
 import logging
 import subprocess  # nosec
+import tempfile
 from abc import ABC, abstractmethod
 from pathlib import Path
 
@@ -69,16 +70,18 @@ class DockerImagePuller(ImagePuller):
         _LOGGER.info(f"Image successfully pulled: {self.req}")
         if self.save_directory:
             dest = Path(self.save_directory, self.get_image_name())
-            if self.save_directory and self.force_pull:
-                dest.unlink()
-            cmd_save = [
-                self.cmd,
-                "save",
-                "-o",
-                str(dest),
-                self.req,
-            ]
-            subprocess.run(cmd_save, check=True)  # nosec
+            # Only a complete image gets its final name
+            with tempfile.TemporaryDirectory(dir=self.save_directory) as tmpdir:
+                partial = Path(tmpdir, dest.name)
+                cmd_save = [
+                    self.cmd,
+                    "save",
+                    "-o",
+                    str(partial),
+                    self.req,
+                ]
+                subprocess.run(cmd_save, check=True)  # nosec
+                partial.replace(dest)
             _LOGGER.info(f"Image successfully saved: {dest!r}.")
             print(self.generate_udocker_loading_command())
 
@@ -120,14 +123,18 @@ class SingularityImagePuller(ImagePuller):
         ]
         if self.force_pull:
             cmd_pull.append("--force")
-        cmd_pull.extend(
-            [
-                "--name",
-                str(target),
-                f"docker://{self.req}",
-            ]
-        )
-        ImagePuller._run_command_pull(cmd_pull)
+        # Only a complete image gets its final name
+        with tempfile.TemporaryDirectory(dir=save_directory) as tmpdir:
+            partial = Path(tmpdir, target.name)
+            cmd_pull.extend(
+                [
+                    "--name",
+                    str(partial),
+                    f"docker://{self.req}",
+                ]
+            )
+            ImagePuller._run_command_pull(cmd_pull)
+            partial.replace(target)
         _LOGGER.info(
             f"Image successfully pulled: {save_directory}/{self.get_image_name()}"
         )
-- 
2.43.0


From 3b50ed997277d3a47fd7f7fc722a90d0d3dff11e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:46 +0000
Subject: [PATCH 07/25] fix: read file contents completely when a stream
 answers with short reads

---
 src/cwl_utils/parser/cwl_v1_0_utils.py | 8 +++++++-
 src/cwl_utils/parser/cwl_v1_1_utils.py | 8 +++++++-
 src/cwl_utils/parser/cwl_v1_2_utils.py | 7 ++++++-
 3 files changed, 20 insertions(+), 3 deletions(-)

diff --git a/src/cwl_utils/parser/cwl_v1_0_utils.py b/src/cwl_utils/parser/cwl_v1_0_utils.py
index f80c74b..0860cd5 100644
--- a/src/cwl_utils/parser/cwl_v1_0_utils.py
+++ b/src/cwl_utils/parser/cwl_v1_0_utils.py
@@ -161,7 +161,13 @@ def content_limit_respected_read_bytes(f: IO[bytes]) -> bytes:
 
     Truncate content for larger files.
     """
-    return f.read(CONTENT_LIMIT)
+    contents = b""
+    while len(contents) < CONTENT_LIMIT:
+        # A single read may return less than what is available
+        if not (chunk := f.read(CONTENT_LIMIT - len(contents))):
+            break
+        contents += chunk
+    return contents
 
 
 def content_limit_respected_read(f: IO[bytes]) -> str:
diff --git a/src/cwl_utils/parser/cwl_v1_1_utils.py b/src/cwl_utils/parser/cwl_v1_1_utils.py
index 838922e..d6e49b6 100644
--- a/src/cwl_utils/parser/cwl_v1_1_utils.py
+++ b/src/cwl_utils/parser/cwl_v1_1_utils.py
@@ -227,7 +227,13 @@ def content_limit_respected_read_bytes(f: IO[bytes]) -> bytes:
 
     Truncate content for larger files.
     """
-    return f.read(CONTENT_LIMIT)
+    contents = b""
+    while len(contents) < CONTENT_LIMIT:
+        # A single read may return less than what is available
+        if not (chunk := f.read(CONTENT_LIMIT - len(contents))):
+            break
+        contents += chunk
+    return contents
 
 
 def content_limit_respected_read(f: IO[bytes]) -> str:
diff --git a/src/cwl_utils/parser/cwl_v1_2_utils.py b/src/cwl_utils/parser/cwl_v1_2_utils.py
index e0f94e2..7aaf9fa 100644
--- a/src/cwl_utils/parser/cwl_v1_2_utils.py
+++ b/src/cwl_utils/parser/cwl_v1_2_utils.py
@@ -250,7 +250,12 @@ def content_limit_respected_read_bytes(f: IO[bytes]) -> bytes:
 
     Throw exception for larger files (see https://www.commonwl.org/v1.2/Workflow.html#Changelog).
     """
-    contents = f.read(CONTENT_LIMIT + 1)
+    contents = b""
+    while len(contents) <= CONTENT_LIMIT:
+        # A single read may return less than what is available
+        if not (chunk := f.read(CONTENT_LIMIT + 1 - len(contents))):
+            break
+        contents += chunk
     if len(contents) > CONTENT_LIMIT:
         raise WorkflowException(
             "file is too large, loadContents limited to %d bytes" % CONTENT_LIMIT
-- 
2.43.0


From 5872274abaf3797cd6263c5c849e933ba2466d96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:29 +0000
Subject: [PATCH 08/25] fix: resolve links of an imported part of a document
 relative to the imported file

---
 src/cwl_utils/pack.py | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/src/cwl_utils/pack.py b/src/cwl_utils/pack.py
index c90dd50..2e853f7 100644
--- a/src/cwl_utils/pack.py
+++ b/src/cwl_utils/pack.py
@@ -174,15 +174,22 @@ def resolve_imports(cwl: Any, base_url: urllib.parse.ParseResult) -> Any:
         return cwl
 
     for k, v in itr:
-        if isinstance(v, dict):
-            if len(v) == 1:
-                _k = list(v.keys())[0]
-                if _k in ("$import", "$include"):
-                    cwl[k], this_base_url = utils.load_linked_file(
-                        base_url, v[_k], is_import=_k == "$import"
-                    )
-
-        cwl[k] = resolve_imports(cwl[k], base_url)
+        if k == "run" and isinstance(cwl, dict) and "out" in cwl:
+            # The process of a step: resolve_steps() packs it on its own
+            if isinstance(v, dict) and list(v.keys()) == ["$import"]:
+                cwl[k] = v["$import"]
+            continue
+
+        this_base_url = base_url
+        while isinstance(v, dict) and len(v) == 1:
+            _k = list(v.keys())[0]
+            if _k not in ("$import", "$include"):
+                break
+            v, this_base_url = utils.load_linked_file(
+                this_base_url, v[_k], is_import=_k == "$import"
+            )
+
+        cwl[k] = resolve_imports(v, this_base_url)
 
     return cwl
 
-- 
2.43.0


From d8f1e8099e890bdc6a88d27b3cc0b6387837ca06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:29 +0000
Subject: [PATCH 09/25] fix: accept a list of a single imported input and
 resolve includes in imported types

---
 src/cwl_utils/schemadef.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/cwl_utils/schemadef.py b/src/cwl_utils/schemadef.py
index 9c72dd6..bb00566 100644
--- a/src/cwl_utils/schemadef.py
+++ b/src/cwl_utils/schemadef.py
@@ -120,7 +120,7 @@ def inline_types(
     if (
         len(cwl[port]) == 1
         and isinstance(cwl[port][0], dict)
-        and cwl[port][0]["id"] == "$import"
+        and cwl[port][0].get("id") == "$import"
     ):
         defs, base_url = utils.load_linked_file(
             base_url, cwl[port][0]["type"], is_import=True
@@ -196,6 +196,11 @@ def _inline_type(
             )
             return _inline_type(imported_type, import_base_url, user_defined_types)
 
+        for _k, _v in v.items():
+            # The link is relative to the file that holds the type
+            if isinstance(_v, dict) and list(_v.keys()) == ["$include"]:
+                v[_k], _ = utils.load_linked_file(base_url, _v["$include"])
+
         _type = v.get("type")
         if _type is None:
             raise errors.MissingTypeName(
-- 
2.43.0


From 9764d55e1781fbf566393bacf2230984e7dcb2e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:29 +0000
Subject: [PATCH 10/25] fix: find files linked from a relative path that leads
 upwards and from file:// URIs

---
 src/cwl_utils/pack.py  |  5 ++++-
 src/cwl_utils/utils.py | 24 ++++++++++++++++--------
 2 files changed, 20 insertions(+), 9 deletions(-)

diff --git a/src/cwl_utils/pack.py b/src/cwl_utils/pack.py
index 2e853f7..4c54442 100644
--- a/src/cwl_utils/pack.py
+++ b/src/cwl_utils/pack.py
@@ -15,6 +15,7 @@ used to fetch data
 From https://github.com/rabix/sbpack/blob/b8404a0859ffcbe1edae6d8f934e51847b003320/sbpack/lib.py
 """
 
+import os
 import urllib.parse
 from collections.abc import ItemsView
 from typing import TYPE_CHECKING, Any, Union, cast
@@ -267,7 +268,9 @@ def add_missing_requirements(cwl: dict[str, Any]) -> dict[str, Any]:
 def pack(cwl_path: str) -> dict[str, Any]:
     """Pack a CWL document at the given path."""
     _logger.debug("Packing %s", cwl_path)
-    file_path_url = urllib.parse.urlparse(cwl_path)
+    file_path_url = utils.resolved_path(urllib.parse.urlparse(""), cwl_path)
+    if file_path_url.scheme == "":
+        file_path_url = file_path_url._replace(path=os.path.abspath(file_path_url.path))
 
     cwl, full_url = cast(
         tuple[dict[str, Any], urllib.parse.ParseResult],
diff --git a/src/cwl_utils/utils.py b/src/cwl_utils/utils.py
index 3327230..8158e85 100644
--- a/src/cwl_utils/utils.py
+++ b/src/cwl_utils/utils.py
@@ -2,6 +2,7 @@
 """Miscellaneous utility functions."""
 
 import pathlib
+import posixpath
 import subprocess  # nosec
 import sys
 import urllib.error
@@ -42,7 +43,7 @@ def _is_github_symbolic_link(base_url: urllib.parse.ParseResult, contents: str)
 
     https://github.com/rabix/sbpack/blob/b8404a0859ffcbe1edae6d8f934e51847b003320/sbpack/lib.py
     """
-    if base_url.scheme in ("file://", ""):
+    if base_url.scheme in ("file", ""):
         return False
 
     idx = contents.find("\n")
@@ -90,7 +91,7 @@ def load_linked_file(
     """From https://github.com/rabix/sbpack/blob/b8404a0859ffcbe1edae6d8f934e51847b003320/sbpack/lib.py ."""
     new_url = resolved_path(base_url, link)
 
-    if new_url.scheme in ("file://", ""):
+    if new_url.scheme in ("file", ""):
         contents = pathlib.Path(new_url.path).read_text()
     else:
         try:
@@ -184,19 +185,26 @@ def resolved_path(
     link_url = urllib.parse.urlparse(link)
     # The link will always Posix
 
-    if link_url.scheme == "file://":
+    if link_url.scheme == "file":
         # Absolute local path
-        return link_url
+        return link_url._replace(
+            scheme="", netloc="", path=urllib.request.url2pathname(link_url.path)
+        )
 
     elif link_url.scheme == "":
         # Relative path, can be local or remote
-        if base_url.scheme in ("file://", ""):
+        if base_url.scheme in ("file", ""):
             # Local relative path
-            if link == "":
+            if link_url.path == "":
                 return base_url
             else:
-                return urllib.parse.urlparse(
-                    urllib.parse.urljoin(base_url.geturl(), link_url.geturl())
+                # Not urljoin(): it loses the leading ".." of a relative path
+                return link_url._replace(
+                    path=posixpath.normpath(
+                        posixpath.join(
+                            posixpath.dirname(base_url.path), link_url.path
+                        )
+                    )
                 )
         else:
             # Remote relative path
-- 
2.43.0


From 2b42f845d55cb965ed26b6931fa50be21bd12b0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:55 +0000
Subject: [PATCH 11/25] fix: do not share a YAML parser between documents and
 threads

---
 src/cwl_utils/utils.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/cwl_utils/utils.py b/src/cwl_utils/utils.py
index 8158e85..e76295e 100644
--- a/src/cwl_utils/utils.py
+++ b/src/cwl_utils/utils.py
@@ -29,8 +29,6 @@ from cwl_utils.parser import cwl_v1_0, cwl_v1_1, cwl_v1_2
 from cwl_utils.parser.cwl_v1_2 import InputArraySchema as InputArraySchemaV1_2
 from cwl_utils.parser.cwl_v1_2 import InputEnumSchema as InputEnumSchemaV1_2
 
-fast_yaml = YAML(typ="safe")
-
 _USERNS: bool | None = None
 
 
@@ -112,7 +110,8 @@ def load_linked_file(
 
     if is_import:
         try:
-            _node = fast_yaml.load(contents)
+            # The parser keeps state: it cannot be shared by documents or threads
+            _node = YAML(typ="safe").load(contents)
         except ParserError as e:
             e.context = f"\n===\nMalformed file: {new_url.geturl()}\n===\n" + e.context
             raise SystemExit(e) from e
-- 
2.43.0


From ee32d2a16839183ca4a071c590ca929fd7666dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:59 +0000
Subject: [PATCH 12/25] fix: give inlined types the same, distinct names
 whatever was packed before or meanwhile

---
 src/cwl_utils/pack.py      |  1 +
 src/cwl_utils/schemadef.py | 43 +++++++++++++++++++++++++++-----------
 2 files changed, 32 insertions(+), 12 deletions(-)

diff --git a/src/cwl_utils/pack.py b/src/cwl_utils/pack.py
index 4c54442..b0fd0a3 100644
--- a/src/cwl_utils/pack.py
+++ b/src/cwl_utils/pack.py
@@ -279,6 +279,7 @@ def pack(cwl_path: str) -> dict[str, Any]:
     if "$graph" in cwl:
         # assume already packed
         return cwl
+    schemadef.reset_inline_type_names()
     cwl = pack_process(cwl, full_url, cwl["cwlVersion"])
 
     return cwl
diff --git a/src/cwl_utils/schemadef.py b/src/cwl_utils/schemadef.py
index bb00566..45a4a67 100644
--- a/src/cwl_utils/schemadef.py
+++ b/src/cwl_utils/schemadef.py
@@ -16,6 +16,7 @@ From https://github.com/rabix/sbpack/blob/b8404a0859ffcbe1edae6d8f934e51847b0033
 """
 
 import sys
+import threading
 import urllib.parse
 from copy import deepcopy
 from typing import Any, cast
@@ -132,16 +133,39 @@ def inline_types(
     return cwl
 
 
-_inline_type_name_uniq_id = 0
-_inline_type_names: set[str] = set()
+class _InlineTypeNames(threading.local):
+    """Names given to the types inlined so far by this thread."""
+
+    def __init__(self) -> None:
+        self.reset()
+
+    def reset(self) -> None:
+        """Start a new document."""
+        self.uniq_id = 0
+        self.names: set[str] = set()
+
+    def add(self, name: str) -> str:
+        """Make a name distinct from the names given so far."""
+        uniq_name = name
+        while uniq_name in self.names:
+            uniq_name = f"{name}_{self.uniq_id}"
+            self.uniq_id += 1
+        self.names.add(uniq_name)
+        return uniq_name
+
+
+_inline_type_names = _InlineTypeNames()
+
+
+def reset_inline_type_names() -> None:
+    """Forget the type names used by the document that was packed before."""
+    _inline_type_names.reset()
 
 
 def _inline_type(
     v: Any, base_url: urllib.parse.ParseResult, user_defined_types: dict[str, Any]
 ) -> Any:
-    global _inline_type_name_uniq_id
-
-    _inline_type_name_uniq_id += 1
+    _inline_type_names.uniq_id += 1
 
     if isinstance(v, str):
         # Handle syntactic sugar
@@ -176,14 +200,9 @@ def _inline_type(
             # resolve_type.pop("name", None) # Should work, but cwltool complains
             if "name" in resolve_type:
                 user_type_name = resolve_type["name"]
-                if user_type_name in _inline_type_names:
-                    resolve_type["name"] = (
-                        f"{user_type_name}_{_inline_type_name_uniq_id}"
-                    )
-                else:
-                    _inline_type_names.add(user_type_name)
             else:
-                resolve_type["name"] = f"user_type_{_inline_type_name_uniq_id}"
+                user_type_name = f"user_type_{_inline_type_names.uniq_id}"
+            resolve_type["name"] = _inline_type_names.add(user_type_name)
             return _inline_type(resolve_type, path_prefix, user_defined_types)
 
     elif isinstance(v, list):
-- 
2.43.0


From 797c42c9f1c89d77c03842fc6555f74011b2d7c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:11 +0000
Subject: [PATCH 13/25] fix: write each type file of a split afresh, as a list
 when it holds several types

---
 src/cwl_utils/graph_split.py | 46 +++++++++++++++++++++++++++++-------
 1 file changed, 37 insertions(+), 9 deletions(-)

diff --git a/src/cwl_utils/graph_split.py b/src/cwl_utils/graph_split.py
index 8a1ef14..ca2e5d3 100755
--- a/src/cwl_utils/graph_split.py
+++ b/src/cwl_utils/graph_split.py
@@ -9,6 +9,7 @@ Only tested with a single v1.0 workflow.
 """
 
 import argparse
+import copy
 import json
 import logging
 import os
@@ -132,10 +133,11 @@ def graph_split(
 
     RoundTripRepresenter.add_representer(type(None), my_represent_none)
 
+    type_files: dict[str, list[Any]] = {}
     for entry in source["$graph"]:
         entry_id = entry.pop("id").lstrip("#")
         entry["cwlVersion"] = version
-        imports = rewrite(entry, entry_id, output_dir)
+        imports = rewrite(entry, entry_id, output_dir, type_files=type_files)
         if imports:
             for import_name in imports:
                 rewrite_types(entry, f"#{import_name}", False)
@@ -167,13 +169,19 @@ def rewrite_id(entry: Any, this_id: str | None) -> MutableMapping[Any, Any] | st
 
 
 def rewrite(
-    document: Any, doc_id: str, output_dir: Path, pretty: bool = False
+    document: Any,
+    doc_id: str,
+    output_dir: Path,
+    pretty: bool = False,
+    type_files: dict[str, list[Any]] | None = None,
 ) -> set[str]:
     """Rewrite the given element from the CWL $graph."""
     imports = set()
+    if type_files is None:
+        type_files = {}
     if isinstance(document, list) and not isinstance(document, str):
         for entry in document:
-            imports.update(rewrite(entry, doc_id, output_dir, pretty))
+            imports.update(rewrite(entry, doc_id, output_dir, pretty, type_files))
     elif isinstance(document, dict):
         this_id = document["id"] if "id" in document else None
         for key, value in document.items():
@@ -209,9 +217,13 @@ def rewrite(
                     case "$import":
                         rewrite_import(document)
                     case "class" if value == "SchemaDefRequirement":
-                        return rewrite_schemadef(document, output_dir, pretty)
+                        return rewrite_schemadef(
+                            document, output_dir, pretty, type_files
+                        )
                     case _:
-                        imports.update(rewrite(value, doc_id, output_dir, pretty))
+                        imports.update(
+                            rewrite(value, doc_id, output_dir, pretty, type_files)
+                        )
     return imports
 
 
@@ -246,9 +258,18 @@ def rewrite_types(field: Any, entry_file: str, sameself: bool) -> None:
 
 
 def rewrite_schemadef(
-    document: MutableMapping[str, Any], output_dir: Path, pretty: bool = False
+    document: MutableMapping[str, Any],
+    output_dir: Path,
+    pretty: bool = False,
+    type_files: dict[str, list[Any]] | None = None,
 ) -> set[str]:
-    """Dump the schemadefs to their own file."""
+    """
+    Dump the schemadefs to their own file.
+
+    :param type_files: the types written by this split so far, per file name.
+    """
+    if type_files is None:
+        type_files = {}
     for entry in document["types"]:
         if "$import" in entry:
             rewrite_import(entry)
@@ -257,8 +278,15 @@ def rewrite_schemadef(
             for field in entry.get("fields", []):
                 field["name"] = field["name"].split("/")[2]
                 rewrite_types(field, entry_file, True)
-            with (output_dir / entry_file).open("a", encoding="utf-8") as entry_handle:
-                yaml_dump(entry, entry_handle, pretty)
+            types_in_file = type_files.setdefault(entry_file, [])
+            if entry["name"] not in (known["name"] for known in types_in_file):
+                types_in_file.append(copy.copy(entry))
+            with (output_dir / entry_file).open("w", encoding="utf-8") as entry_handle:
+                yaml_dump(
+                    types_in_file if len(types_in_file) > 1 else types_in_file[0],
+                    entry_handle,
+                    pretty,
+                )
             entry["$import"] = entry_file
             del entry["name"]
             del entry["type"]
-- 
2.43.0


From d2e394d12983ea51b20dcf32f9b2531766c2f09a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:54 +0000
Subject: [PATCH 14/25] fix: adjust references to split types in unions, items
 and fields, and import them with nothing else

---
 src/cwl_utils/graph_split.py | 29 +++++++++++++++++------------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/src/cwl_utils/graph_split.py b/src/cwl_utils/graph_split.py
index ca2e5d3..ab91cbf 100755
--- a/src/cwl_utils/graph_split.py
+++ b/src/cwl_utils/graph_split.py
@@ -235,6 +235,14 @@ def rewrite_import(document: MutableMapping[str, Any]) -> None:
 
 def rewrite_types(field: Any, entry_file: str, sameself: bool) -> None:
     """Clean up the names of the types."""
+
+    def rename(value: str) -> str:
+        if value == entry_file or not value.startswith(f"{entry_file}/"):
+            return value
+        if sameself:
+            return value[len(entry_file) + 1 :]
+        return "{d[0]}#{d[1]}".format(d=value[1:].split("/", 1))
+
     if isinstance(field, list) and not isinstance(field, str):
         for entry in field:
             rewrite_types(entry, entry_file, sameself)
@@ -243,13 +251,13 @@ def rewrite_types(field: Any, entry_file: str, sameself: bool) -> None:
         for key, value in field.items():
             for name in ("type", "items"):
                 if key == name:
-                    if isinstance(value, str) and value.startswith(entry_file):
-                        if sameself:
-                            field[key] = value[len(entry_file) + 1 :]
-                        else:
-                            field[key] = "{d[0]}#{d[1]}".format(
-                                d=value[1:].split("/", 1)
-                            )
+                    if isinstance(value, str):
+                        field[key] = rename(value)
+                    elif isinstance(value, list):
+                        value[:] = [
+                            rename(item) if isinstance(item, str) else item
+                            for item in value
+                        ]
             if isinstance(value, dict):
                 rewrite_types(value, entry_file, sameself)
             if isinstance(value, list) and not isinstance(value, str):
@@ -277,7 +285,7 @@ def rewrite_schemadef(
             entry_file, entry["name"] = entry["name"].lstrip("#").split("/")
             for field in entry.get("fields", []):
                 field["name"] = field["name"].split("/")[2]
-                rewrite_types(field, entry_file, True)
+            rewrite_types(entry, f"#{entry_file}", True)
             types_in_file = type_files.setdefault(entry_file, [])
             if entry["name"] not in (known["name"] for known in types_in_file):
                 types_in_file.append(copy.copy(entry))
@@ -287,11 +295,8 @@ def rewrite_schemadef(
                     entry_handle,
                     pretty,
                 )
+            entry.clear()
             entry["$import"] = entry_file
-            del entry["name"]
-            del entry["type"]
-            if "fields" in entry:
-                del entry["fields"]
     seen_imports = set()
 
     def seen_import(entry: MutableMapping[str, Any]) -> bool:
-- 
2.43.0


From 43c70c0df22157f3e2f45fbc3cf42fc45f926b0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:05 +0000
Subject: [PATCH 15/25] fix: graph-split: represent null as 'null' without
 changing ruamel's representer for everyone

---
 src/cwl_utils/graph_split.py | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/src/cwl_utils/graph_split.py b/src/cwl_utils/graph_split.py
index ab91cbf..9c2870f 100755
--- a/src/cwl_utils/graph_split.py
+++ b/src/cwl_utils/graph_split.py
@@ -28,8 +28,10 @@ from typing import (
 try:
     stringify_dict: Callable[[dict[str, Any]], str] | None
     from cwlformat.formatter import stringify_dict
+    from cwlformat.formatter import yaml as cwlformat_yaml
 except ImportError:
     stringify_dict = None
+    cwlformat_yaml = None
 from ruamel.yaml.main import YAML
 from ruamel.yaml.representer import RoundTripRepresenter
 from schema_salad.sourceline import SourceLine, add_lc_filename
@@ -43,6 +45,22 @@ _logger.setLevel(logging.INFO)
 _cwlutilslogger.setLevel(100)
 
 
+class SplitRepresenter(RoundTripRepresenter):
+    """Represents None as 'null', without changing the class everyone else uses."""
+
+
+def represent_none(
+    self: Any, data: Any
+) -> Any:  # pylint: disable=unused-argument
+    """Force clean representation of 'null'."""
+    return self.represent_scalar("tag:yaml.org,2002:null", "null")
+
+
+SplitRepresenter.add_representer(type(None), represent_none)
+if cwlformat_yaml is not None:
+    cwlformat_yaml.Representer = SplitRepresenter
+
+
 def arg_parser() -> argparse.ArgumentParser:
     """Build the argument parser."""
     parser = argparse.ArgumentParser(description="Split a packed CWL document.")
@@ -125,14 +143,6 @@ def graph_split(
     if not output_dir.is_dir():
         output_dir.mkdir()
 
-    def my_represent_none(
-        self: Any, data: Any
-    ) -> Any:  # pylint: disable=unused-argument
-        """Force clean representation of 'null'."""
-        return self.represent_scalar("tag:yaml.org,2002:null", "null")
-
-    RoundTripRepresenter.add_representer(type(None), my_represent_none)
-
     type_files: dict[str, list[Any]] = {}
     for entry in source["$graph"]:
         entry_id = entry.pop("id").lstrip("#")
@@ -333,6 +343,7 @@ def yaml_dump(
         output_handle.write(stringify_dict(entry))
         return
     yaml = YAML(typ="rt", pure=True)
+    yaml.Representer = SplitRepresenter
     yaml.default_flow_style = False
     yaml.indent = 4
     yaml.block_seq_indent = 2
-- 
2.43.0


From fc87a13954013890879c99088d9f83e60435fdc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:24 +0000
Subject: [PATCH 16/25] fix: inputs-schema-gen: open the output only when the
 schema is complete, and close it

---
 src/cwl_utils/inputs_schema_gen.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/cwl_utils/inputs_schema_gen.py b/src/cwl_utils/inputs_schema_gen.py
index a3592a5..37f5a62 100644
--- a/src/cwl_utils/inputs_schema_gen.py
+++ b/src/cwl_utils/inputs_schema_gen.py
@@ -546,8 +546,7 @@ def arg_parser() -> argparse.ArgumentParser:
     parser.add_argument(
         "-o",
         "--output",
-        type=argparse.FileType("w"),
-        default=sys.stdout,
+        default="-",
         help="Output file. Default is stdout.",
     )
     return parser
@@ -597,8 +596,8 @@ def run(args: argparse.Namespace) -> int:
     cwl_url = get_cwl_url(args.cwl_url)
 
     # Check the output file is writable
-    if args.output.name != "<stdout>":
-        if not Path(args.output.name).parent.is_dir():
+    if args.output != "-":
+        if not Path(args.output).parent.is_dir():
             logging.error(
                 "The output file is not writable, the output parent directory does not exist"
             )
@@ -614,7 +613,12 @@ def run(args: argparse.Namespace) -> int:
             "Failed to generate JSON Schema from CWL inputs object. Error: %s", e
         )
         return 1
-    args.output.write(json.dumps(jsonschema, indent=2) + "\n")
+    serialized = json.dumps(jsonschema, indent=2) + "\n"
+    if args.output == "-":
+        sys.stdout.write(serialized)
+    else:
+        with open(args.output, "w", encoding="utf-8") as output_handle:
+            output_handle.write(serialized)
 
     return 0
 
-- 
2.43.0


From 27ff6d425474b1cbf978784ef7b5f257dc45fa5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:20 +0000
Subject: [PATCH 17/25] fix: adjust references between the type files of a
 split

---
 src/cwl_utils/graph_split.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/cwl_utils/graph_split.py b/src/cwl_utils/graph_split.py
index 9c2870f..5ed00da 100755
--- a/src/cwl_utils/graph_split.py
+++ b/src/cwl_utils/graph_split.py
@@ -288,6 +288,11 @@ def rewrite_schemadef(
     """
     if type_files is None:
         type_files = {}
+    entry_files = {
+        reference.lstrip("#").split("/")[0]
+        for entry in document["types"]
+        if (reference := entry.get("$import") or entry.get("name"))
+    }
     for entry in document["types"]:
         if "$import" in entry:
             rewrite_import(entry)
@@ -296,6 +301,8 @@ def rewrite_schemadef(
             for field in entry.get("fields", []):
                 field["name"] = field["name"].split("/")[2]
             rewrite_types(entry, f"#{entry_file}", True)
+            for other_file in entry_files - {entry_file}:
+                rewrite_types(entry, f"#{other_file}", False)
             types_in_file = type_files.setdefault(entry_file, [])
             if entry["name"] not in (known["name"] for known in types_in_file):
                 types_in_file.append(copy.copy(entry))
-- 
2.43.0


From 9234279212b102f08c83ff49120ea50e0809ce21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:17 +0000
Subject: [PATCH 18/25] fix: do not change the caller's document when loading
 from a $graph

---
 src/cwl_utils/parser/__init__.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/cwl_utils/parser/__init__.py b/src/cwl_utils/parser/__init__.py
index e7fef0d..3ed1798 100644
--- a/src/cwl_utils/parser/__init__.py
+++ b/src/cwl_utils/parser/__init__.py
@@ -1,5 +1,6 @@
 # SPDX-License-Identifier: Apache-2.0
 
+import copy
 import os
 from abc import ABC
 from collections.abc import MutableMapping, MutableSequence
@@ -387,7 +388,8 @@ def load_document_by_yaml(
     """Load a CWL object from a YAML object."""
     version = cwl_version(yaml)
     if "$graph" in yaml and not load_all:
-        yaml = _get_id_from_graph(yaml, id_)
+        # the entry belongs to the caller
+        yaml = copy.copy(_get_id_from_graph(yaml, id_))
         yaml["cwlVersion"] = version
     match version:
         case "v1.0":
-- 
2.43.0


From 423cd8da446dc434f230eebf5a04cef2de4907ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:52 +0000
Subject: [PATCH 19/25] fix: report container and software hints of workflow
 steps

---
 src/cwl_utils/cite_extract.py   | 10 +++++++++-
 src/cwl_utils/docker_extract.py | 10 +++++++++-
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/cwl_utils/cite_extract.py b/src/cwl_utils/cite_extract.py
index d35081d..4fa4d6c 100755
--- a/src/cwl_utils/cite_extract.py
+++ b/src/cwl_utils/cite_extract.py
@@ -2,7 +2,7 @@
 # SPDX-License-Identifier: Apache-2.0
 import argparse
 import sys
-from collections.abc import Iterator
+from collections.abc import Iterator, MutableMapping
 from typing import cast
 
 import cwl_utils.parser as cwl
@@ -42,6 +42,14 @@ def extract_software_reqs(
                 yield req
     if process.hints:
         for req in process.hints:
+            if isinstance(req, MutableMapping) and req.get("class") == "SoftwareRequirement":
+                # the loader does not parse the hints of workflow steps
+                cls = next(
+                    t
+                    for t in cwl.SoftwareRequirementTypes
+                    if t.__module__ == type(process).__module__
+                )
+                req = cls.fromDoc(req, process.id, process.loadingOptions)
             if isinstance(req, cwl.SoftwareRequirementTypes):
                 yield req
 
diff --git a/src/cwl_utils/docker_extract.py b/src/cwl_utils/docker_extract.py
index f67163d..dd0b196 100755
--- a/src/cwl_utils/docker_extract.py
+++ b/src/cwl_utils/docker_extract.py
@@ -2,7 +2,7 @@
 # SPDX-License-Identifier: Apache-2.0
 import argparse
 import sys
-from collections.abc import Iterator
+from collections.abc import Iterator, MutableMapping
 from pathlib import Path
 from typing import cast
 
@@ -110,6 +110,14 @@ def extract_docker_reqs(process: cwl.Process) -> Iterator[cwl.DockerRequirement]
                 yield req
     if process.hints:
         for req in process.hints:
+            if isinstance(req, MutableMapping) and req.get("class") == "DockerRequirement":
+                # the loader does not parse the hints of workflow steps
+                cls = next(
+                    t
+                    for t in cwl.DockerRequirementTypes
+                    if t.__module__ == type(process).__module__
+                )
+                req = cls.fromDoc(req, process.id, process.loadingOptions)
             if isinstance(req, cwl.DockerRequirementTypes):
                 yield req
 
-- 
2.43.0


From 7188df4735a80d494aa2bc56c1e1d493e0cbacff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:57 +0000
Subject: [PATCH 20/25] fix: add the latest tag to images of registries with a
 port

---
 src/cwl_utils/docker_extract.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/cwl_utils/docker_extract.py b/src/cwl_utils/docker_extract.py
index dd0b196..70abbff 100755
--- a/src/cwl_utils/docker_extract.py
+++ b/src/cwl_utils/docker_extract.py
@@ -97,7 +97,11 @@ def extract_docker_requirements(
 ) -> Iterator[cwl.DockerRequirement]:
     """Yield an iterator of the docker reqs, normalizing the pull request."""
     for req in extract_docker_reqs(process):
-        if isinstance(req.dockerPull, str) and ":" not in req.dockerPull:
+        # a colon before the last slash belongs to the port of a registry
+        if (
+            isinstance(req.dockerPull, str)
+            and ":" not in req.dockerPull.rsplit("/", 1)[-1]
+        ):
             req.dockerPull += ":latest"
         yield req
 
-- 
2.43.0


From b8b6c61ff1233456623e7f200c9ad70723588aad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:19 +0000
Subject: [PATCH 21/25] fix: do not repeat the fragment of a remote URI in the
 loaded ids

---
 src/cwl_utils/parser/__init__.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/cwl_utils/parser/__init__.py b/src/cwl_utils/parser/__init__.py
index 3ed1798..cf6bca6 100644
--- a/src/cwl_utils/parser/__init__.py
+++ b/src/cwl_utils/parser/__init__.py
@@ -6,7 +6,7 @@ from abc import ABC
 from collections.abc import MutableMapping, MutableSequence
 from pathlib import Path
 from typing import Any, TypeAlias, cast
-from urllib.parse import unquote_plus, urlparse
+from urllib.parse import unquote_plus, urldefrag, urlparse
 
 import schema_salad.metaschema
 import schema_salad.runtime
@@ -332,8 +332,8 @@ def load_document_by_uri(
             real_uri = Path(unquote_plus(uri.path)).resolve().as_uri()
             base_uri = Path(unquote_plus(uri.path)).resolve().parent.as_uri()
         else:
-            real_uri = path
-            base_uri = os.path.dirname(path)
+            real_uri = urldefrag(path).url
+            base_uri = os.path.dirname(real_uri)
     else:
         real_uri = path.resolve().as_uri()
         base_uri = path.resolve().parent.as_uri()
-- 
2.43.0


From 741201e93d1277df6e8839ecd9b931741ba0fe12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:58 +0000
Subject: [PATCH 22/25] fix: decode all byte strings of a list, not only the
 first

bytes2str_in_dicts() returned from within the loop, so that evaluating an
expression with byte strings further on in a list of the inputs failed.
---
 src/cwl_utils/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cwl_utils/utils.py b/src/cwl_utils/utils.py
index e76295e..aa28507 100644
--- a/src/cwl_utils/utils.py
+++ b/src/cwl_utils/utils.py
@@ -73,7 +73,7 @@ def bytes2str_in_dicts(
     if isinstance(inp, MutableSequence):
         for idx, value in enumerate(inp):
             inp[idx] = bytes2str_in_dicts(value)
-            return inp
+        return inp
 
     # if value is bytes, return decoded string,
     elif isinstance(inp, bytes):
-- 
2.43.0


From 0b2995fe85950e3379c31f2eec12d6b557480482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:58 +0000
Subject: [PATCH 23/25] fix: index 0 of an empty list is a workflow exception
 as any other index

It was an IndexError, so that the JavaScript evaluation of the reference
was not tried either.
---
 src/cwl_utils/sandboxjs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cwl_utils/sandboxjs.py b/src/cwl_utils/sandboxjs.py
index 31fff16..a0eaee3 100644
--- a/src/cwl_utils/sandboxjs.py
+++ b/src/cwl_utils/sandboxjs.py
@@ -579,7 +579,7 @@ class NodeJSEngine(JSEngine):
                         "%s is a %s, cannot index on int '%s'"
                         % (parsed_string, type(current_value).__name__, key)
                     )
-                if key and key >= len(current_value):
+                if key >= len(current_value):
                     raise WorkflowException(
                         "%s list index %i out of range" % (parsed_string, key)
                     )
-- 
2.43.0


From 20c4b157136d0ee8cf4fafa2ef0bf8a943636c77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:58 +0000
Subject: [PATCH 24/25] fix: asynchronous JavaScript engines work in every
 thread

Threads other than the main one have no event loop until they set one.
---
 src/cwl_utils/expression.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/cwl_utils/expression.py b/src/cwl_utils/expression.py
index 0b74a44..40d006a 100644
--- a/src/cwl_utils/expression.py
+++ b/src/cwl_utils/expression.py
@@ -119,6 +119,16 @@ def scanner(scan: str) -> tuple[int, int] | None:
     return None
 
 
+def _event_loop() -> asyncio.AbstractEventLoop:
+    """Get the event loop of this thread; only the main thread has one from the start."""
+    try:
+        return asyncio.get_event_loop()
+    except RuntimeError:
+        loop = asyncio.new_event_loop()
+        asyncio.set_event_loop(loop)
+        return loop
+
+
 def evaluator(
     js_engine: JSEngine,
     ex: str,
@@ -139,7 +149,7 @@ def evaluator(
         try:
             if is_cwl_parameter_context_key(first_symbol):
                 if inspect.iscoroutinefunction(js_engine.regex_eval):
-                    return asyncio.get_event_loop().run_until_complete(
+                    return _event_loop().run_until_complete(
                         cast(
                             Awaitable[CWLOutputType],
                             js_engine.regex_eval(
@@ -166,7 +176,7 @@ def evaluator(
             expression_parse_exception = werr
     if fullJS:
         if inspect.iscoroutinefunction(js_engine.eval):
-            return asyncio.get_event_loop().run_until_complete(
+            return _event_loop().run_until_complete(
                 cast(Awaitable[CWLOutputType], js_engine.eval(ex, jslib, **kwargs))
             )
         else:
-- 
2.43.0


From a47fd7305ab0eac955d1c3996e5a80a2ba424cbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:25 +0000
Subject: [PATCH 25/25] fix: extracting container images does not change the
 loaded document

The missing tag was added to the requirement of the document itself, so
that saving the document afterwards wrote another image than it had.
---
 src/cwl_utils/docker_extract.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cwl_utils/docker_extract.py b/src/cwl_utils/docker_extract.py
index 70abbff..8234831 100755
--- a/src/cwl_utils/docker_extract.py
+++ b/src/cwl_utils/docker_extract.py
@@ -1,6 +1,7 @@
 #!/usr/bin/env python3
 # SPDX-License-Identifier: Apache-2.0
 import argparse
+import copy
 import sys
 from collections.abc import Iterator, MutableMapping
 from pathlib import Path
@@ -102,6 +103,7 @@ def extract_docker_requirements(
             isinstance(req.dockerPull, str)
             and ":" not in req.dockerPull.rsplit("/", 1)[-1]
         ):
+            req = copy.copy(req)  # the loaded document stays as it is
             req.dockerPull += ":latest"
         yield req
 
-- 
2.43.0

