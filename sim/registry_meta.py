"""Static description of the checks (no imports of the code under test)."""
JS_REAL = ["cwl_utils.sandboxjs (driver)", "cwlNodeEngine*.js in a real V8 (one node process per worker, called synchronously)",
           "CPython subprocess.Popen/communicate, threading.Timer/Condition/Event on simulated primitives"]
JS_STUB = ["child processes, pipes and file descriptors", "select/poll/epoll", "clock and timers", "thread scheduler (real threads, simulated choice of who runs)",
           "signals (kill, KeyboardInterrupt)", "node start-up and `node -v`"]
COMMON_ASSUME = ["pre-emption inside cwl_utils happens at line boundaries and simulated system calls, not inside a bytecode line or C code",
                 "the simulated pipe/process semantics match Linux (PIPE_BUF atomicity, EOF and EPIPE on death, delayed reaping)"]
META = {
    "C01": dict(module="js", quick=4000, thorough=200000, real=JS_REAL, stub=JS_STUB, assumptions=COMMON_ASSUME,
                rule="A run = 1-3 threads with 1-7 evaluations each (generated expressions, flavours, faults) under one seeded schedule; non-trivial = at least one evaluation; distinct by event trace hash."),
    "C02": dict(module="js", quick=4000, thorough=200000, real=JS_REAL, stub=JS_STUB, assumptions=COMMON_ASSUME,
                rule="As C01 with hang/slow/crash/stall/interrupt-heavy mixes; non-trivial = at least one evaluation; distinct by event trace hash."),
    "C03": dict(module="js", quick=4000, thorough=200000, real=JS_REAL, stub=JS_STUB, assumptions=COMMON_ASSUME,
                rule="As C01 with more threads and flavours, engine disposal and re-creation; non-trivial = at least one evaluation; distinct by event trace hash."),
    "C04": dict(module="c04", quick=6000, thorough=200000,
                real=["cwl_utils.sandboxjs.NodeJSEngine (new_js_proc, eval)", "cwl_utils.utils.singularity_supports_userns", "cwlNodeEngine.js in a real V8",
                      "CPython subprocess.check_output/Popen on simulated primitives", "image cache files (a real scratch directory)"],
                stub=["node, docker, podman, udocker and singularity programs (behavioural models with versions, images, registry, daemon)", "child processes, pipes, clock, scheduler"],
                assumptions=COMMON_ASSUME + ["the modelled command lines follow the documented ones of docker, podman, udocker 1.3 and singularity 3"],
                rule="A run = one machine (installed programs, versions, images, failures) with 1-5 engine starts and changes between them; distinct by event trace hash."),
    "C11": dict(module="c11", quick=16000, thorough=400000,
                real=["cwl_utils.singularity", "cwl_utils.utils.singularity_supports_userns", "CPython subprocess on simulated primitives"],
                stub=["the singularity program", "child processes, pipes, clock, scheduler"], assumptions=COMMON_ASSUME,
                rule="A run = 1-4 threads calling the detection functions under failures of the program; distinct by event trace hash."),
    "C10": dict(module="c10", quick=16000, thorough=200000,
                real=["cwl_utils.image_puller", "cwl_utils.docker_extract", "cwl_utils.singularity", "CWL document loading", "CPython subprocess, tempfile, shutil, pathlib"],
                stub=["docker, podman and singularity programs and their registry (behavioural models)", "the file system (in memory, with faults and crashes)", "child processes, pipes, clock"],
                assumptions=["a process crash keeps what was written to the file system (no power loss)", "docker save renames its result into place, podman save and singularity pull write under the final name and podman refuses an existing file"],
                rule="A run = 2-6 invocations over one save directory with failing, killed and crashing pulls, saves and file operations; distinct by event trace hash."),
    "C13": dict(module="c13", quick=16000, thorough=600000,
                real=["cwl_utils.parser.cwl_v1_{0,1,2}_utils.content_limit_respected_read(_bytes)", "io.BufferedReader (a quarter of the streams)"],
                stub=["the stream read from (splits, stalls and fails as the seed says)", "thread scheduler, clock"], assumptions=COMMON_ASSUME[:1] + ["streams are blocking: a read gives at least one byte unless the data has ended"],
                rule="A run = 1-3 threads reading 1-4 streams each; distinct by event trace hash."),
    "C06": dict(module="c06", quick=6000, thorough=300000,
                real=["cwl_utils.pack", "cwl_utils.schemadef", "cwl_utils.utils.load_linked_file", "ruamel.yaml", "urllib.request, http.client, io"],
                stub=["the file system (in memory, with faults)", "sockets and HTTP servers (simulated, with faults)", "clock, thread scheduler"], assumptions=["documents that change while they are read are out of scope"],
                rule="A run = one generated tree of linked documents packed 2-4 times under failing reads and fetches; distinct by event trace hash."),
    "C07": dict(module="c06", quick=2000, thorough=200000,
                real=["cwl_utils.pack", "cwl_utils.schemadef", "cwl_utils.utils.load_linked_file", "ruamel.yaml", "urllib.request, http.client, io"],
                stub=["the file system (in memory, with faults)", "sockets and HTTP servers (simulated, with faults)", "clock, thread scheduler"], assumptions=COMMON_ASSUME[:1],
                rule="A run = 1-3 generated trees packed in 1-3 threads in any order, with failed packs and edits in between, compared with packing in a fresh state; distinct by event trace hash."),
    "C08": dict(module="c08", quick=1500, thorough=60000,
                real=["cwl_utils.pack_cli, normalizer, expression_refactor, inputs_schema_gen, graph_split and all they call", "cwlupgrader, cwlformat, schema_salad, ruamel.yaml, requests, urllib3, cachecontrol", "CPython argparse, tempfile, shutil, pathlib, io"],
                stub=["the file system (in memory, with faults and crashes)", "standard output", "sockets and HTTP servers (simulated, with faults)", "clock, thread scheduler"],
                assumptions=["a process crash keeps what was written to the file system (no power loss)"],
                rule="A run = one tool with generated documents, run 2-4 times into the same place under failing disks, networks, crashes and interrupts; distinct by event trace hash."),
    "C09": dict(module="c08", quick=1500, thorough=60000,
                real=["cwl_utils.inputs_schema_gen, cwl_utils.parser", "schema_salad, ruamel.yaml, requests, urllib3, cachecontrol", "CPython argparse, io"],
                stub=["the file system (in memory, with faults and crashes)", "sockets and HTTP servers (simulated, with faults)", "clock, thread scheduler"],
                assumptions=["a process crash keeps what was written to the file system (no power loss)"],
                rule="A run = schema generation for one generated document, 2-4 times, with output files in place before; distinct by event trace hash."),
    "C14": dict(module="c08", quick=2500, thorough=100000,
                real=["cwl_utils.graph_split", "cwlformat, schema_salad, ruamel.yaml", "CPython argparse, pathlib, io"],
                stub=["the file system (in memory, with faults and crashes)", "standard output", "clock, thread scheduler"],
                assumptions=["a process crash keeps what was written to the file system (no power loss)"],
                rule="A run = one generated packed document split 2-4 times into one directory under failing disks, crashes and interrupts; distinct by event trace hash."),
    "C12": dict(module="c12", quick=800, thorough=40000,
                real=["cwl_utils.parser (all versions)", "schema_salad, ruamel.yaml, requests, urllib3, cachecontrol"],
                stub=["the file system (in memory, with faults)", "sockets and HTTP servers (simulated, with faults)", "clock, thread scheduler"], assumptions=COMMON_ASSUME[:1],
                rule="A run = 1-3 generated documents loaded 1-8 times in 1-3 threads under failing reads and fetches, compared with a first load in a fresh state; distinct by event trace hash."),
    "C15": dict(module="c12", quick=800, thorough=40000,
                real=["cwl_utils.docker_extract, cite_extract, cwl_utils.parser (all versions)", "schema_salad, ruamel.yaml, requests, urllib3, cachecontrol"],
                stub=["the file system (in memory, with faults)", "sockets and HTTP servers (simulated, with faults)", "clock, thread scheduler"], assumptions=COMMON_ASSUME[:1],
                rule="A run = requirements of 1-3 generated documents extracted 1-8 times in 1-3 threads under failing reads and fetches; distinct by event trace hash."),
    "C05": dict(module="c05", quick=8000, thorough=200000,
                real=["cwl_utils.expression", "cwl_utils.sandboxjs (driver)", "cwlNodeEngine.js in a real V8", "CPython asyncio (BaseEventLoop), subprocess"],
                stub=["child processes, pipes and file descriptors", "select and the event loop's selector and clock", "clock and timers", "thread scheduler", "signals (KeyboardInterrupt)", "the asynchronous engines (a user's, around the real one)"],
                assumptions=COMMON_ASSUME,
                rule="A run = 1-3 threads evaluating 1-5 generated fields each over shared input objects under engine faults; distinct by event trace hash."),
    "C16": dict(module="c16", quick=800, thorough=40000,
                real=["cwl_utils.parser (all versions) and parser.utils, pack, expression refactoring, inputs_schema_gen, expression, docker_extract, cite_extract", "schema_salad, ruamel.yaml, requests, urllib3, cachecontrol"],
                stub=["the file system (in memory, with faults)", "sockets and HTTP servers (simulated, with faults)", "clock, thread scheduler"], assumptions=COMMON_ASSUME[:1],
                rule="A run = 2-6 library operations of eleven kinds on 1-3 generated documents in 1-3 threads under failing reads and fetches, compared with the operation alone in a fresh state and, for a quarter, in a process with another hash seed; distinct by event trace hash."),
}
NOTE = ("Seeded search: every run is one exactly repeatable execution of the real code with injected faults; absence of a violation "
        "is evidence for the explored runs only. Trusts the simulated system calls and the oracle described in DESIGN.md.")
