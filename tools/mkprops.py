"""Writes /verif/properties.jsonl (kept as a script only so the prose stays readable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

SJ = "src/cwl_utils/sandboxjs.py"
prop("C01", "A JavaScript evaluation returns its own expression's value, or raises",
 "Every evaluation of a JavaScript expression by the default engine either returns exactly the JSON value which that expression (with its library) evaluates to, or raises an exception; it never returns a truncated or corrupted value, nor the value of another, earlier, failed, timed-out, interrupted or concurrent evaluation. An expression that throws, has no JSON value or never terminates never yields a value. When nothing goes wrong (no crash, timeout, interrupt or spawn failure) an expression that has a value always returns it, whatever its size, its characters, and however the pipes split or delay the data.",
 ["schedules", "fault_sequences", "histories", "inputs"],
 "all sequences of evaluations on any number of threads, all pipe chunkings and delays, all instants at which the engine process crashes, exits, stalls, times out or the caller is interrupted",
 "The tests run a few expressions one at a time against a healthy local node with favourable pipe timing; none kills the process mid-answer, races the kill timer, interrupts the caller or evaluates from several threads.",
 [SJ, "src/cwl_utils/cwlNodeEngine.js", "src/cwl_utils/cwlNodeEngineJSConsole.js", "src/cwl_utils/cwlNodeEngineWithContext.js"],
 [("select/read/write exchange loop with end-of-answer marker", SJ + " exec_js_process"), ("result decoding", SJ + " eval"), ("line-delimited JSON protocol", "src/cwl_utils/cwlNodeEngine.js")],
 [("localdata.procs", "per-thread cache of live engine processes", SJ), ("killed/timer", "watchdog of one evaluation", SJ)],
 ["NodeJSEngine.eval", "NodeJSEngine.exec_js_process", "exec_js_process()"])

prop("C02", "JavaScript evaluation always ends in bounded time and the engine recovers",
 "Every evaluation ends (with a value or an exception) no later than its timeout plus a short grace, whatever the engine process does; an expression that never terminates ends with the timeout error, and an engine process that dies in the middle of an evaluation is reported as a failure promptly rather than as a timeout. An evaluation that needs less than its timeout is never killed, and a timeout belonging to one evaluation never hits a later one. Once faults stop, the next evaluation of a valid expression on the same thread succeeds, after any earlier error, timeout, crash or interruption.",
 ["schedules", "fault_sequences", "histories"],
 "all timer/caller interleavings, all stall and crash instants of the engine process, all histories of failed evaluations preceding a valid one",
 "Tests contain one real timeout with a fixed sleep; they cannot place a crash at each instant, nor order the timer thread against the caller, nor follow a fault with a healthy evaluation.",
 [SJ], [("watchdog timer", SJ + " exec_js_process"), ("liveness test of cached process before reuse", SJ + " exec_js_process")],
 None, ["NodeJSEngine.eval", "NodeJSEngine.exec_js_process"])

prop("C03", "JavaScript engine processes are reused, isolated per thread, and never leaked",
 "Successive evaluations on one thread reuse one live engine process per engine flavour (plain, console, each context), different threads never talk to the same process, and a process that has died is replaced before the next evaluation. A process started with a context evaluates every later expression in that context and never in another's. When the engine object is disposed of, every process it started has been terminated, including those of failed evaluations, of finished threads, and processes that do not react.",
 ["schedules", "histories", "fault_sequences"],
 "all interleavings of evaluations on several threads with plain, console and context flavours, process deaths between and during evaluations, and engine disposal at the end",
 "Tests observe a single thread and never count processes, kill one between evaluations, or dispose of an engine whose process has hung.",
 [SJ, "src/cwl_utils/cwlNodeEngineWithContext.js"], [("thread-local process cache", SJ + " localdata.procs"), ("kill list drained at disposal", SJ + " __del__")],
 None, ["process table", "NodeJSEngine.exec_js_process"])

prop("C04", "The JS engine is found, or its container fallback used, or an error raised",
 "When starting a JavaScript engine, a local Node.js that works and is at least the minimum version is used; otherwise the Node.js container image is run through the requested container engine (docker, podman, singularity or udocker), pulled only if it is absent or a pull is forced. If none of these works the call raises (a missing or too old Node.js as the documented JavaScript exception) and never returns a process that cannot evaluate or is older than the minimum. A failed attempt leaves no state behind: once the cause is gone, the next attempt on the same engine object succeeds, pulling the image again if it still is not there.",
 ["configurations", "fault_sequences", "histories"],
 "all combinations of installed executables, versions, broken or slow programs, image caches and container engines, with spawn and pull failures at every step and retries after them",
 "The tests run on whatever machine is at hand: with node installed and, in CI, one container engine; version skew, spawn errors and failed pulls cannot be arranged there.",
 [SJ], [("trial of nodejs/node then container command construction", SJ + " new_js_proc"), ("version threshold", SJ + " check_js_threshold_version")],
 [("have_node_slim", "container image known to be present", SJ)], ["NodeJSEngine.new_js_proc", "NodeJSEngine.eval"])

EX = "src/cwl_utils/expression.py"
prop("C05", "Evaluating a CWL field gives the specified value or one WorkflowException",
 "Evaluating a field with parameter references and JavaScript expressions returns exactly what the CWL rules give (a sole expression keeps its type; otherwise each expression's JSON text is spliced into the literal text, left to right, with the escaping of the document's CWL version), from any thread, with a synchronous or an asynchronous engine, and with library code and inputs visible to each expression. If any expression in the field fails, times out or its engine dies, one workflow exception is raised, never a partially substituted string. The result depends only on the arguments: earlier or concurrent evaluations, successful or failed, do not change it.",
 ["schedules", "histories", "fault_sequences", "inputs"],
 "all fields mixing text, escapes, references and expressions, evaluated concurrently from several threads with sync and async engines, failures at each expression",
 "Tests evaluate from the main thread only, one field at a time, mostly with one engine, never concurrently, and no engine failure between two expressions of one field.",
 [EX, SJ], [("scanner and interpolation loop", EX + " interpolate"), ("dispatch to sync/async engine", EX + " evaluator"), ("exception wrapping", EX + " do_eval")],
 None, ["expression.do_eval", "expression.interpolate"])

PK = "src/cwl_utils/pack.py"
prop("C06", "Packing yields the complete self-contained document, or fails",
 "Packing a CWL document replaces every linked step process, import, include and user-defined type by the full content found at its link, local or remote and resolved relative to the file that contains the link, for any nesting. If any linked file cannot be fetched, read completely or parsed, packing fails with an error; it never returns a document with a part missing, truncated or left as a link. The source files are never modified, and packing again after the cause of a failure is gone gives the full result.",
 ["fault_sequences", "histories", "inputs"],
 "all trees of local and remote documents with shared and nested links, every failing fetch or read position (HTTP error, connection reset, timeout, short body, missing file, I/O error) and retries",
 "Tests pack a handful of fixed documents; no test makes a fetch fail midway, shortens a body or retries after a failure.",
 [PK, "src/cwl_utils/schemadef.py", "src/cwl_utils/utils.py"], [("recursive link resolution", PK + " pack_process, resolve_imports, resolve_steps"), ("type inlining", "src/cwl_utils/schemadef.py"), ("fetch of a linked file", "src/cwl_utils/utils.py load_linked_file")],
 None, ["pack.pack", "cwl-pack"])
prop("C07", "Packing the same document always gives the same result",
 "The result of packing depends only on the content of the document and its links: packing it first or after any number of other packs, successful or failed, in the same process, or at the same time as packs in other threads, gives the same document, including the names given to user-defined types. Within one packed document the names of the user-defined types inlined at references are all distinct: a name that is already taken gets a suffix until it is free.",
 ["schedules", "histories"],
 "all sequences of packs before, all interleavings of concurrent packs in the same process, failed packs included",
 "Every test packs in one fixed order and compares loosely; none compares with a fresh process or packs from two threads.",
 [PK, "src/cwl_utils/schemadef.py"], [("numbering of inlined type names", "src/cwl_utils/schemadef.py _inline_type")],
 [("type name registry", "names already used in the document being packed", "src/cwl_utils/schemadef.py")], ["pack.pack"])

CLI = ["src/cwl_utils/pack_cli.py", "src/cwl_utils/normalizer.py", "src/cwl_utils/expression_refactor.py", "src/cwl_utils/inputs_schema_gen.py", "src/cwl_utils/graph_split.py"]
prop("C08", "A command-line tool that reports success has written complete output",
 "When one of the document-writing command-line tools (pack, normalize, expression refactoring, JSON schema generation, graph split) ends with exit status 0, each of its output files (or standard output) holds exactly the complete result, whatever the disk and network did meanwhile: short writes, full disk, I/O errors and failed fetches end in a non-zero status or an exception. The input documents are never changed and no temporary files are left behind. Running the tool again after a failure, a crash or a success into the same place gives exactly the result of a first clean run.",
 ["fault_sequences", "crash_points", "histories"],
 "every read, write, flush, close, rename and fetch as fault position or crash point, followed by a clean rerun",
 "Tests run each tool on a healthy disk and look at the exit status or a fragment of the output; no write ever fails and nothing is run twice into one directory.",
 CLI, [("output writing", "run()/main() of each tool"), ("temporary directory use", "src/cwl_utils/normalizer.py run")],
 None, ["exit status", "output directory", "standard output"])
prop("C09", "Generating a JSON schema leaves an existing output file alone until it succeeds",
 "When JSON schema generation for a CWL document fails before the schema is complete (unreachable or invalid document, unsupported type, failed fetch), an already existing output file keeps its previous content and no new empty output file appears. When it succeeds the file holds the whole schema as valid JSON at the time the tool returns.",
 ["fault_sequences", "crash_points"],
 "every failure position in loading the document and its imports and computing the schema, with and without a previous output file",
 "Tests only generate schemas for valid local documents and read the output after the process has ended.",
 ["src/cwl_utils/inputs_schema_gen.py"], [("output opening and writing", "src/cwl_utils/inputs_schema_gen.py arg_parser, run")],
 None, ["output file of cwl-inputs-schema-gen"])

IP = "src/cwl_utils/image_puller.py"
prop("C10", "A saved container image is complete; a broken pull is never taken for one",
 "When saving container images ends without an error, the save directory holds for every requested image a file with that image's complete content under the engine's documented name; with the force option the content comes from a pull made in this run. A failed or killed pull or save command is reported as an error, and the next run does not take what it left behind for a cached image: it pulls again and ends with the complete file. An image that is already saved completely is kept intact by a failing run, and singularity does not pull it again unless forced.",
 ["crash_points", "fault_sequences", "histories"],
 "every exit, kill, partial write, full disk or crash instant in the pull and save commands and in the tool, with reruns with and without force",
 "Tests need a real container engine and network, run one successful pull, and cannot kill a pull in the middle.",
 [IP, "src/cwl_utils/docker_extract.py"], [("pull/save command sequence and cache test", IP + " save_docker_image")],
 None, ["save directory", "cwl-docker-extract exit status"])

SG = "src/cwl_utils/singularity.py"
prop("C11", "Singularity version and user-namespace detection is consistent and recoverable",
 "All callers, on any thread and at any time, see the version, flavour and derived capability answers (2.6, 3.0, 3.1, 3.4 or newer, apptainer 1 or newer, user namespace support) of the installed singularity program, never a mixture of a version and another or empty flavour. A detection attempt that fails (missing program, unreadable output, crash) raises and is not remembered, so that a later attempt can succeed; a success is remembered and does not run the program again. The user-namespace probe ends in bounded time even if the program hangs, answers no in that case, and leaves no process running.",
 ["schedules", "fault_sequences", "configurations"],
 "all interleavings of first calls from several threads, all program outputs, failures and hangs",
 "Tests replace the cached variables directly and call from one thread; races, failures and hangs of the program are not reachable in them.",
 [SG, "src/cwl_utils/utils.py"], [("cached detection", SG + " get_version"), ("cached userns probe", "src/cwl_utils/utils.py singularity_supports_userns")],
 [("_SINGULARITY_VERSION/_SINGULARITY_FLAVOR", "cached detection result", SG), ("_USERNS", "cached probe result", "src/cwl_utils/utils.py")], ["singularity.get_version", "utils.singularity_supports_userns"])

PA = "src/cwl_utils/parser/__init__.py"
prop("C12", "Loading a CWL document gives all of it or an error, and can be retried",
 "Loading a document (from a path, URI, text or mapping) that imports or includes other local or remote files returns an object with all of their content, the same whichever of these ways it is loaded, or raises; a fetch or read that fails or ends early never yields an object with content missing. A failed load has no lasting effect: loading again after the cause is gone gives the same object as a first load. Loading resources does not change what other documents, loaded before, after or concurrently on other threads, contain.",
 ["fault_sequences", "schedules", "histories"],
 "every fetch and read position failing or cut short, with retries, and concurrent loads on several threads",
 "Tests load fixed healthy documents one after another; no fetch fails midway and no loads overlap.",
 [PA, "src/cwl_utils/parser/cwl_v1_0.py", "src/cwl_utils/parser/cwl_v1_1.py", "src/cwl_utils/parser/cwl_v1_2.py"],
 [("version dispatch and loading options", PA + " load_document_by_uri, load_document_by_yaml"), ("import and include resolution", "src/cwl_utils/parser/cwl_v1_2.py _document_load, _load_field")],
 [("loadingOptions.idx", "objects loaded so far by URI", "schema_salad.runtime")], ["parser.load_document_by_uri", "parser.save"])

prop("C13", "File contents loaded for expressions are complete up to the 64 KiB limit",
 "Reading file contents under the CWL content limit (64 KiB) returns all bytes of the stream when it holds at most that many; when it holds more, the CWL 1.2 functions raise a workflow exception and the CWL 1.0 and 1.1 functions return exactly the first 64 KiB. This holds regardless of how the stream splits its data over reads: a short read is never taken for the end. A read error propagates. The text form is the UTF-8 decoding of exactly those bytes, also when a character is split between two reads; bytes that are not UTF-8 raise.",
 ["schedules", "fault_sequences", "inputs"],
 "all stream lengths around the limit, all splits of the data into short reads, read errors at every position, for CWL 1.0, 1.1 and 1.2",
 "Tests read one small and one large in-memory buffer, which always answers in one read.",
 ["src/cwl_utils/parser/cwl_v1_0_utils.py", "src/cwl_utils/parser/cwl_v1_1_utils.py", "src/cwl_utils/parser/cwl_v1_2_utils.py"],
 [("bounded read", "content_limit_respected_read_bytes of each version")], None, ["content_limit_respected_read", "content_limit_respected_read_bytes"])

prop("C14", "Splitting a packed document is repeatable and crash-recoverable",
 "Splitting a packed document writes one file per process plus the shared type files, each holding exactly its part with references adjusted, independent of what the output directory held before and of earlier splits in the same process. Splitting again into the same directory, after a complete, failed or crashed split, leaves exactly the files a first split into an empty directory leaves. The packed input is not modified.",
 ["crash_points", "histories", "fault_sequences"],
 "every prefix of the writes of a split as a crash or error point, followed by reruns into the same directory; output directory absent, empty or already filled",
 "Each test splits once into a fresh directory on a healthy disk.",
 ["src/cwl_utils/graph_split.py"], [("per-process and per-type-file output", "src/cwl_utils/graph_split.py graph_split, rewrite_schemadef")],
 None, ["output directory of cwl-graph-split"])

prop("C15", "Requirement extraction reports all requirements of reachable processes, or fails",
 "Extracting container or software requirements from a document reports each such requirement or hint of the document, of its workflow steps and of every process the steps refer to, inline or in other local or remote files, at any depth, each image with an explicit tag at process level. If any referenced process cannot be loaded completely, extraction fails with an error rather than reporting success with an incomplete list. Two extractions of the same document in one process report the same.",
 ["fault_sequences", "inputs", "histories"],
 "all trees of tools and workflows, nested inline or by reference, with requirements at every place, and a failing or truncated fetch at each reference",
 "Tests extract from a few fixed local documents and check the length of the list.",
 ["src/cwl_utils/docker_extract.py", "src/cwl_utils/cite_extract.py"], [("recursive traversal", "traverse, traverse_workflow, get_process_from_step")],
 None, ["docker_extract.traverse/run", "cite_extract.traverse/run"])

prop("C16", "Library operations do not influence each other",
 "Loading, saving, packing, expression refactoring, JSON schema generation, evaluating parameter references and static checking of CWL documents give the same result whether run first in a fresh process, after any other operations (including failed ones), or concurrently with operations on other documents in other threads, and under any hash seed. No operation changes the documents, input objects or loaded objects of another operation.",
 ["schedules", "histories", "configurations"],
 "all sequences and thread interleavings of operations on a corpus of documents, and hash seeds",
 "Each test looks at one operation in one process with whatever came before; nothing compares with a fresh process and nothing runs concurrently.",
 ["src/cwl_utils/parser/__init__.py", "src/cwl_utils/parser/utils.py", "src/cwl_utils/pack.py", "src/cwl_utils/cwl_v1_0_expression_refactor.py", "src/cwl_utils/cwl_v1_1_expression_refactor.py", "src/cwl_utils/cwl_v1_2_expression_refactor.py", "src/cwl_utils/inputs_schema_gen.py"],
 [("module-level state", "parser modules, schemadef.py, utils.py, singularity.py"), ("per-load options", "parser LoadingOptions")],
 None, ["return values of the public functions"])

# ---- pure functions: listed, not claimed (no schedule, clock, fault or history in them)
def pure(id, title, st, over, files, mech):
    prop(id, title, st, over, "all valid documents / values", "Tests compare a handful of fixed documents.", files, mech)
pure("C30", "Saving a loaded document and loading it again gives an equal document",
 "For every valid CWL document, of any version, loading it and saving it yields a document which loads to an equal object.", ["inputs"],
 ["src/cwl_utils/parser/cwl_v1_2.py"], [("fromDoc/save", "parser modules")])
pure("C31", "Expression refactoring preserves the meaning of the workflow",
 "For every valid document, the refactored document contains no JavaScript expression in the places refactored and computes the same outputs as the original for all inputs.", ["programs"],
 ["src/cwl_utils/cwl_v1_2_expression_refactor.py"], [("traverse and replace", "cwl_v1_*_expression_refactor.py")])
pure("C32", "The generated JSON schema accepts exactly the valid input objects",
 "For every process, an input object validates against the generated JSON schema exactly if it is acceptable as input of the process.", ["inputs"],
 ["src/cwl_utils/inputs_schema_gen.py"], [("type translation", "inputs_schema_gen.py")])
pure("C33", "Static type checking accepts exactly type-compatible links",
 "For every workflow, the static checker reports an error exactly for links whose source type cannot satisfy the sink type.", ["programs"],
 ["src/cwl_utils/parser/utils.py", "src/cwl_utils/parser/cwl_v1_2_utils.py"], [("link checking", "parser/utils.py static_checker")])
pure("C34", "Parameter references select the element they name",
 "A parameter reference of any depth returns the selected element of its root value or raises if there is none.", ["inputs"],
 [SJ], [("regex_eval", SJ)])
pure("C35", "Format compatibility follows the ontology",
 "A file format is accepted exactly if it equals, is a subclass of, or is equivalent to the required one in the given ontologies.", ["inputs"],
 ["src/cwl_utils/file_formats.py"], [("subclass search", "file_formats.py formatSubclassOf")])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
