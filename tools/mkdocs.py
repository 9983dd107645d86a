"""Writes properties.jsonl and MANIFEST.json from the table below (run by hand, the results are committed)."""
import json, os

H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def p(id, title, statement, over, text, tests, files, mech, observe, note=None, na=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": text}, why_tests_cant=tests,
                  anchors={"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech], "observe_at": observe, "hook_needed": None}, note=note, na=na))


p("C01", "The image cache never changes what an evaluation gives",
  "For every graph, every node and frame, evaluating with any cache (of any capacity, with any history of earlier evaluations of this or other graphs that share it, hits and evictions included) gives the same status and the same output stream (pixels, windows, colour space, deformers, colour operations and LUTs) as evaluating the same graph built from nothing with a cache that holds nothing. "
  "In particular any change of an attribute, an input, the frame, a path or an environment variable in a path that matters to the result is seen by the next evaluation.",
  ["histories", "inputs", "configurations"], "all graphs, all sequences of edits and evaluations that share a cache, all capacities",
  "The tests evaluate fixed graphs once or twice with one cache of ample size; a missing hash input or a stale or wrongly keyed entry needs a particular pair of states, and an eviction a particular history.",
  ["src/cache.rs", "src/graph.rs", "src/node/*.rs", "src/stream.rs", "src/hashutils.rs", "src/colorlutimage.rs"],
  [("content hash of node, inputs and frame as the cache key", "src/node/*.rs hash() and compute()"), ("cache lookup before compute", "src/node/read_image.rs, crop_image.rs, viewer.rs; src/cache.rs")],
  ["status of execute", "output stream of the graph", "3D LUT of a stream"])
p("C02", "Evaluation depends on what the graph is, not on how it became that",
  "After any sequence of creating, deleting and re-creating nodes, setting attributes, connecting, reconnecting and disconnecting inputs and evaluating, an evaluation gives the same status and output as a graph with the same nodes, attributes and connections built directly in any order. Operations on nodes that do not exist change nothing.",
  ["histories"], "all edit histories and all creation orders", "The tests build each graph once in one order and hardly delete or disconnect anything.",
  ["src/graph.rs", "src/graphiter.rs", "src/node.rs", "src/attrblock.rs"], [("petgraph stable graph of nodes, edges with input numbers", "src/graph.rs"), ("upstream order by input number", "src/graphiter.rs")],
  ["status of execute", "output stream", "status of nodes"])
p("C03", "The image cache stays within capacity and evicts only what it must",
  "After every operation the bytes a cache reports are the bytes of the images it holds and do not exceed its capacity; an image is kept until it is the least recently used one and room is needed, and an image that fits (and is not empty) is kept. Evaluating again what is held reads no file and adds nothing, and lowering the capacity gives memory back at once.",
  ["histories", "configurations", "fault_sequences"], "all sequences of evaluations, sizes, capacities, capacity changes and failing reads", "The tests insert a few images into caches that never fill under evaluation.",
  ["src/cache.rs", "src/cache.cpp", "src/node/read_image.rs"], [("byte accounting and eviction by last use", "src/cache.rs insert, get, set_capacity")],
  ["used bytes, count and capacity of the cache", "file opens during an evaluation"])
p("C04", "A read that fails is contained: right pixels or a reported placeholder",
  "Whatever fails while an image is read (opening, reading, short reads, the file vanishing or being swapped in the middle), each read node of the evaluation either delivers exactly the pixels of the file or the placeholder image together with a status that says so; nothing partial, stale or foreign is used. The rest of the graph is evaluated with that as if it had been the input.",
  ["fault_sequences", "schedules", "inputs"], "all I/O failures at all points of all evaluations", "The tests read good files; no test makes a read fail.",
  ["src/node/read_image.rs", "src/imageio.rs", "src/imageio.cpp", "src/oiio_utils.cpp"], [("read errors turn into node status and a placeholder image", "src/node/read_image.rs compute"), ("error reporting of the reader", "src/imageio.cpp")],
  ["status of execute", "status of read nodes", "output stream"])
p("C05", "Once faults stop, evaluation is as if there had never been one",
  "After any failing reads, writes or evaluations, the next evaluation without a fault gives exactly the status and output the same graph gives from nothing on the files as they are then. No failed image or error status lingers in a cache, node or graph.",
  ["fault_sequences", "histories"], "all histories of faulty evaluations followed by a fault-free one", "No test makes I/O fail and then tries again.",
  ["src/node/read_image.rs", "src/cache.rs", "src/graph.rs"], [("failed images are not cached; node status is set on every compute", "src/node/read_image.rs, src/graph.rs")],
  ["status of execute", "status of nodes", "output stream"])
p("C06", "A write that is reported as success is complete on disk",
  "If an evaluation reports success, every frame of every active write node upstream is on disk with exactly the evaluated content in the format the path names; if any of that could not be created, written or finished, the evaluation reports an error. Without a fault (and with a writable target) success is reported.",
  ["fault_sequences", "inputs"], "all failures of creating, writing (error, short, out of space) and closing at all points", "The tests write to a healthy disk and only look at the status.",
  ["src/node/write_image.rs", "src/imageio.cpp", "src/imageio.rs", "src/graph.rs"], [("status of open, write and close of the writer", "src/imageio.cpp oiio_write_image"), ("write node turns it into its status", "src/node/write_image.rs")],
  ["status of execute and of the write node", "decoded files"])
p("C07", "A crash damages at most the file being written, a restart completes",
  "If the process ends at any point of an evaluation, every file that is no target of it is unchanged, frames acknowledged earlier are intact, frames have been completed in order, and at most one target is neither its old nor its complete new content. A new process evaluating the same frames succeeds and leaves the complete content.",
  ["crash_points", "histories"], "all crash points (each I/O call, and inside writes) of all evaluations", "No test ends the process.",
  ["src/graph.rs", "src/node/write_image.rs", "src/imageio.cpp"], [("frames are evaluated and written one after another", "src/graph.rs execute"), ("one file is opened, written and closed at a time", "src/imageio.cpp")],
  ["files that survive"])
p("C08", "Only evaluations touch files, each active write once per frame",
  "Creating, editing, connecting, querying or deleting nodes, graphs, streams and caches makes no file system access. An evaluation changes only the targets of write nodes that are upstream of the evaluated node, enabled and set to execute, for the requested frames, and completes each exactly once per frame, however many paths lead to it; it reads only files of read nodes upstream.",
  ["histories", "inputs", "fault_sequences"], "all graphs (diamonds, disabled and unconnected writes) and edit sequences", "The tests evaluate single chains and look at one file.",
  ["src/graph.rs", "src/graphiter.rs", "src/node/write_image.rs"], [("upstream traversal visits each node once", "src/graphiter.rs"), ("enable and execute guards", "src/node/write_image.rs")],
  ["file system calls", "files before and after"])
p("C09", "Evaluating several frames is evaluating each of them in order",
  "Evaluating a list of frames has the effect of evaluating the frames one by one in order up to the first that fails: same files, same status, and the output of the last evaluated frame. The frame number stands in for the padding in read and write paths with at least as many digits as there are padding characters.",
  ["inputs", "histories", "fault_sequences"], "all frame lists (repeated, negative, fractional, large), paddings and missing frames", "The tests use a handful of frames and one padding.",
  ["src/graph.rs", "src/pathutils.rs", "src/node/read_image.rs", "src/node/write_image.rs"], [("loop over frames", "src/graph.rs execute"), ("path expansion", "src/pathutils.rs")],
  ["status of execute", "output stream", "files"])
p("C10", "An operation leaves the hosting process as it found it, also on failure",
  "Every operation, succeeding or failing, leaves the process that hosts the library as it was: no leaked open file, and the working folder, environment, signal handling, file mode mask and the image library's global settings are unchanged.",
  ["fault_sequences", "histories"], "all operations under all I/O faults", "No test looks at the process it runs in.",
  ["src/imageio.cpp", "src/colorspace.cpp", "src/ops/imageresample.cpp"], [("readers and writers are owned and closed on all paths; per-image thread count", "src/imageio.cpp")],
  ["open file descriptors", "image library attributes", "cwd, environment, signals, umask"])
p("C11", "Graphs used in different threads do not influence each other",
  "Threads that each use graphs, streams and a cache of their own (over the same source files) get under every interleaving exactly the results, files and statuses they get when running alone, and the process state afterwards is as before.",
  ["schedules", "histories"], "all interleavings of two or more threads", "All tests are single-threaded within a process.",
  ["src/graph.rs", "src/cache.rs", "src/imageio.cpp", "src/colorspace.cpp", "src/logger.rs"], [("no shared mutable state besides the logger and the image library", "whole library")],
  ["status, output, files per thread", "process state"])
p("C12", "An output stream taken from a graph never changes",
  "A stream (pixels, windows, colour space, deformers, colour operations) taken from a graph after an evaluation reads the same for as long as it lives, whatever happens to the graph, its nodes, the cache, other streams, baking, LUT creation or the files afterwards. It is the result of the evaluation it was taken after.",
  ["histories"], "all sequences of operations after a stream was taken", "The tests read a stream right after the evaluation.",
  ["src/stream.rs", "src/graph.rs", "src/cache.rs", "src/node/*.rs", "src/ops/*.rs"], [("streams are cloned out of the graph; pixel blocks are shared and copied on write", "src/stream.rs, src/cache.rs")],
  ["queries of the stream"])
p("C13", "No graph, attribute value, file content or fault ends or hangs the process",
  "Every operation on every graph returns: cycles, deleted nodes, unknown attributes, attribute values out of their range, files that are missing, damaged or swapped, and I/O faults lead to an error status or a defined result, never to an abort, a crash or an endless loop. Evaluating a node that does not exist or that depends on itself reports an error.",
  ["inputs", "histories", "fault_sequences"], "all graphs, attribute values, file contents and faults", "The tests stay within valid values and good files.",
  ["src/graph.rs", "src/graphiter.rs", "src/node/*.rs", "src/ops/*.rs", "src/imageio.cpp", "src/oiio_utils.cpp"], [("error statuses instead of unwrap and assertions", "src/node/*.rs"), ("cycle detection", "src/graphiter.rs")],
  ["return of every call", "status of execute"])

exec(open(os.path.join(H, "tools", "more.py")).read())

TECH = "deterministic simulation with fault injection: seeded search over %s, judged by %s"
T = {
    "C01": ("edit, evaluation and eviction histories", "an uncached evaluation from nothing"),
    "C02": ("edit histories", "a rebuilt graph in shuffled order"),
    "C03": ("evaluation histories, capacities and read faults", "an exact LRU model"),
    "C04": ("read faults at seeded I/O calls", "the set of all contained outcomes"),
    "C05": ("fault histories", "a fault-free evaluation from nothing"),
    "C06": ("write faults at seeded I/O calls", "independently decoded files"),
    "C07": ("crash points with torn writes and restart", "old-or-new content of every file"),
    "C08": ("graphs and edit histories", "the intercepted file system calls and checksums"),
    "C09": ("frame lists, paddings and missing frames", "frame-by-frame evaluation with spelled-out names"),
    "C10": ("operations under I/O faults", "process state before and after"),
    "C11": ("thread schedules", "each thread's solo run"),
    "C12": ("operation histories", "the stream as it was first read"),
    "C13": ("graphs, values, damaged files and faults", "return of every call"),
}
T.update(T2)
NOTE = ("Exploration: one seed is one exactly repeatable execution of the real library (Rust and C++), OpenImageIO and OpenColorIO in one process, with file system calls, clock, memory size and thread schedule behind an interposed seam; "
        "the lens distortion kit is a stub. It can miss what needs a plan the generator does not make; see DESIGN.md for bounds and assumptions.")
with open(os.path.join(H, "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps({k: v for k, v in x.items() if k not in ("note", "na")}) + "\n")
m = {"version": 1, "setup_cmd": "bash build.sh", "checks": [], "not_applicable": [], "notes": "No hooks in /repo: all seams are at the C library boundary, see DESIGN.md. Known and repaired defects: KNOWN_FINDINGS.txt."}
for x in P:
    i = x["id"]
    if x["na"]:
        m["not_applicable"].append({"property": i, "reason": x["na"]})
    else:
        m["checks"].append({"property": i, "quick_cmd": "python3 check.py " + i, "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + i, "technique": TECH % T[i], "level": "exploration", "level_note": (x["note"] + " " if x["note"] else "") + NOTE})
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
