T2 = {}
NAR = "pure function of its inputs: no schedule, time, I/O, crash or multi-party behaviour for the result to depend on, so a simulator with injected faults adds nothing over calling it (see DESIGN.md)"
T2.update({
    "C14": ("config folders, file contents, memory sizes and I/O faults", "a model of the documented lookup and clamping"),
    "C15": ("edit, evaluation and fault histories", "a model of everything that was set and reported"),
    "C16": ("edit, cache, frame and fault histories", "an executable model of the node operations over independently decoded files"),
    "C17": ("write, process end or crash, and read histories", "an executable model followed through all processes"),
    "C19": ("histories of edits, evaluations and faults, in two worlds that differ in randomness, clock, heap, open files and logging", "the same history in the plain world, result by result"),
    "C18": ("repeated rounds of work with faults", "the allocator's count of bytes in use after each round"),
})
p("C14", "Any configuration gives a cache capacity within the machine's memory",
  "A configuration is the first readable file in the configured search path (or the given path). Its cache capacity is the stated percentage, limited to 0 to 100 %, of the system's memory; a missing, unreadable or invalid file or an unknown memory size gives the documented default (no cache capacity), never an abort or a capacity beyond the memory.",
  ["inputs", "fault_sequences"], "all search paths, file contents, memory sizes and I/O faults", "The tests load one good file on one machine.",
  ["src/config.rs", "src/config.cpp", "src/systemmemory.cpp"], [("search path, parsing, clamping", "src/config.rs"), ("memory size", "src/systemmemory.cpp")], ["cache_ram_capacity_percent", "cache_ram_capacity_bytes"])
p("C15", "A graph answers truthfully about its state, nodes and attributes at all times",
  "After any sequence of creations, deletions, attribute changes (also invalid ones), connections and evaluations (also failing ones): a node exists exactly from its creation to its deletion; an attribute has the value last set with its own type, or the default of its node type, and unknown attributes are reported missing and change nothing; a graph is uninitialised, then dirty after each edit and clean after a successful evaluation; the execute status is that of the last evaluation; a node's status is what its last evaluation found, uninitialised before, and a failed evaluation marks the failing node with the error status. Evaluating a deleted node or a cycle reports an error.",
  ["histories", "fault_sequences"], "all histories of edits, failing calls and evaluations", "The tests query a few freshly built graphs.",
  ["src/graph.rs", "src/graph.cpp", "src/node.rs", "src/node/*.rs", "src/attrblock.rs"], [("state, status and lookup by identity", "src/graph.rs"), ("attribute blocks", "src/node/*.rs")], ["state, execute_status", "node_exists, node_status", "node_attr_exists, get_node_attr_*"])
p("C16", "An evaluation composes its nodes' documented operations on the source images",
  "What an evaluation gives (node status, pixels, data and display window, pixel type, colour space, pixel aspect, orientation, pending colour operations and deformers) and what its write nodes store is each upstream node's documented operation (read, grade, transform, lens, merge, crop, viewer baking, write) applied in order to the results of its inputs, each correction and conversion exactly once, starting from what is in the source files: for every graph, attribute values, frame, history of edits, cache content and earlier faults.",
  ["inputs", "histories", "fault_sequences"], "all graphs, attribute values, frames, histories and cache contents", "The tests compare a few images by hash or not at all.",
  ["src/graph.rs", "src/node/*.rs", "src/ops/*.rs", "src/colorop/*.rs", "src/coloroputils.rs", "src/colorspace.cpp", "src/imageio.*", "src/stream.rs", "src/deformutils.rs", "src/deformer/*.rs"], [("compute of each node", "src/node/*.rs"), ("baking", "src/ops/*.rs")], ["node status", "stream", "written files"])
p("C17", "What a write node stored, a read node gives back in another process",
  "An image written with success to EXR, TIFF or PNG and read again by a read node, in the same or a new process, after a normal end or a crash during another evaluation, is the evaluated image: same pixels within the precision of the stored type, same size and (EXR) data and display window and pixel aspect, and a colour space that makes further operations treat it as what it is; also after several generations of writing and reading.",
  ["histories", "crash_points"], "all images, write settings, process ends and generations", "The tests write files but do not read them back.",
  ["src/imageio.cpp", "src/imageio.rs", "src/imagespec.rs", "src/node/write_image.rs", "src/node/read_image.rs", "src/colorspace.cpp"], [("reading and writing", "src/imageio.cpp")], ["streams of read nodes after a restart"])
p("C18", "Repeated work does not make the process hold more and more memory",
  "A process that repeats the same work (building graphs, edits, evaluations that succeed or fail under I/O faults, LUTs, streams, deletions, tear down; or evaluating with ever new values over a cache of bounded capacity) holds after each round as much memory as after the one before: nothing is leaked, also on failing paths.",
  ["histories", "fault_sequences"], "all rounds of work under all I/O faults, repeated without end", "No test measures memory.",
  ["src/graph.rs", "src/cache.rs", "src/imageio.cpp", "src/pixelblock.cpp", "src/colorspace.cpp", "src/deformer/*"], [("ownership across the language boundary", "src/*.cpp, src/cxxbridge.rs"), ("eviction", "src/cache.rs")], ["allocated bytes of the process"])
p("C19", "Results do not depend on chance, the clock, the heap or host settings",
  "What an operation gives (statuses, streams, answers to queries, lookup tables, written images, failing or not) is a function of the graph, the frames, the files and the environment variables that paths name. It is the same for every sequence of random numbers (node identities), any time, pace or jump of the clock, any content and layout of fresh memory, any numbers of open files, memory size, unrelated environment variables and log verbosity.",
  ["schedules", "histories", "fault_sequences"], "all random sequences, clocks, heap contents and host settings, for all histories", "The tests run once, in one world.",
  ["src/hashutils.rs", "src/graph.rs", "src/node/*.rs", "src/ops/*.rs", "src/deformutils.rs", "src/pixelblock.cpp", "src/imageio.cpp", "src/logger.rs", "src/colorspace.cpp"], [("identities", "src/hashutils.rs"), ("time measured in operations", "src/ops/*.rs, src/deformutils.rs"), ("buffers", "src/imageio.cpp, src/pixelblock/*.rs")], ["every result of every operation"])
p("C31", "Pixel type conversion, bounding box and deformer algebra obey their laws",
  "Converting pixels to a wider type and back loses nothing, bounding box union and intersection obey the lattice laws, and a deformer's inverse undoes its forward direction within the solver's tolerance.",
  ["inputs"], "all values", "The tests sample a few values.", ["src/pixelblock/*.rs", "src/bbox.rs", "src/deformer/*.rs", "src/math/*.rs", "src/geom/*.rs"], [("arithmetic", "src/bbox.rs, src/deformer/*.rs")], ["return values"], na=NAR)
