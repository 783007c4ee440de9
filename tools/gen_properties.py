"""Writes /verif/properties.jsonl (kept as a script so that the long texts stay readable)."""
import json, os
OUT = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
P = []


def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, title
    P.append(dict(
        id=id, title=title, statement=" ".join(statement.split()),
        quantifier=dict(over=over, text=" ".join(text.split())),
        why_tests_cant=" ".join(why.split()),
        anchors=dict(
            files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=list(observe), hook_needed=None),
    ))


B = "src/eventio/base.py"
H = "src/eventio/header.pyx"
V = "src/eventio/var_int.pyx"
SF = "src/eventio/simtel/simtelfile.py"
SO = "src/eventio/simtel/objects.py"
I = "src/eventio/iact/__init__.py"
IO = "src/eventio/iact/objects.py"

p("C01", "Iteration yields exactly the stored objects, in order, at every level",
  """Iterating a file, or an object that contains only sub-objects, yields every object stored at that level exactly
  once, in file order, with its true type, id, version, address and size, and then stops (and stays stopped).
  This holds however iteration of the file, of several objects of it, nested iteration and payload reads are
  interleaved; objects without only-sub-objects flag refuse iteration.""",
  ["inputs", "histories"],
  "every well-formed file (any nesting, sizes incl. zero, known/unknown types) and every interleaving of next() on the file and on any obtained object, read, seek and parse",
  "tests iterate a handful of resource files front to back; they never interleave iterators of several objects or revisit an object after moving on",
  [B], [("EventIOFile.__next__/_read_next_object", B), ("EventIOObject.__next__", B), ("read_header", B)],
  [("next header position", "file offset of the next sibling header, per file and per object", B)],
  ["EventIOFile iteration", "EventIOObject iteration", "object.header"])

p("C02", "Object headers are decoded bit-exactly, including extended (64-bit) sizes",
  """For every header bit pattern the reported type, version, id (signed), user flag, only-sub-objects flag, extended
  flag and content size equal the values encoded by the eventio format, where the size is the 30 bit length plus, if
  the extension flag is set, the 12 bit extension times 2^30. The next sibling starts exactly at
  content address + content size, also beyond 4 GiB, with and without sync marker and extension word.""",
  ["inputs"], "all values of every header field, top-level and nested, extended and not, sizes up to 2^42-1",
  "tests parse a few fixed headers, none with an extension field nor with a size above 2^30",
  [H, B], [("parse_header_bytes/get_bits_from_word", H), ("parse_extension_field", B), ("read_header", B)],
  observe=["object.header", "address of next object"])

p("C03", "Payload reads are confined to the object and positioned per object",
  """read() on an object returns exactly the bytes of that object's payload from its own current position, never bytes
  before its start or behind its end, and advances that position by the number of bytes returned; seek()/tell() act on
  the same position relative to the payload. The position of an object is unaffected by any operation on the file or
  on other objects.""",
  ["histories", "inputs"], "every sequence of read/seek/tell (all whence values, positions before, at and behind the end) on several objects of one file interleaved with iteration",
  "tests read whole payloads of single objects; interleavings of operations on several live objects sharing a file handle are not exercised",
  [B], [("EventIOObject.read/seek/tell", B)],
  [("object position", "offset into the payload", B)], ["EventIOObject.read/seek/tell"])

p("C04", "peek() shows the next object without consuming it",
  """peek() on a file returns the very object the following next() will return, any number of times, and None at the
  end of the file; it never changes which objects iteration yields. A truncation or I/O failure while peeking is reported as a warning
  and None, and the next next() raises the underlying error.""",
  ["histories", "inputs"], "every interleaving of peek and next (and object reads) over complete and truncated files, in every storage form",
  "there is one test which peeks a few objects of one file; histories mixing peek, next, object access and truncation are not covered",
  [B], [("EventIOFile.peek/__next__", B)], [("lookahead object/error", "result of an unconsumed peek", B)],
  ["EventIOFile.peek", "EventIOFile.__next__"])

p("C05", "Plain, gzip and zstd storage give the same objects and bytes",
  """The same eventio stream stored uncompressed, gzip compressed (read with the external gzip process or the python
  module, one or several members) or zstd compressed (one or several frames) yields identical objects, headers,
  payload bytes and parsed contents. On streams which can only be read forward an operation which would have to go
  back either delivers the correct data or raises an I/O error, it never delivers other data; this includes read, seek and tell on the
  file itself, which address the decompressed stream. The name of the file, the way it is given (relative, absolute, Path object) and whether the
  gzip program is installed do not matter.""",
  ["configurations", "inputs", "histories"], "every stream, split into any number of compressed members/frames at any byte, and every access history",
  "tests open one file per compression type, always single frame; equivalence between forms under arbitrary access orders is never compared",
  [B, "src/eventio/file_types.py"], [("PipeWrapper", B), ("EventIOFile.__init__", B), ("is_gzip/is_zstd/is_eventio", "src/eventio/file_types.py")],
  observe=["EventIOFile(path, zcat=...)"])

p("C06", "A file truncated at any byte never yields phantom or short data",
  """For a file cut at any byte offset, iteration yields a prefix of the objects of the complete file with identical headers and
  every payload read or parse either returns what it returns for the complete file or raises EOFError (a damaged compressed stream may also raise
  another I/O error). A cut inside a header raises EOFError, a cut between top-level objects ends iteration normally.""",
  ["crash_points", "inputs"], "every cut position of every file, for top-level and nested iteration, reads and parse of every object type",
  "tests truncate one file at two positions",
  [B], [("check_size_or_raise", B), ("read_header", B), ("EventIOObject.read", B)],
  observe=["EventIOFile iteration", "EventIOObject.read/parse"])

p("C07", "Input that is not little-endian eventio, or malformed, is refused",
  """Opening anything that does not start with an eventio sync marker (plain or after gzip/zstd decompression) raises
  ValueError (a broken compressed container another error); big-endian data raises NotImplementedError at the latest when its first
  object is accessed (in the constructor of the high-level readers) and a wrong sync marker between top-level objects raises
  ValueError, before any object with wrong content is delivered.
  Where the high-level readers require an object of a specific type, an object of any other type raises an error
  instead of being misinterpreted.""",
  ["inputs"], "every leading byte sequence and every corrupted sync marker at any top-level object, in all storage forms; every replacement of a required object by one of a different type",
  "tests cover one foreign file and one bad marker",
  [B, "src/eventio/file_types.py", "src/eventio/exceptions.py", SF, I], [("is_eventio", "src/eventio/file_types.py"), ("check_sync_bytes", B), ("check_type", "src/eventio/exceptions.py")],
  observe=["EventIOFile/IACTFile/SimTelFile constructors", "iteration"])

p("C08", "Files release descriptors and child processes on every path",
  """After close(), leaving a with block (normally or with any kind of exception), garbage collection, or a constructor that raises, no file descriptor and no
  decompression child process of the file is left, at whatever point of reading it happens and however often close()
  is called. Closing one file does not affect other open files.""",
  ["histories", "fault_sequences"], "every history of open/read/iterate/close/delete over several files in all storage forms, including failing constructors and exceptions inside with blocks",
  "one test checks that no gzip process is left after a normal close",
  [B, SF], [("EventIOFile._cleanup/weakref.finalize/close", B), ("SimTelFile.close", SF)], observe=["/proc/self/fd", "child processes"])

p("C09", "SimTelFile delivers every event once, in order, with its own data",
  """Iterating a SimTelFile (nothing filtered) yields one event per simulated or calibration event in file order, each
  exactly once, including the last one, under the event id of its trigger block (its array event if that is 0). Each event carries exactly the shower, MC event, particles, photo-electrons,
  photons, telescope events, tracking positions, trigger and stereo data stored for it between its own markers - also
  with re-used showers, events without array trigger, missing optional blocks and calibration events - and never data
  of another event. Top-level objects it does not know are reported by an UnknownObjectWarning and change nothing.""",
  ["inputs", "histories"], "every top-level object sequence allowed by the documented file structure",
  "the resource files contain only the combinations produced by a few simulation setups; most optional-block combinations never occur in them",
  [SF], [("SimTelFile._parse_next_object/_read_next_event", SF), ("parse_array_event/parse_telescope_event/parse_telescope_data", SF)],
  [("current_event/current_mc_shower", "event under construction and shower it belongs to", SF)], ["SimTelFile iteration"])

p("C10", "Run metadata and monitoring attached to events are the valid ones",
  """After construction a SimTelFile exposes the history, meta parameters, run headers, input cards, atmospheric profiles and
  per-telescope descriptions stored in the file under the right telescope. Every delivered event carries for each of its
  telescopes the camera/pixel monitoring and laser calibration values accumulated from the blocks of that telescope that precede the
  event in the file, and later blocks never change an already delivered event.""",
  ["inputs", "histories"], "every interleaving of monitoring blocks (full or partial updates, several telescopes) with events and every order of header blocks",
  "resource files contain a single monitoring block per telescope, so update, isolation and ordering are never exercised",
  [SF], [("SimTelFile._parse_next_object/_add_monitoring", SF)], [("camera_monitorings etc.", "latest values per telescope", SF)], ["SimTelFile attributes", "event['camera_monitorings']"])

p("C11", "Event and telescope filters select, and never alter, what they keep",
  """With skip_calibration, skip_non_triggered and allowed_telescopes a SimTelFile yields exactly the events the
  unfiltered iteration yields minus those the option excludes: calibration events, data events without
  (allowed) telescope events, and of the kept events the telescope events, tracking positions and monitoring values of telescopes not in
  the list (MC truth is not filtered). Everything kept is identical to the unfiltered result and in the same order.""",
  ["configurations", "inputs"], "every combination of the options and telescope sets over every event sequence",
  "tests use a few fixed option values on single files",
  [SF], [("SimTelFile._check_skip", SF), ("parse_array_event(allowed_telescopes)", SF)], observe=["SimTelFile(..., allowed_telescopes, skip_*)"])

p("C12", "A truncated SimTelFile still yields all complete events, then stops",
  """For a sim_telarray file cut at any byte, opening it raises EOFError if the run header part is incomplete; otherwise
  iteration yields exactly the events complete before the cut, unchanged, then at most one partial event consisting
  only of blocks complete before the cut, and then ends without exception, with a warning if the cut is inside an object it reads (a complete file gives no such warning). For a torn
  compressed file the end may instead be an I/O error.""",
  ["crash_points"], "every cut position over every event sequence, in every storage form",
  "one truncated resource file",
  [SF, B], [("SimTelFile._read_next_event", SF)], observe=["SimTelFile iteration"])

p("C13", "IACTFile assembles every event and re-use with its own data",
  """Iterating an IACTFile yields, in file order, one event per shower re-use with the shower's header, end block, time
  offset, longitudinal data and particles, and with the impact point (negated array offset), weight, and per-telescope
  photon bunches, emitter data and counts of exactly that re-use - in normal and split mode, with or without optional blocks.""",
  ["inputs"], "every number of showers, re-uses, telescopes, presence of optional blocks, normal/split mode and block versions",
  "three small files, each with one combination",
  [I], [("IACTFile.__iter__", I)], observe=["IACTFile iteration"])

p("C14", "IACTFile iteration restarts cleanly and reports truncation",
  """Every new iteration over an IACTFile starts at the first event and yields the same events, whatever was read, peeked or partially
  iterated before (on storage that can only be read forward it may raise an I/O error instead). A file cut at any byte yields only events whose data is complete, identical to those of the complete file, and then EOFError;
  the run end block becomes available only when iteration reached it.""",
  ["histories", "crash_points"], "every history of partial iterations, peeks and low-level reads, and every cut position",
  "tests iterate once over complete files",
  [I, B], [("IACTFile.__iter__", I)], observe=["IACTFile iteration", "IACTFile.run_end"])

p("C15", "Variable-length and primitive integer/string readers are exact",
  """For every encodable value the variable length decoders (scalar, array, and file based, signed and unsigned)
  return that value and consume exactly its encoding, at any offset and in any sequence; incomplete encodings raise an
  error. The primitive readers (short, int, float, double, string, var-string, arrays, time) return the stored
  little-endian value and leave the stream directly behind it.""",
  ["inputs"], "all values 0..2^64-1 / -2^63..2^63-1, all encodings lengths and array lengths, offsets and truncations",
  "tests check some ten values",
  [V, "src/eventio/tools.py"], [("varint/unsigned_varint/*_array", V), ("read_varint etc.", "src/eventio/tools.py")], observe=["eventio.var_int functions", "eventio.tools functions"])

p("C16", "ADC sums and samples are decoded exactly in every storage mode",
  """For ADC sums (all pixels, zero suppressed bit mask, zero suppressed list incl. reduced width and missing low gain)
  and ADC samples (all pixels or zero suppressed pixel ranges) each (gain, pixel[, sample]) of the result
  equals the stored value, and is 0 for suppressed pixels; telescope ids are taken from the object id. Unsupported modes are refused.""",
  ["inputs"], "every number of gains, pixels, samples, pixel subsets/ranges, storage mode and differential value sequence",
  "only the modes occurring in the resource files, of which most are not available to the test suite",
  [SO, V], [("ADCSums.parse/ADCSamples.parse", SO), ("unsigned_varint_arrays_differential", V)], observe=["ADCSums.parse()", "ADCSamples.parse()"])

p("C17", "sim_telarray run, camera and monitoring blocks decode to their stored content",
  """For every supported version and every combination of dimensions and flags, parsing a run header, MC run header, camera settings/organization,
  pixel settings, disabled pixels, software/drive/pointing settings, camera monitoring, laser calibration, pixel
  monitoring block returns under each documented key the value, shape and order stored in the payload.""",
  ["inputs"], "all supported versions x dimensions (incl. 0) x flag combinations x values",
  "tests check a few values of the blocks in the resource files, a small subset of versions and flag combinations",
  [SO, "src/eventio/simtel/pixelset.py", "src/eventio/simtel/runheader_dtypes.py", "src/eventio/simtel/parsing.pyx"],
  [("parse methods", SO)], observe=["parse() of types 2000-2008, 2022, 2023, 2033"])

p("C18", "sim_telarray event-level blocks decode to their stored content",
  """For every supported version and flag combination, parsing trigger information, telescope event header, tracking
  position, image parameters, stereo reconstruction, pixel timing, pixel lists, pixel trigger times, auxiliary traces,
  MC shower, MC event, photo-electron sums returns under each documented key the stored value, shape and order; shifted
  trigger type bits of affected versions are repaired.""",
  ["inputs"], "all supported versions x dimensions x flag combinations x values",
  "tests check a few values of the blocks occurring in the resource files",
  [SO, V, "src/eventio/simtel/parsing.pyx"], [("parse methods", SO), ("simtel_pixel_timing_parse_list_type_*", V), ("parse_mc_event", "src/eventio/simtel/parsing.pyx")],
  observe=["parse() of types 2009, 2011, 2014-2016, 2020, 2021, 2026, 2027, 2029, 2030, 2032, 2100+, 2200+"])

p("C19", "CORSIKA/IACT blocks decode to their stored content",
  """Parsing run header, event header, event end, run end, telescope definition, array offsets (with and without weights),
  longitudinal data, input card and atmospheric profile returns the stored values under the right keys, shapes and order;
  blocks of the wrong length are refused.""",
  ["inputs"], "all versions, numbers of telescopes, re-uses, strings, table sizes and values",
  "tests check a few values of three small files",
  [IO], [("parse methods", IO)], observe=["parse() of types 1200-1203, 1209-1212, 1216"])

p("C20", "Photon bunches and photo-electrons decode exactly, in every packing",
  """Photon bunches decode to the stored rows - compact ones scaled to physical units with clipped cosines - with emitter rows separated
  and particle blocks returned as particles; reading in chunks of any size concatenates to the same rows.
  Photo-electron blocks yield the stored per-pixel counts and per-pe pixel, time and amplitude, in every version and flag combination.""",
  ["inputs"], "all numbers of bunches (0..n), chunk sizes, compact/long format, emitter patterns, pe versions/flags and pixel subsets",
  "tests compare counts for files without emitter information and one chunk size",
  [IO, V], [("Photons.parse/parse_chunked/parse_emitter/parse_compact", IO), ("parse_1208", V)], observe=["Photons.parse", "PhotoElectrons.parse"])

p("C21", "History, meta parameters and histograms decode to their stored content",
  """Parsing command line/config history, meta parameters and histogram blocks returns every entry with its time stamp, text, key/value,
  bin numbers, ranges, counters and contents exactly as stored, for integer and float histograms, one and two dimensional,
  empty and filled, any number of entries.""",
  ["inputs"], "all numbers of entries, string lengths (incl. 0), histogram types and dimensions",
  "one history file and the histograms of one file type",
  [SO, "src/eventio/histograms.py"], [("HistoryMeta.parse etc.", SO), ("Histograms.parse", "src/eventio/histograms.py")], observe=["parse() of types 71, 72, 75, 100"])

p("C22", "Unsupported object versions are refused, never misread",
  """For every object type whose decoding depends on the version, parsing an object of a version outside the supported
  set raises NotImplementedError naming the problem, and every version inside it is accepted.""",
  ["inputs"], "all object types x all versions 0..4095",
  "tests exercise at most one unsupported version",
  ["src/eventio/version_handling.py", SO, IO, "src/eventio/histograms.py", "src/eventio/simtel/parsing.pyx"], [("assert_exact_version/assert_version_in/assert_max_version", "src/eventio/version_handling.py")], observe=["parse()"])

p("C23", "Parsing is repeatable and free of side effects on other objects",
  """parse() of an object returns equal content every time, whatever was read from, sought in or parsed from this or other
  objects of the file before - for photons parsed in chunks also between two chunks -, results already returned are
  not changed by later operations, and changing a result changes no other result. Parsing does not change which objects iteration of the file yields.""",
  ["histories"], "every object type and every history of parse/read/seek/next over several objects",
  "tests parse each object once, immediately after obtaining it",
  [B, SO, IO], [("seek(0) at the start of parse", SO), ("per-object position", B)], observe=["parse()"])

p("C24", "Search helpers return all and only the matching objects, in file order",
  """The search utilities (first of a type, all top-level of a type, all or the first n sub-objects of a type anywhere,
  along a given structure, depth-first with level) return exactly the matching objects of the file in file order, with
  correct levels, not more than requested; truncated input ends the tolerant ones with a warning after everything complete.""",
  ["inputs"], "every object tree, type/tuple of types, structure, n, and cut position",
  "each helper is used in a few tests on one file",
  ["src/eventio/search_utils.py"], [("find_type, yield_*, find_all_subobjects", "src/eventio/search_utils.py")], observe=["eventio.search_utils"])

p("C25", "Cutting a file keeps exactly the leading objects that fit, byte for byte",
  """For complete input the cut tool writes the longest prefix of complete top-level objects whose total size is at most the requested
  size, byte-identical to the (uncompressed) input, compressed if asked for; the size argument accepts exactly a number with optional
  k, M, G suffix meaning powers of 1024.""",
  ["inputs", "configurations"], "every object sequence, input storage form, output form and limit (in particular limits at, one below and one above every object boundary)",
  "the tool has no tests",
  ["src/eventio/scripts/cut_eventio_file.py"], [("main/parse_size", "src/eventio/scripts/cut_eventio_file.py")], observe=["output file"])

p("C26", "Inspection tools report exactly what is in the file",
  """The structure listing shows every object at its nesting level in file order, abbreviating only runs of more than
  the given number of equal objects and stating the correct number omitted; the object statistics count every object by
  type, version and level; the history tool prints all entries of the leading history blocks and the meta parameter tool those preceding the
  data, under the right telescope, also if the data is truncated. Listing and statistics report truncated files up to the cut.""",
  ["inputs"], "every object tree, repeat limit, meta/history content and cut position",
  "the tools are only tested to run without error",
  ["src/eventio/scripts/print_structure.py", "src/eventio/scripts/print_object_information.py", "src/eventio/scripts/print_simtel_metaparams.py", "src/eventio/scripts/print_simtel_history.py"],
  [("print_structure/count_versions/read_meta/print_history", "src/eventio/scripts")], observe=["standard output"])

p("C27", "Telescope ids are recovered exactly from type numbers and object ids",
  """For every telescope id the type numbers of telescope events and tracking positions map to that id and back without collisions, objects with
  these types are recognised, and every object that packs a telescope id (and other fields) in its object id reports
  the packed values; a tracking position whose type and id disagree is refused.""",
  ["inputs"], "all telescope ids 0..999 (type numbers) and all 16 bit ids for packed object ids, all flag bits",
  "tests use ids below 100 for which the mapping is trivial",
  [SO, "src/eventio/simtel/__init__.py", IO], [("type_to_telid/telid_to_type/id_to_telid", SO), ("KNOWN_OBJECTS registration", "src/eventio/simtel/__init__.py")], observe=["object.telescope_id", "dispatch to object class"])

p("C28", "The histogram tool draws every histogram with its own contents and range",
  """The histogram tool makes exactly one picture per histogram of the file, numbered in file order over all histogram blocks, with the
  histogram's title, bin edges and bin contents; the visible range is exactly that from the first to the last non-empty bin on each axis
  (everything for a histogram without entries), so nothing filled is hidden.""",
  ["inputs"], "every sequence of histogram blocks and other objects, types, one and two dimensions, numbers of bins and contents (incl. none)",
  "the tool has no tests; empty, one-bin and mixed-type histograms never occur in the example files",
  ["src/eventio/scripts/plot_hists.py", "src/eventio/histograms.py"], [("main", "src/eventio/scripts/plot_hists.py")], observe=["figures saved or shown"])

with open(OUT, "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
