#!/usr/bin/env python3
# Writes /verif/properties.jsonl from the table below (kept readable here).
import json, os
P=[]
def p(id,title,st,over,q,why,files,mech,observe,state=None):
    d=dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=q),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=None))
    if state: d["anchors"]["state"]=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    P.append(d)

p("C01","Decoding a payload never crashes and stays within the payload",
 "Decoding a payload of any box type, in any context, from arbitrary bytes either returns an error or returns a box; it never crashes. When it succeeds, the reported number of consumed bytes is at most the declared payload size and the reader stands exactly that many bytes after where it started. No byte beyond the declared payload influences a successful result.",
 ["inputs"],"every registered box type, every interpretation context, every payload size and every payload content (including declared sizes larger than the data available)",
 "Tests decode a handful of well-formed payloads per type plus a few truncated ones; crashes and overruns need particular count, size, version and flag combinations.",
 ["marshaller.go","field.go","internal/bitio/read.go","box_types_iso14496_12.go","box_types_metadata.go","box_types_iso14496_14.go","box_types_iso23001_7.go"],
 [("size accounting of the decoder","marshaller.go"),("available-data check before bulk reads","marshaller.go"),("per-box dynamic lengths, sizes and hooks","box_types_*.go")],
 ["decode result, error, reader position"],[("consumed bits","bits accounted to the payload so far","marshaller.go")])
p("C02","Decoding and re-encoding a payload reproduces it",
 "Whenever decoding a payload succeeds, encoding the decoded box in the same context succeeds and produces exactly the bytes that were consumed. The only documented departures are normalisations (a missing string terminator is added, or a superfluous one dropped where the format has none; handler names become terminated strings without padding; descriptor lengths take the four-byte form; a version-less metadata header gains a zero version and flags), and even then decoding the new bytes gives the same box again.",
 ["inputs"],"every registered box type, context, version, flag word and payload content accepted by the decoder",
 "Tests compare one literal encoding per type and version; a field dropped, reordered or truncated only for some flag or length combination is never exercised.",
 ["marshaller.go","box_types_iso14496_12.go","box_types_metadata.go","box_types_iso14496_14.go"],
 [("one field table drives both directions","field.go"),("decoder and encoder field visitors","marshaller.go")],["encoded bytes","second decode"])
p("C03","Encoding and decoding a box preserves its field values",
 "For any box whose field values fit their encoded widths and whose declared counts match its lists, encoding and then decoding yields equal field values, and the reported length equals the number of bytes written. A box whose declared count exceeds the elements it holds is rejected with an error rather than encoded short.",
 ["inputs"],"every registered box type, version, flags and field value in range, lists of every length up to the bound",
 "Round-trip tests use one value set per box; sign bits, high bits, boundary counts and rarely used optional fields are not covered.",
 ["marshaller.go","box_types_iso14496_12.go","box_types_metadata.go","box_types_iso14496_14.go","box_types_iso23001_7.go"],
 [("field-width encoding of signed, unsigned and variable-length integers","marshaller.go"),("slice length check","marshaller.go")],["encoded bytes, returned length, decoded box"])
p("C04","Every box field sits where its specification puts it",
 "For every supported box type, version and flag combination, each field is encoded at the bit position, width, signedness and byte order laid down by the format specification, optional fields are present exactly when the version or flags say so, and repeated groups have the stated counts and strides. Decoding reads the same positions.",
 ["inputs"],"all values of all fields, all versions and flags, list lengths up to the bound",
 "Tests pin one literal byte string per version; swapping two equal-valued fields, or a wrong presence condition for an untested flag combination, passes them; a symmetric encoder/decoder mistake passes every round-trip test.",
 ["box_types_iso14496_12.go","box_types_metadata.go","box_types_iso14496_14.go","box_types_iso14496_30.go","box_types_iso23001_5.go","box_types_iso23001_7.go","box_types_opus.go","box_types_vp.go","box_types_av1.go","box_types_3gpp.go","box_types_etsi_ts_102_366.go"],
 [("struct tags describing order, width and presence","box_types_*.go"),("tag interpretation","field.go")],["encoded bytes","decoded fields"])
p("C05","Box headers survive writing and reading",
 "A box header written at any position is read back with the same type, position, header length, payload length and extends-to-end flag, whether it uses the 8-byte form, the 16-byte form or extends to the end of the file. The number of bytes written equals the reported header length, the 16-byte form is used whenever the size needs it, and reading an arbitrary header either reports an error or the values encoded in its bytes.",
 ["inputs"],"all 64-bit sizes, all types, all positions, all header byte strings including truncated ones",
 "Tests use a few sizes; the 32-bit boundary, size 0 and 1 and truncated large headers interact in ways they do not sample.",
 ["box_info.go"],[("header writer","box_info.go"),("header reader","box_info.go")],["written bytes, returned header, reader position"])
p("C06","Nested boxes written through the writer end up correctly sized",
 "After any sequence of starting boxes, writing data, copying boxes and ending boxes through the writer, the output is a sequence of properly nested boxes: each finished box's header size field equals the distance from its start to the position where it was ended, its type and content are intact, and writing continues right after it. If a finished box no longer fits the header form it was started with, ending it reports an error instead of producing a wrong size.",
 ["inputs","histories"],"every nesting history up to the bound, any box types, header forms and amounts of data (including more than 4 GiB)",
 "Tests write one fixed tree with small boxes.",
 ["write.go","box_info.go"],[("stack of open boxes","write.go"),("size back-patching","write.go")],["bytes of the output, position of the output, returned header"],
 [("open-box stack","boxes started and not yet ended","write.go")])
p("C07","Traversal reports boxes as a proper tiling of the file",
 "Walking a file hands the visitor each box exactly once in file order with its true offset, size, type and path; children lie strictly inside their parent's payload after the parent's own fields, siblings follow one another without gap or overlap, and together they cover the parent. A child claiming to extend past its parent, a size smaller than its own header, or bytes left over in a parent are reported as errors; skipping a box's children never disturbs the position of the next box.",
 ["inputs","histories"],"every file content up to the bound, every choice of which boxes the visitor expands, reads or skips",
 "Tests traverse a few hand-made well-formed files with one visiting policy each.",
 ["read.go","box_info.go"],[("remaining-size accounting per level","read.go"),("seek to the end of each visited box","read.go")],["visitor calls, returned error, payload and raw data handed out"],
 [("remaining size","bytes of the parent not yet tiled by children","read.go")])
p("C08","Traversal, extraction and probing end on every input",
 "Walking, extracting from or probing any finite input ends after work bounded by the input's length and the sample counts it declares: every step of the walk moves forward in the file, no box is visited twice, and no byte string makes the walk go backwards, loop or recurse without bound.",
 ["inputs"],"every file content up to the bound including 64-bit sizes, zero sizes and sizes smaller than the header",
 "Termination is about all inputs; tests only run well-formed files and would themselves hang.",
 ["read.go","box_info.go","extract.go","probe.go"],[("forward progress of the root and child loops","read.go"),("size validation in the header reader","box_info.go")],["number of visitor calls, positions visited"])
p("C09","Extraction returns exactly the boxes on the requested paths",
 "Extracting by paths returns, in file order and without duplicates, exactly those boxes whose path from the root (or from the given parent) matches one of the requested paths with the wildcard matching any single type; each is described as traversal describes it. Extraction with payloads additionally returns, for each such box, the payload that traversal would decode for it in its own context; an empty path is rejected and no path yields no box.",
 ["inputs"],"every file within the bound, every set of paths up to the bound including wildcards and paths that are prefixes of one another, with and without a parent box",
 "Tests use a fixed tree and a few paths; overlapping path sets and context-dependent payloads are not covered.",
 ["extract.go","read.go","mp4.go"],[("path prefix matching","read.go"),("payload decoding of extracted boxes","extract.go")],["returned box descriptions and payloads"])
p("C10","A box is interpreted by its enclosing boxes and the file's brand",
 "The context used for a box is determined only by its ancestors, the file's leading brand box and a preceding key table among its earlier siblings: everything beneath the sound-wave, item-list, item, free-form item and user-data containers (and nothing outside them) is interpreted as such, items are numbered against the key table of the same level only, and QuickTime leniency applies exactly when the brand list says so. Reading a box from inside a traversal and reading it again later from its description use the same context.",
 ["inputs","histories"],"every arrangement of container boxes within the bound, brand lists and key tables with arbitrary content",
 "Tests cover one sample arrangement; leakage of context to siblings or to the wrong depth needs unusual nestings.",
 ["read.go","box_info.go","box_types_metadata.go","mp4.go"],[("context propagation","read.go"),("context predicates of the registry","box_types_metadata.go")],["context reported for each visited box; decoded type"])
p("C11","An I/O failure is always reported",
 "If any read, write or seek performed on behalf of the caller fails, the operation in progress returns an error; it never reports success on data that was not fully read or written. When an operation reports success with a count, exactly that many bytes were transferred.",
 ["fault_sequences","inputs"],"every single fault position in every operation (decode, encode, header read and write, nested writing, copying, traversal, extraction, probing), every fault kind (error, error with partial data, short data)",
 "Tests inject almost no faults; an ignored error return is invisible as long as I/O works.",
 ["marshaller.go","box_info.go","read.go","write.go","extract.go","probe.go","internal/bitio/read.go","internal/bitio/write.go","internal/util/io.go"],
 [("error returns of every I/O call","marshaller.go, box_info.go, read.go, write.go")],["returned error and count versus the recorded I/O calls"])
p("C12","Results do not depend on how the reader delivers its data",
 "Any reader that follows the standard reading contract (short reads, data returned together with end-of-file, end-of-file reported only afterwards) leads to the same result as one that delivers everything at once, for decoding, header reading, traversal, extraction and probing.",
 ["inputs","schedules"],"every split of the data into read results permitted by the reading contract within the bound",
 "Tests always use an in-memory reader, which delivers whole requests and never data together with end-of-file.",
 ["marshaller.go","internal/bitio/read.go","internal/util/io.go","box_info.go","read.go"],[("full-read loops","marshaller.go, box_info.go, internal/bitio/read.go")],["result and error compared to the whole-data reader"])
p("C13","Bit-level reading and writing are exact inverses, most significant first",
 "Writing any sequence of bit groups and reading groups of the same widths gives back the same values, independent of how the groups straddle byte boundaries; bits are packed most significant first and the byte stream is the concatenation of the groups. Byte-wise access or relative seeking while in the middle of a byte is rejected, and absolute seeking discards the partial byte.",
 ["inputs","histories"],"every sequence of operations up to the bound, all widths, all contents",
 "Tests run one scripted sequence.",
 ["internal/bitio/read.go","internal/bitio/write.go"],[("partial byte and its width","internal/bitio/read.go, internal/bitio/write.go")],["bits returned, bytes written, errors"],
 [("partial byte","bits of the current byte not yet consumed or emitted","internal/bitio/read.go")])
p("C14","Probing reports what the file's boxes say",
 "For every file it accepts, probing reports brands, time scales, durations, track identity, codec, encryption, edit list, chunk offsets, samples per chunk, sample sizes, sample time deltas and composition offsets exactly as the corresponding boxes encode them, expanding run-length tables in order, and for movie fragments (of one track fragment with one run) the identity, decode time, duration, size, count and smallest composition offset that the track fragment boxes define. A missing mandatory box is an error.",
 ["inputs"],"all values in the tables, all table lengths and run lengths within the bound, all version and flag combinations",
 "Tests probe a few sample files; runs crossing chunk boundaries, negative offsets, version-1 tables and absent defaults are not sampled.",
 ["probe.go"],[("sample table expansion","probe.go"),("fragment summary","probe.go")],["probe result"])
p("C15","Bitrate and key-frame helpers are total and exact",
 "The bitrate helpers return size-over-duration in bits per second (maximum over the stated windows) and never crash, whatever the sample list. Key-frame search reports exactly the samples containing an instantaneous-refresh unit according to the length-prefixed units in the sample data, ends on every input, and never crashes.",
 ["inputs"],"all sample lists within the bound with arbitrary 32-bit sizes and durations, arbitrary media bytes and unit-length widths",
 "Zero durations, wrapping lengths and truncated units do not occur in the sample files.",
 ["probe.go"],[("window scan","probe.go"),("unit walk","probe.go")],["returned numbers and indexes"])
p("C16","Audio profile detection follows the decoder configuration",
 "Audio profile detection reads the first decoder configuration and the first decoder-specific information, reports the object type indication and the (possibly escaped) audio object type coded in the first bits, upgrades to the extension types only when the matching synchronisation pattern and presence bit follow, and returns an error instead of crashing when the information is missing or cut short.",
 ["inputs"],"all descriptor lists and configuration bytes within the bound",
 "Tests use six literal configurations.",
 ["probe.go","internal/bitio/read.go"],[("configuration bit walk","probe.go")],["returned object types and error"])
p("C17","Flags, versions and fixed-point accessors agree with the stored fields",
 "The version and flag operations of versioned boxes behave as operations on an 8-bit version and a 24-bit flag set; every accessor that selects among version-dependent fields returns the one the version calls for, sign-extended where signed; fixed-point accessors split integer and fraction exactly; and brand-set operations behave as set membership, insertion and removal.",
 ["inputs"],"all versions, flags, field values, indexes and brand lists within the bound",
 "Tests use a couple of literals per accessor.",
 ["box.go","box_types_iso14496_12.go"],[("version switches in accessors","box_types_iso14496_12.go"),("flag arithmetic","box.go")],["returned values and fields afterwards"])
p("C18","Type registration, lookup, creation and version queries agree",
 "For every four-byte type and every context, a type is reported as supported exactly when a box can be created for it, the created box reports that type, its supported versions are those registered, and decoding accepts exactly those versions; of several registrations for a type the latest one applicable to the context is used. Type codes convert to and from text and integers without loss, unprintable ones printing as hexadecimal.",
 ["inputs","configurations"],"all 2^32 types, all contexts, all versions, any registration order within the bound",
 "Tests check a few types and contexts.",
 ["mp4.go","box.go","anytype.go","box_types_metadata.go","box_types_3gpp.go"],[("registry lookup with context predicates","mp4.go"),("numbered items","mp4.go")],["lookup, creation and version results; decoding error for foreign versions"])
p("C19","Printing a box is total and shows its fields",
 "Any box obtained by decoding can be printed in the same context without a crash or error; the text is a single line when no indentation is asked for, contains no control characters from the data, lists exactly the visible fields that are present for the version and flags in order, and shows each value in the library's documented format, so that different integers print differently.",
 ["inputs"],"every registered box type, any decodable content within the bound",
 "Tests print one literal box per type.",
 ["string.go","box_types_iso14496_12.go","internal/util/string.go","box_types_metadata.go"],[("field visitor for printing","string.go"),("per-box overrides","box_types_*.go"),("escaping","internal/util/string.go")],["printed text"])
p("C20","Encoding and printing leave their arguments and shared state untouched",
 "Encoding or printing a box does not modify the box or any state shared between calls, and decoding modifies nothing but its destination and its reader; therefore calls on separate boxes and readers can run concurrently and repeated calls give identical results, and a decoded box shares no storage with the input or with other boxes.",
 ["inputs","schedules"],"every registered box type and content within the bound, repeated and interleaved calls",
 "Race detection on tests only sees the pairs of calls a test happens to run; the property is about writes to shared memory on any path.",
 ["marshaller.go","field.go","string.go","mp4.go","box_types_iso14496_12.go"],[("per-call field instances copied from the shared field table","field.go"),("registry read-only after start-up","mp4.go")],["memory written during the call"])
p("C21","The edit command changes only what it was asked to change",
 "Editing a file without options reproduces it byte for byte (apart from normalised encodings); dropping box types removes exactly those boxes and fixes every enclosing size; setting the base decode time changes exactly that field in each of its boxes, and a value too large for the field is an error. A failure to read or write is reported.",
 ["inputs"],"every input file within the bound, every set of dropped types, every new value",
 "The command has no tests.",
 ["cmd/mp4tool/internal/edit/edit.go","write.go","read.go"],[("re-encoding visitor","cmd/mp4tool/internal/edit/edit.go")],["output file bytes, exit status"])
p("C22","The extract and dump commands show the file's boxes",
 "The extract command outputs exactly the bytes of every box of the requested type that lies on a path of recognised boxes, in file order; the dump command prints one line per visited box with its true type, offset (on request) and size at its nesting depth, followed by its fields or a note that they were left out, as its options say. Malformed input yields an error status, never a crash.",
 ["inputs"],"every input file within the bound, every requested type",
 "Tests run two sample files.",
 ["cmd/mp4tool/internal/extract/extract.go","cmd/mp4tool/internal/dump/dump.go","cmd/mp4tool/internal/util/util.go"],[("visitors of the commands","cmd/mp4tool/internal/extract/extract.go, cmd/mp4tool/internal/dump/dump.go")],["standard output and exit status"])
p("C23","Decoding needs memory in proportion to the payload",
 "Decoding allocates memory bounded by a fixed multiple of the bytes actually available in the payload, however large the counts and sizes written in it; a count that the payload cannot hold leads to an error before memory for it is allocated.",
 ["inputs"],"every registered box type, every declared count and size",
 "A hostile count needs a particular field combination, and tests do not measure allocation.",
 ["marshaller.go","box_types_iso14496_12.go"],[("available-data check before bulk reads","marshaller.go"),("element-wise growth","marshaller.go")],["allocated slice sizes versus payload size"])
p("C24","User-defined boxes follow their field tags",
 "For a box type defined and registered by the user, encoding, decoding and printing honour the field tags as documented: order, bit width, list length, optionality by flags or callback, version inclusion and exclusion, strings, variable-length integers, hidden and constant fields, nested structures, and the callbacks that take over a field. Fields whose condition is not met occupy no bits and keep their zero value.",
 ["inputs","configurations"],"a family of user-defined types covering every tag, all versions and flags, all values",
 "Tests define one or two custom types with fixed values.",
 ["field.go","marshaller.go","string.go","box.go"],[("tag parser and field conditions","field.go"),("field callbacks","box.go, marshaller.go")],["encoded bytes, decoded values, printed text"])
p("C25","The protection-header dump shows each header faithfully",
 "The protection-system dump command finds every such box in the movie and fragment headers and prints its version, flags, system identifier, data size and the exact bytes of the box in base64; malformed input yields an error status, never a crash.",
 ["inputs"],"every input file within the bound",
 "Tests run one sample file.",
 ["cmd/mp4tool/internal/psshdump/psshdump.go"],[("extraction of the boxes","cmd/mp4tool/internal/psshdump/psshdump.go")],["standard output and exit status"])
p("C26","Dividing a fragmented file keeps every fragment",
 "Dividing a fragmented file with at most one track of each kind (video or audio, clear or encrypted) writes to each of these tracks' folders its initialisation data (brand, movie header with only that track, segment indexes) and every one of its fragments in a file of its own, in order and with intact bytes; box sizes in the initialisation data are right; each media playlist lists exactly the fragments written with the durations their samples state, and the master playlist names the tracks' playlists with the video's dimensions and peak bit rate. Malformed input yields an error status, never a crash.",
 ["inputs"],"every fragmented input within the bound",
 "The command has no tests.",
 ["cmd/mp4tool/internal/divide/divide.go","write.go","box_info.go"],[("initialisation data and header rewriting","cmd/mp4tool/internal/divide/divide.go"),("fragment dispatch and durations","cmd/mp4tool/internal/divide/divide.go"),("playlists","cmd/mp4tool/internal/divide/divide.go")],["files written and exit status"])
p("C27","The probe command's report says what the file says",
 "The probe command's report gives the brands in order, whether the movie header precedes the media, the movie's time scale and duration, and for each track in order its identifier, time scale, duration (also in seconds, 0 if there is no time scale), codec string with the profile bytes in hexadecimal, encryption, video dimensions, numbers of samples, chunks and key frames, and average and peak bit rate, taken from the samples or, if these give none, from the track's fragments. One track's values never depend on another's. Unreadable input yields an error status, never a crash.",
 ["inputs"],"every file within the bound",
 "Tests run one sample file whose values are all ordinary.",
 ["cmd/mp4tool/internal/probe/probe.go","probe.go","cmd/mp4tool/internal/util/reader.go"],[("report assembly","cmd/mp4tool/internal/probe/probe.go"),("bit rates and key frames","probe.go")],["report handed to the encoders, exit status"])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for d in P: f.write(json.dumps(d)+"\n")
