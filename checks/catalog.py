"""The properties, and for each the rules and analysis units that decide it.

properties.jsonl and MANIFEST.json are generated from this file by gen.py.
A unit is one class (or group of functions) of the library, analysed by
engine/sa from its entry points in engine/harness_tu.cpp.
"""
MEMORY = ["string", "wstring"]
FILES = ["file", "filep", "mmap", "skipfile", "skipfile2", "skipfile2p"]
RANGE = ["sub"]
FILTER = ["dataevent", "term"]
BUFFERED = ["buffered", "bufferedw"]
FILL = ["fb_gzip", "fb_zlib", "fb_deflate", "fb_gzipc", "fb_bz2", "fb_lzma", "fb_base64", "fb_encoding", "fb_reader", "fb_process"]
CODEC = ["fb_gzip", "fb_zlib", "fb_deflate", "fb_bz2", "fb_lzma"]
WHOLE = MEMORY + FILES + RANGE + FILTER + BUFFERED
STREAMS = WHOLE + FILL
WITH_SOURCE = RANGE + FILTER + FILL
PROVIDERS = ["tar", "ar", "cpio", "sdf", "zip", "rpm"]
ARCHIVES = PROVIDERS + ["ole"]  # the entries of an OLE file have no extent in it (P08)
PROBES = ["chk_ar", "chk_bz2", "chk_cpio", "chk_gzip", "chk_lzma", "chk_mail", "chk_ole", "chk_rpm", "chk_tar", "chk_zip"]

SRC = {
    "string": "include/strigi/stringstream.h", "wstring": "include/strigi/stringstream.h",
    "file": "lib/fileinputstream.cpp", "filep": "lib/fileinputstream.cpp", "mmap": "lib/mmapfileinputstream.cpp",
    "skipfile": "lib/skippingfileinputstream.cpp", "skipfile2": "lib/skippingfileinputstream2.cpp",
    "skipfile2p": "lib/skippingfileinputstream2.cpp", "sub": "lib/subinputstream.cpp",
    "term": "lib/stringterminatedsubstream.cpp", "dataevent": "lib/dataeventinputstream.cpp",
    "encoding": "lib/encodinginputstream.cpp", "reader": "lib/inputstreamreader.cpp",
    "process": "lib/processinputstream.cpp", "base64": "lib/base64inputstream.cpp",
    "gzip": "lib/gzipinputstream.cpp", "zlib": "lib/gzipinputstream.cpp", "deflate": "lib/gzipinputstream.cpp",
    "gzipc": "lib/gzipcompressstream.cpp", "bz2": "lib/bz2inputstream.cpp", "lzma": "lib/lzmainputstream.cpp",
    "tar": "lib/tarinputstream.cpp", "ar": "lib/arinputstream.cpp", "cpio": "lib/cpioinputstream.cpp",
    "zip": "lib/zipinputstream.cpp", "ole": "lib/oleinputstream.cpp", "rpm": "lib/rpminputstream.cpp",
    "mail": "lib/mailinputstream.cpp", "sdf": "lib/sdfinputstream.cpp", "text": "lib/textutils.cpp",
    "lib_shared": "include/strigi/streambase.h", "lib_recursion": "include/strigi/substreamprovider.h", "lib_process": "include/strigi/archivereader.h",
    "endian": "include/strigi/textutils.h", "buffered": "include/strigi/bufferedstream.h", "bufferedw": "include/strigi/bufferedstream.h",
}
NAME = {
    "string": "StringStream", "buffered": "every stream derived from BufferedStream, given that its fillBuffer keeps the contract of the base class",
    "zlib": "GZipInputStream (zlib format)", "deflate": "GZipInputStream (raw deflate)", "file": "FileInputStream", "mmap": "MMapFileInputStream", "skipfile": "SkippingFileInputStream",
    "skipfile2": "SkippingFileInputStream2", "sub": "SubInputStream", "term": "StringTerminatedSubStream",
    "dataevent": "DataEventInputStream", "encoding": "EncodingInputStream", "reader": "InputStreamReader",
    "process": "ProcessInputStream", "base64": "Base64InputStream", "gzip": "GZipInputStream", "gzipc": "GZipCompressInputStream",
    "bz2": "BZ2InputStream", "lzma": "LZMAInputStream", "tar": "TarInputStream", "ar": "ArInputStream", "cpio": "CpioInputStream",
    "zip": "ZipInputStream", "ole": "OleInputStream", "rpm": "RpmInputStream", "mail": "MailInputStream", "sdf": "SdfInputStream",
    "text": "the UTF-8 helpers of textutils.h", "endian": "the byte order helpers of textutils.h"}
def key(u):
    u = u.rstrip("~")
    return u[3:] if u.startswith("fb_") else u
def scope(units):
    n = []
    for u in units:
        x = NAME.get(key(u))
        if x and x not in n: n.append(x)
    if any(u.startswith("chk_") for u in units): n.append("the format checks (checkHeader) of " + ", ".join(u[4:] for u in units if u.startswith("chk_")))
    return "Covers " + "; ".join(n) + "." if n else ""
BASE = ["include/strigi/streambase.h", "include/strigi/bufferedstream.h", "include/strigi/streambuffer.h"]

HIST = "every sequence of read, skip, reset and destruction with any arguments, for every stream class analysed, every length and content of the underlying data"
FAULT = HIST + ", and every point at which the underlying source or file can end, fail or deliver less than asked for"

P = []
def prop(id, title, statement, over, text, why, rules, units, mech, extra_files=(), level_note="", technique=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, rules=rules,
                  units=units, mech=mech, extra_files=list(extra_files), level_note=level_note, technique=technique))

prop("S01", "A read delivers between min and max items, all of them readable",
     "A read that delivers data hands out no more than the maximum (when the maximum is not below the minimum) and no fewer than the minimum, unless the stream ends or fails there. The returned pointer covers every item reported and stays readable until the stream is used again.",
     ["inputs", "histories", "fault_sequences"], FAULT,
     "The tests read a handful of files with a few fixed minimum and maximum values; short deliveries by the source and positions near the limits never occur in them.",
     ["S01", "ASSERT"], STREAMS + ["ole"], [("buffered reading", "include/strigi/bufferedstream.h"), ("buffer growth", "include/strigi/streambuffer.h")])
prop("S02", "The position always counts exactly what was read and skipped",
     "After every read, skip and reset the position equals the old position plus the number of items reported, or the position returned by the reset; it is never negative and never passes a known size. A reset that does not fail ends between the old position and the requested one.",
     ["inputs", "histories", "fault_sequences"], FAULT,
     "Position errors only show in particular combinations of skips, rewinds and short reads; the tests sample a few orders on a few small files.",
     ["S02", "ASSERT"], STREAMS + ["ole"], [("position update in read, skip and reset", "include/strigi/bufferedstream.h")])
prop("S03", "Failure is permanent, signalled by the return value and explained",
     "A stream whose read, skip or reset reports failure has the error status and a non-empty error text, and a stream with the error status reports failure from then on. No failure code is ever returned by a stream that has not failed.",
     ["histories", "fault_sequences"], FAULT,
     "Failing sources, and what clients do after a failure, are almost absent from the tests.",
     ["S03", "ASSERT"], STREAMS + ["ole"], [("status and error text", "include/strigi/streambase.h")])
prop("S04", "End of stream fixes the size, and a known size never changes",
     "A stream that reports its end has a known size equal to its position, and keeps reporting the end when it is read again. A size that is known never changes, except through failure.",
     ["inputs", "histories", "fault_sequences"], FAULT,
     "Which call discovers the end depends on lengths, buffer fill and earlier rewinds; the tests cover a few of these combinations.",
     ["S04", "ASSERT"], STREAMS + ["ole"], [("end detection", "include/strigi/bufferedstream.h")])
prop("S05", "A failure of the underlying source is never presented as a clean end",
     "When the file or stream below fails before a stream of unknown size has delivered its end, the stream fails too instead of reporting a normal end.",
     ["histories", "fault_sequences"], FAULT,
     "No test injects I/O errors or failing sources at arbitrary points.",
     ["S05", "ASSERT"], STREAMS, [("propagation of source errors", "lib/subinputstream.cpp"), ("ferror check", "lib/filereader.h")])
prop("S06", "A stream shows the data of its source at its own position",
     "Streams that show memory or hand on the data of another stream deliver exactly the data that belongs at their position: the item at position p of a sub-stream, terminated sub-stream or event stream is the item of the source at the offset where it was created plus p, the item at position p of a memory stream is item p of that memory, and the item at position p of a file stream opened by name is byte p of the file.",
     ["inputs", "histories", "fault_sequences"], HIST,
     "A shifted or repeated piece of data only shows after particular orders of rewinding, skipping and short reads.",
     ["S06", "ASSERT"], ["string", "wstring", "mmap", "sub", "dataevent", "term", "file~", "skipfile~", "skipfile2~"], [("data taken from the source", "lib/subinputstream.cpp"), ("reading up to the terminator", "lib/stringterminatedsubstream.cpp")])
prop("S07", "Rewinding within the data just delivered always works",
     "After a read has delivered data, resetting the stream to any position inside that data succeeds, reaches exactly that position, leaves the stream readable there and keeps the delivered pointer valid.",
     ["inputs", "histories"], HIST,
     "Parsers depend on this for every header they look at; tests rewind only at a few positions.",
     ["S07", "ASSERT"], WHOLE, [("rewinding the buffer", "include/strigi/bufferedstream.h")])
prop("S08", "A stream fails only for a reason",
     "A stream that was in order fails only when the file or stream below it fails, rejects or lacks data: a source error, a refused repositioning of the file, corrupt or truncated compressed or encoded data, or a source that ends before the size asked for. Nothing a client does makes a stream over healthy data fail, and a stream over memory never fails.",
     ["inputs", "histories", "fault_sequences"], HIST,
     "A failure that appears only after a particular rewind, at a particular boundary or for an unusual size is not met by the few orders of calls the tests make.",
     ["S08", "ASSERT"], [u for u in MEMORY + FILES + RANGE + BUFFERED + FILL if u not in ("fb_reader", "fb_process")] + ["dataevent"], [("reading to the end of the range", "lib/subinputstream.cpp"), ("end of compressed data", "lib/gzipinputstream.cpp")])
prop("P03", "Nothing in the input leads to an access outside valid memory",
     "Whatever bytes, lengths and read boundaries the input has, the library only touches memory that belongs to live objects, to the data its source delivered and to its own buffers, and never uses delivered data after its source has moved on or a value that was not initialised.",
     ["inputs", "histories", "fault_sequences"], FAULT,
     "Memory errors need crafted lengths, truncated headers or short reads; the tests use well-formed samples.",
     ["MEM", "EXC"], STREAMS + ARCHIVES + PROBES + ["text"], [("buffer arithmetic", "include/strigi/streambuffer.h"), ("header checks", "lib/tarinputstream.cpp")])
prop("P07", "Nothing is delivered that was never written",
     "Every item a stream hands out from a buffer of its own was put there before by the file, the decoder or the converter below; uninitialised memory is never delivered, whatever amounts they produce.",
     ["inputs", "histories", "fault_sequences"], FAULT,
     "A count that is one too large delivers garbage only when the source or decoder fills less than the buffer at the right moment.",
     ["UNI"], ["file~", "filep~", "skipfile~", "skipfile2~", "skipfile2p~", "buffered~", "bufferedw~"] + FILL, [("amounts reported by fillBuffer", "include/strigi/bufferedstream.h"), ("reading the file", "lib/fileinputstream.cpp")])
prop("P05", "Sizes and positions are computed without signed overflow",
     "No size, offset or position taken from the input or passed by the client makes a signed 32 bit computation of the library overflow.",
     ["inputs", "histories"], HIST,
     "Overflow needs values near the limits of the integer types, which no test file contains.",
     ["OVF"], STREAMS + ARCHIVES + PROBES + ["text"], [("buffer growth", "include/strigi/streambuffer.h")])
prop("R01", "All memory is released exactly once",
     "Every block the library allocates for a stream is released exactly once, with the matching deallocation, at the latest when the stream is destroyed, whatever happened before; memory that is not owned is never released.",
     ["histories", "fault_sequences"], FAULT,
     "Leaks and double releases hide on the error paths, and the tests do not check for them.",
     ["R01", "R03"], STREAMS + ARCHIVES + PROBES, [("destructors", "include/strigi/streambuffer.h")])
prop("R02", "Files, mappings and codec states are released exactly once",
     "Every file, descriptor, memory mapping and decoder state opened by a stream is used only while open and released exactly once, on every path including failures.",
     ["histories", "fault_sequences"], FAULT,
     "A leaked descriptor or a double close passes every functional test.",
     ["R02"], FILES + FILL, [("destructors", "lib/mmapfileinputstream.cpp"), ("file ownership", "lib/filereader.h")])
prop("C01", "A stream only makes well-formed requests to its source",
     "Every request a stream passes on to the stream below has a positive minimum and a non-negative skip distance.",
     ["inputs", "histories", "fault_sequences"], FAULT,
     "A malformed request needs sizes from crafted input or calls at the edge of a range.",
     ["C01", "ASSERT"], WITH_SOURCE + ARCHIVES, [("range restriction", "lib/subinputstream.cpp")])

prop("D01", "A data event handler sees every byte once, in order, and the end once",
     "The handler of a DataEventInputStream receives the data of the source without gaps and without repetition, however the stream is read, skipped and rewound. After it has declined more data it receives nothing. The end is announced once, after all data, and only when the source has ended.",
     ["inputs", "histories", "fault_sequences"], FAULT,
     "The hashes and text filters fed this way go wrong only after particular rewinds and skips, none of which the tests make.",
     ["D01", "ASSERT"], ["dataevent"], [("feeding the handler", "lib/dataeventinputstream.cpp")])

prop("C02", "A buffered stream asks for more data only while there is any, and with room for it",
     "The buffered base class calls fillBuffer only with positive free space that it really has, and never after fillBuffer has reported the end or a failure.",
     ["inputs", "histories", "fault_sequences"], HIST,
     "A call after the end or with no space only happens after particular orders of rewinding, skipping and growing.",
     ["C02", "MEM", "ASSERT"], BUFFERED, [("filling the buffer", "include/strigi/bufferedstream.h"), ("buffer space", "include/strigi/streambuffer.h")])
prop("C18", "Corrupt or truncated compressed data is never presented as a clean end",
     "When the decompressor of a gzip, zlib, deflate, bzip2 or lzma stream rejects the data, or the source ends before the decompressor has seen its end mark or the declared size, the stream fails; it never ends normally.",
     ["inputs", "fault_sequences"], "every compressed input and every result the decompressor can return, for every way the source delivers it",
     "The tests decompress valid files only.",
     ["C18", "ASSERT"], CODEC, [("results of inflate", "lib/gzipinputstream.cpp"), ("results of BZ2_bzDecompress", "lib/bz2inputstream.cpp"), ("results of LzmaDec", "lib/lzmainputstream.cpp")])
prop("D02", "A decoder, converter or command is given every byte of its source once and in order",
     "What a stream passes on to the decompressor, compressor, character converter or command it works with is the data of its source, each byte exactly once, in order and starting where the source stood (for lzma, behind the header), however much of it is taken at a time. A converter or compressor has been given all data of the source when the end is reported.",
     ["inputs", "histories", "fault_sequences"], "every amount the source delivers at a time, every amount the decoder, converter or command takes and produces, every sequence of requests",
     "Bytes are lost or repeated only when the decoder stops in the middle of a piece because its output is full, or a character is split between pieces; the small files of the tests arrive in one piece.",
     ["D02"], ["fb_gzip", "fb_zlib", "fb_deflate", "fb_gzipc", "fb_bz2", "fb_lzma", "fb_encoding", "fb_process"], [("input of inflate", "lib/gzipinputstream.cpp"), ("input of iconv", "lib/encodinginputstream.cpp"), ("input of the command", "lib/processinputstream.cpp")])
prop("D03", "After compressed data ends, its source stands right behind it",
     "When a gzip, zlib, deflate or bzip2 stream has reached the end mark of its data, the stream below is positioned at the first byte behind that data, so that what follows in the same source can be read.",
     ["inputs", "histories"], "every amount the source delivers at a time and every place in it where the decompressor finds its end mark",
     "Only sources with more data behind the compressed part show it, at piece boundaries the tests do not have.",
     ["D03"], ["fb_gzip", "fb_zlib", "fb_deflate", "fb_bz2"], [("giving back what was not used", "lib/gzipinputstream.cpp"), ("giving back what was not used", "lib/bz2inputstream.cpp")])
prop("R04", "A process stream leaves no child, descriptor or stray copy of itself behind",
     "A ProcessInputStream waits for its child when it is destroyed, signals only its own child, and the forked copy of the process never returns into the caller's code: it executes the command or exits at once.",
     ["histories", "fault_sequences"], "every sequence of reads and destruction, every result of fork, pipe, exec, select, read, write and waitpid",
     "The tests run one command that succeeds; zombies and a child that falls through to the caller stay unnoticed.",
     ["R04", "R02", "ASSERT"], ["fb_process"], [("starting and stopping the child", "lib/processinputstream.cpp")])

ARCHIVE = "every archive, well formed or not, every way its source delivers it, ends or fails, and every use of the entries between two calls (any reads, skips and resets, or none)"
prop("P01", "An archive hands out entries exactly while it is in order",
     "nextEntry of an archive provider returns an entry exactly when the provider's status is Ok, and that entry is the current one; when it returns none, the provider has ended or failed. A provider that ended or failed stays that way, never hands out an entry again, and a failed one has a non-empty error text.",
     ["inputs", "histories", "fault_sequences"], ARCHIVE,
     "The tests walk a few intact archives to their end; they never call nextEntry after the end or a failure, and hardly ever meet a damaged one.",
     ["P01", "P02", "P06", "ASSERT"], ARCHIVES, [("walking the entries", "lib/tarinputstream.cpp"), ("walking the entries", "lib/zipinputstream.cpp"), ("status of a provider", "include/strigi/substreamprovider.h")])
prop("P08", "A truncated or failing archive is never taken for a complete one, and entries do not overlap",
     "An archive whose source ends inside an entry, or fails, makes its provider fail: the provider never ends normally there. Every entry lies behind the one before it in the archive, whatever was read of it: no byte of the archive belongs to two entries.",
     ["inputs", "histories", "fault_sequences"], ARCHIVE,
     "No test truncates an archive inside an entry, lets its source fail, or leaves entries half read in all the ways a client may.",
     ["P08", "S05", "ASSERT"], PROVIDERS, [("moving to the next entry", "lib/tarinputstream.cpp"), ("moving to the next entry", "lib/cpioinputstream.cpp")])
prop("P09", "An entry is handed out at its beginning and is as large as announced",
     "An entry that nextEntry of an archive provider hands out is at its position 0, and when both are known the size the provider announces for it is the size of the stream that delivers its data.",
     ["inputs", "histories"], ARCHIVE,
     "The size announced and the stream are set up from different fields or at different times; they differ only for particular headers, or when the entry before was left half read.",
     ["P09", "ASSERT"], ARCHIVES, [("announcing an entry", "lib/zipinputstream.cpp"), ("announcing an entry", "lib/oleinputstream.cpp"), ("announcing an entry", "lib/tarinputstream.cpp")])
prop("T01", "Checking UTF-8 reports a place inside the text",
     "checkUtf8 with a place to report returns null exactly for a text without complaint, with nothing missing; otherwise it returns a pointer into the text and says that 0 (invalid) to 3 (incomplete) bytes are missing.",
     ["inputs"], "every text of every length",
     "The place and the count differ for every kind of malformed or cut off character; the tests check a few texts.",
     ["T01", "MEM"], ["text"], [("UTF-8 check", "lib/textutils.cpp")])
prop("T02", "An input that has ended or failed never makes the library spin",
     "Once the source of an operation has reported its end or a failure, the operation comes to an end: no loop keeps asking the source again, and a decoder or converter that finds its source exhausted delivers what it has, reports the end or fails, instead of answering again and again that there is nothing yet.",
     ["inputs", "histories", "fault_sequences"], FAULT,
     "A hang on cut off input only shows when the input ends at the right place (inside a header, between two members, while output is pending); the tests read complete files.",
     ["T02"], FILES + RANGE + ["dataevent"] + BUFFERED + FILL + ARCHIVES, [("filling the buffer", "include/strigi/bufferedstream.h"), ("reading from the source", "lib/gzipinputstream.cpp"), ("skipping over an entry", "lib/cpioinputstream.cpp")])
prop("T03", "A delimiter is found wherever the data happens to be split",
     "Code that looks for a delimiter in a stream piece by piece leaves out no place where the delimiter could start: each search begins no later than the first place that the previous, unsuccessful one could not decide.",
     ["inputs", "histories"], "every way a source splits its data over reads, every position of the delimiter, every order of reads, rewinds and skips by the client",
     "A delimiter across the boundary of two reads needs data of exactly the right length for the buffer in use; the test files are smaller than one buffer.",
     ["T03", "ASSERT"], ["sdf", "term"], [("finding the end of a molecule", "lib/sdfinputstream.cpp"), ("finding the terminator", "lib/stringterminatedsubstream.cpp")])
prop("M01", "Streams that share nothing can be used in different threads",
     "Two threads that use different streams, archives or readers of the library never race: the library keeps no state of its own that is changed after it was initialised, apart from what each object owns, and calls no function of libc that returns its result in memory shared by all threads. Covers every function of the library.",
     ["schedules"], "every interleaving of any number of threads that work on different objects",
     "A race over a hidden static buffer, table or counter needs two threads at the same place at the same time; the tests use one stream at a time.",
     ["M01"], ["lib_shared"], [("time stamps of zip entries", "lib/dostime.cpp"), ("decoding tables", "lib/base64inputstream.cpp"), ("shared searcher", "lib/sdfinputstream.cpp")],
     technique="effect analysis over the compiled IR: every variable with static storage, every store that reaches it, every call of libc with shared results",
     level_note="holds for all schedules, given that zlib, bzip2, iconv and libstdc++ are thread safe for different objects; memory shared through pointers kept inside objects is the client's affair",
     extra_files=["lib/dostime.cpp", "lib/base64inputstream.cpp", "lib/sdfinputstream.cpp", "lib/mailinputstream.cpp", "lib/oleinputstream.cpp", "lib/lzmainputstream.cpp", "lib/archivereader.cpp", "lib/listinginprogress.cpp"])
prop("M02", "The call stack does not grow with the input",
     "No function of the library calls itself, directly or through other functions on the same object, so the length of a list of entries, the depth of nested archives and the number of special records an input contains never decide how deep the calls of the library nest. Covers every function of the library, except that the destructor of the tree of cached entries follows the directories of the tree.",
     ["inputs"], "every input",
     "A stack overflow needs an input with tens of thousands of special records or levels; the test files have a handful.",
     ["M02"], ["lib_recursion"], [("skipping special entries", "lib/arinputstream.cpp"), ("descending into nested archives", "lib/listinginprogress.cpp"), ("long names", "lib/tarinputstream.cpp")],
     technique="call graph analysis over the compiled IR: strongly connected components of direct calls and of virtual calls on the object itself",
     level_note="a stream that reads from another stream nests as deep as the client (or the bounded nesting of ListingInProgress) stacks streams; that is not counted as recursion",
     extra_files=["lib/arinputstream.cpp", "lib/tarinputstream.cpp", "lib/listinginprogress.cpp", "lib/archivereader.cpp", "lib/mailinputstream.cpp", "lib/oleinputstream.cpp"])
prop("M03", "The library leaves the process of its client alone",
     "No input and no failure makes the library end the process (failed assertions aside), write to its standard output, use its standard descriptors or change what belongs to the whole process: working directory, environment, locale, signal handlers, limits, files by name. Only the forked copy in a process stream, which goes on to execute its command, may do so. Covers every function of the library.",
     ["inputs", "fault_sequences"], "every input and every failure",
     "Such effects sit on rare error paths, and the tests do not look at the state of the process around the library.",
     ["M03"], ["lib_process"], [("child of a process stream", "lib/processinputstream.cpp"), ("reporting problems", "lib/oleinputstream.cpp")],
     technique="effect analysis over the compiled IR: every call with an effect on the process, except in the region only a forked child reaches",
     level_note="holds for every path of every function, given that the modelled libraries have no such effects themselves",
     extra_files=["lib/processinputstream.cpp", "lib/oleinputstream.cpp", "lib/mailinputstream.cpp", "lib/archivereader.cpp", "lib/listinginprogress.cpp", "lib/gzipcompressstream.cpp"])

NOT_APPLICABLE = []
def na(id, title, statement, over, text, why, files, mech, reason):
    NOT_APPLICABLE.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, reason=reason))

na("N01", "Decoded data equals what was encoded",
   "For every byte sequence, decoding its base64, gzip, bzip2 or lzma encoding delivers exactly that sequence.",
   ["inputs"], "every byte sequence and every way of splitting the reads",
   "The tests decode a few sample files.", ["lib/base64inputstream.cpp", "lib/gzipinputstream.cpp", "lib/bz2inputstream.cpp", "lib/lzmainputstream.cpp"],
   [("decoding loops", "lib/base64inputstream.cpp")],
   "functional equality of decoded contents is decided by third-party codecs whose value semantics no static argument in reach captures")
na("N02", "Searching finds the first occurrence and nothing else",
   "A search for a string in a buffer returns the first occurrence when there is one and reports absence otherwise.",
   ["inputs"], "every needle and haystack", "The tests search a few strings.", ["lib/kmpsearcher.cpp"], [("failure table", "lib/kmpsearcher.cpp")],
   "the result depends on equalities between unboundedly many run-time bytes; needs a quantified array invariant that this family cannot infer here")
na("N03", "Mail parts are decoded according to their headers",
   "Every part of a MIME message is delivered as its own entry, with the name and transfer encoding its headers declare.",
   ["inputs"], "every message", "The tests parse one mail.", ["lib/mailinputstream.cpp"], [("header parsing", "lib/mailinputstream.cpp")],
   "the meaning of headers is a function of the message text, not of program structure; no static rule separates right from wrong parsing")
na("N04", "Every operation on every input terminates",
   "No input makes a read, skip, reset or entry lookup run forever.",
   ["inputs"], "every input", "The tests stop after the sample files.", ["lib"], [("loops bounded by the data", "lib/bz2inputstream.cpp")],
   "termination of the decoding loops rests on progress promises of zlib, bzip2 and iconv that cannot be derived from this source")
na("N05", "Output of a child process is delivered completely and without deadlock",
   "The output of a child process arrives completely however the child interleaves reading and writing.",
   ["schedules"], "every interleaving of the process and the child", "The tests run one command.", ["lib/processinputstream.cpp"], [("select loop", "lib/processinputstream.cpp")],
   "depends on the scheduling and buffering of another process")

# units that take longest come first when several run in parallel
SLOW = ["term", "buffered~", "bufferedw~", "buffered", "bufferedw", "skipfile", "tar", "ar", "zip", "rpm", "mail", "ole", "sdf", "cpio", "process", "gzip", "bz2", "lzma", "zlib", "deflate", "gzipc",
        "base64", "encoding", "reader", "dataevent", "filep", "file", "skipfile2", "skipfile2p", "text", "sub"]
def order(units): return sorted(set(units), key=lambda u: SLOW.index(u) if u in SLOW else SLOW.index(key(u)) if key(u) in SLOW else 99)

TRUSTED = ["clang 18 front end and the sroa pass", "engine/sa: transfer functions and models of libc, libstdc++, zlib, bzip2, LzmaDec and iconv (contracts in engine/models.cpp)",
           "the contract of the source stream (engine/models.cpp foreignCall), which the same checks establish for the library's own streams"]
ASSUMPTIONS = ["memory allocation does not fail", "a file does not change while it is read, and a seekable file can be positioned inside its extent",
               "no stream is longer than 2^62 items", "clients pass min >= 1, skip distances >= 0 and reset positions >= 0",
               "a source is used by one wrapping stream at a time", "files are unmodified by other threads of the process"]
