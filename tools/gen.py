#!/usr/bin/env python3
"""Generates properties.jsonl and MANIFEST.json from the table below (run after editing)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": qtext}, why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[{"name": n, "where": w} for n, w in mech], **({"state": [{"name": n, "meaning": m, "where": w} for n, m, w in state]} if state else {}))))
C = "src/core/"
p("C01", "Primitive values survive the store codec",
  "Every 32-bit and 64-bit value written to a store output as a fixed-width or variable-length integer is read back unchanged by the matching read, which consumes exactly the bytes the write produced. The bytes are the documented file format: big-endian for fixed widths, and seven payload bits per byte, low group first, in the fewest bytes for variable-length values of the unsigned bit pattern.",
  ["inputs"], "all 2^32 int and 2^64 long values, at every stream position, on every input/output implementation including those that override the variable-length readers",
  "tests write a handful of values; a codec slip at one bit-length boundary, for negative values or at a buffer boundary is invisible to them",
  [C + "store/IndexOutput.cpp", C + "store/IndexInput.cpp", C + "store/BufferedIndexInput.cpp", "include/lucene++/MiscUtils.h", C + "util/MiscUtils.cpp"],
  [("writers", C + "store/IndexOutput.cpp writeInt/writeLong/writeVInt/writeVLong"), ("readers", C + "store/IndexInput.cpp readInt/readLong/readVInt/readVLong; the same functions in BufferedIndexInput.cpp and ByteSliceReader"), ("unsigned shift", "MiscUtils::unsignedShift")])
p("C02", "Text survives the store and UTF-8 codecs",
  "Any string of Unicode scalar values converted to UTF-8 and back is unchanged, and the UTF-8 bytes are the standard encoding of each code point. Any such string written to a store output is read back unchanged by the matching read, as is any string-to-string map; text in the older modified form (writeChars, readChars and strings in modified mode), which has no form for characters beyond U+FFFF, is read back unchanged whenever it has none of those. A file holding UTF-8 is read as the text it encodes, however the reads are split.",
  ["inputs"], "all strings over U+0000..U+D7FF and U+E000..U+10FFFF (for the older form over U+0000..U+FFFF), of every length, in every combination",
  "tests convert a few literals; most code-point boundaries, string lengths and embedded NULs are never exercised",
  [C + "util/UTF8Stream.cpp", C + "util/StringUtils.cpp", C + "store/IndexOutput.cpp", C + "store/IndexInput.cpp", C + "util/UnicodeUtils.cpp", C + "util/InputStreamReader.cpp"],
  [("encoder/decoder", C + "util/UTF8Stream.cpp UTF8Encoder::encode / UTF8Decoder::decode"), ("conversions", C + "util/StringUtils.cpp toUTF8 / toUnicode"), ("stream strings", "IndexOutput::writeString/writeChars/writeStringStringMap, IndexInput::readString/readChars/readStringStringMap")])
p("C03", "Buffered reading never changes what is read",
  "Reading a file through a buffered store input returns exactly the file's bytes: after any sequence of single-byte reads, block reads (buffered or not), integer reads, seeks, clones and buffer-size changes, each read returns the bytes at the logical position and advances it by the number read. A read past the end of the file fails with an error instead of returning data, and the logical position reported is always the one the sequence implies.",
  ["inputs", "histories"], "all file contents and lengths, buffer sizes, and sequences of read/seek/clone/resize operations",
  "tests run a few fixed access patterns over a few sizes; refill and copy arithmetic at the boundary of buffer, file end and block size is an infinite family",
  [C + "store/BufferedIndexInput.cpp", "include/lucene++/BufferedIndexInput.h", C + "store/SimpleFSDirectory.cpp", C + "store/MMapDirectory.cpp"],
  [("buffer refill", C + "store/BufferedIndexInput.cpp refill"), ("block read", "BufferedIndexInput::readBytes"), ("seek/position", "BufferedIndexInput::seek, getFilePointer"), ("resize", "setBufferSize/newBuffer")],
  [("bufferStart, bufferLength, bufferPosition", "window of the file currently buffered", "BufferedIndexInput")])
p("C04", "Buffered writing never changes what is written",
  "Whatever sequence of byte, block and seek operations is made on a buffered store output, the bytes handed to the underlying file are exactly the bytes written, each at the logical position it was written at, none lost, repeated or reordered by buffering, flushing or closing. The reported file position always equals the position implied by the operations, and a checksumming output computes the checksum of exactly the bytes passed through.",
  ["inputs", "histories"], "all sequences of writeByte/writeBytes/seek/flush/close with all block lengths relative to the buffer size",
  "tests write small files in a few patterns; wrong arithmetic when a block exactly fills, overfills or straddles the buffer is not sampled",
  [C + "store/BufferedIndexOutput.cpp", C + "store/ChecksumIndexOutput.cpp", C + "store/ChecksumIndexInput.cpp"],
  [("buffering", C + "store/BufferedIndexOutput.cpp writeByte/writeBytes/flush/seek/close/getFilePointer"), ("checksums", C + "store/ChecksumIndexOutput.cpp, ChecksumIndexInput.cpp")])
p("C05", "In-memory files behave as byte arrays",
  "A file in a RAM directory behaves as a growable byte array: reads return what was last written at each position across all internal block boundaries, the length is the highest position written, seeking back and rewriting changes only the bytes rewritten, and reading beyond the end fails. Copying its contents to another output reproduces it byte for byte.",
  ["inputs", "histories"], "all sequences of writes, seeks, flushes, resets and reads at all positions and lengths",
  "tests touch a few lengths; block-boundary arithmetic (position, block index, block limit, length) must hold for every length and position",
  [C + "store/RAMOutputStream.cpp", C + "store/RAMInputStream.cpp", C + "store/RAMFile.cpp", C + "store/RAMDirectory.cpp"],
  [("writer", C + "store/RAMOutputStream.cpp writeByte/writeBytes/switchCurrentBuffer/setFileLength/flush/seek/writeTo"), ("reader", C + "store/RAMInputStream.cpp readByte/readBytes/switchCurrentBuffer/seek")])
p("C06", "Deleted-document bit vectors are exact sets and persist exactly",
  "A bit vector behaves as a set of bit numbers: setting or clearing a bit changes exactly that bit, test-and-set reports the previous value, and the count equals the number of bits set, after any history. Written to a directory and read back, in either the dense or the sparse format, it has the same size, count and bits; a subset has exactly the bits of its range.",
  ["inputs", "histories"], "all sizes, all contents, all sequences of set/clear/test-and-set/count, and all sub-ranges; both file formats",
  "tests check a few sizes and patterns; byte-boundary, last-byte, gap-encoding and cached-count errors need specific sizes and histories",
  [C + "util/BitVector.cpp"],
  [("bit operations", C + "util/BitVector.cpp set/getAndSet/clear/get/count"), ("formats", "writeBits/readBits/writeDgaps/readDgaps/isSparse"), ("subset", "BitVector::subset")],
  [("_count", "cached cardinality, -1 when unknown", "BitVector")])
p("C07", "Filter bit sets obey set algebra and iterate exactly",
  "The open bit set used for filters behaves as a set of non-negative numbers: point operations, flips, range set/clear/flip, union, intersection, difference, symmetric difference, cardinality (single and of two sets) and next-bit queries give exactly the mathematical result, with bits outside the allocated words reading as clear and no index inside a growing operation reaching outside the words. Iterating such a set, from the start or by advancing to any target, visits exactly its members in increasing order and then reports exhaustion.",
  ["inputs", "histories"], "all set contents and sizes, all index arguments including word boundaries, all pairs of sets of different lengths, all next/advance sequences",
  "tests compare random sets at a few sizes; word-boundary masks, length mismatches and shift edge cases are a tiny part of random inputs",
  [C + "util/OpenBitSet.cpp", C + "util/OpenBitSetIterator.cpp", C + "util/OpenBitSetDISI.cpp", C + "util/BitUtil.cpp", "include/lucene++/BitUtil.h"],
  [("word operations", C + "util/OpenBitSet.cpp"), ("iteration", C + "util/OpenBitSetIterator.cpp nextDoc/advance"), ("population counts", C + "util/BitUtil.cpp")])
p("C08", "Numeric terms preserve order, value and ranges",
  "Prefix-coded integer, long and double terms decode to the value encoded (with the low bits dropped for a given precision cleared), and comparing two terms of the same precision as strings orders them as the numbers. Splitting any numeric range at any precision step yields sub-ranges that together match exactly the values inside the range, each value matched at exactly one precision.",
  ["inputs"], "all 2^32 ints, all 2^64 longs, all doubles, all shifts, all range bounds and precision steps",
  "tests check a few hundred values and random small ranges; sign handling, extreme bounds and overflow at the ends of the value space are single points",
  [C + "util/NumericUtils.cpp", C + "util/MiscUtils.cpp"],
  [("encoding", C + "util/NumericUtils.cpp longToPrefixCoded/intToPrefixCoded/prefixCodedToLong/prefixCodedToInt"), ("sortable doubles", "NumericUtils::doubleToSortableLong/sortableLongToDouble, MiscUtils::doubleToLongBits"), ("range split", "NumericUtils::splitRange")])
p("C09", "Top-N collection returns the N best hits in rank order",
  "For any stream of scored documents collected in any order, the top-N collector returns the N documents with the highest scores, ordered by descending score and, for equal scores, by ascending document number, together with the exact total number of hits; the general priority queue it is built on returns any inserted elements in sorted order and never drops an element smaller than one it keeps in bounded-insert mode.",
  ["inputs", "histories"], "all hit sequences (scores with ties, documents in or out of order), all N, all queue operation histories",
  "tests collect small fixed result sets; heap sift errors and tie-breaking errors appear only for particular sizes and orders",
  ["include/lucene++/PriorityQueue.h", C + "search/HitQueue.cpp", C + "search/HitQueueBase.cpp", C + "search/TopScoreDocCollector.cpp", C + "search/TopDocsCollector.cpp"],
  [("heap", "include/lucene++/PriorityQueue.h upHeap/downHeap/add/pop/updateTop/addOverflow"), ("order", C + "search/HitQueue.cpp lessThan"), ("collection", C + "search/TopScoreDocCollector.cpp collect, TopDocsCollector.cpp topDocs")])
p("C10", "Boolean combinations match exactly the right documents",
  "Combining sub-queries matches exactly the documents the Boolean definition gives: a conjunction the intersection, a disjunction with minimum M the documents matching at least M clauses, exclusion the difference, and an optional clause no effect on which documents match. Documents are produced in strictly increasing order, and advancing to a target lands on the first match at or after it, for any interleaving of stepping and advancing.",
  ["inputs", "histories"], "all clause document sets, all numbers of clauses, all next/advance call sequences",
  "tests run queries over small indexes; advance-past-end, coincident documents and queue maintenance at exhaustion depend on particular clause sets and call sequences",
  [C + "search/ConjunctionScorer.cpp", C + "search/DisjunctionSumScorer.cpp", C + "search/ReqExclScorer.cpp", C + "search/ReqOptSumScorer.cpp", C + "util/ScorerDocQueue.cpp", C + "search/DisjunctionMaxScorer.cpp"],
  [("conjunction", C + "search/ConjunctionScorer.cpp doNext/advance"), ("disjunction", C + "search/DisjunctionSumScorer.cpp advanceAfterCurrent/advance"), ("exclusion", C + "search/ReqExclScorer.cpp toNonExcluded"), ("queue", C + "util/ScorerDocQueue.cpp")])
p("C11", "Postings enumeration yields exactly the live documents of a term",
  "Enumerating a term's documents returns every document of the posting list that is not deleted, once, in increasing order, with the frequency that was written, whether documents are fetched singly, in blocks or by skipping; skipping to a target lands on the first live document at or after the target that lies beyond the current one.",
  ["inputs", "histories"], "all posting lists, frequencies, deletion sets and call sequences",
  "tests use small posting lists; skip data is only used beyond the skip interval and deletions interact with block reads",
  [C + "index/SegmentTermDocs.cpp", C + "index/MultiLevelSkipListReader.cpp", C + "index/DefaultSkipListReader.cpp", C + "index/FormatPostingsDocsWriter.cpp", C + "index/MultiLevelSkipListWriter.cpp", C + "index/DefaultSkipListWriter.cpp"],
  [("decoding", C + "index/SegmentTermDocs.cpp next/read/readNoTf/skipTo"), ("encoding", C + "index/FormatPostingsDocsWriter.cpp addDoc"), ("skip lists", C + "index/MultiLevelSkipListReader.cpp")])
p("C12", "Bytes buffered while indexing are read back exactly",
  "While documents are being indexed, the bytes appended to any of the interleaved in-memory byte streams are read back from that stream in order, unchanged and complete, no matter how many streams grow alternately, how long they get or where internal blocks end.",
  ["inputs", "histories"], "all interleavings of appends to any number of streams, of any length",
  "tests use one random interleaving; growth happens at level and block boundaries that only specific lengths reach",
  [C + "index/ByteBlockPool.cpp", C + "index/ByteSliceWriter.cpp", C + "index/ByteSliceReader.cpp"],
  [("allocation", C + "index/ByteBlockPool.cpp newSlice/allocSlice/nextBuffer"), ("write", C + "index/ByteSliceWriter.cpp writeByte/writeBytes"), ("read", C + "index/ByteSliceReader.cpp readByte/nextSlice/readBytes")])
p("C13", "Composite document numbers resolve to exactly one sub-reader",
  "In a reader or searcher composed of several parts, every global document number resolves to the one part whose range contains it and to the local number that is its offset in that part, and the parts' ranges tile the global range in order, including when some parts are empty. When segments are merged and deletions compacted, every surviving document's new number is its old number minus the deletions before it, preserving order.",
  ["inputs"], "all lists of part sizes (including zeros) and all document numbers; all deletion sets",
  "tests combine a few small readers; binary search with empty parts and boundary document numbers are special cases",
  [C + "util/ReaderUtil.cpp", C + "index/DirectoryReader.cpp", C + "index/MultiReader.cpp", C + "index/MergeDocIDRemapper.cpp", C + "index/SegmentMergeInfo.cpp", C + "search/MultiSearcher.cpp"],
  [("sub-reader search", C + "util/ReaderUtil.cpp subIndex; DirectoryReader::readerIndex"), ("doc maps", C + "index/SegmentMergeInfo.cpp getDocMap"), ("remapping", C + "index/MergeDocIDRemapper.cpp remap")])
p("C14", "Index files live exactly while something references them",
  "The deleter that manages an index directory removes a file exactly when its last reference is dropped: a file referenced by any retained commit, by the current in-memory segments or explicitly is never deleted, and a file whose references have all been dropped is deleted or queued for a retried deletion. References taken and dropped in any order stay balanced.",
  ["histories"], "all histories of taking and dropping references over any set of files, including deletion failures",
  "tests count leftover files after a few scenarios; an unbalanced count shows up only for particular histories of commits and merges",
  [C + "index/IndexFileDeleter.cpp"],
  [("reference counts", C + "index/IndexFileDeleter.cpp RefCount, incRef/decRef/checkpoint/deleteFile")])
p("C15", "A commit becomes visible only as a whole",
  "Writing a commit is all or nothing: the file naming the new segment set carries a checksum of all its preceding bytes that is completed only in the final phase, so that a reader either accepts the complete commit or rejects it; any truncation or change of the committed bytes is detected, and abandoning a prepared commit leaves the previous commit in force.",
  ["crash_points", "fault_sequences"], "all prefixes of the commit write sequence and all failures between its phases",
  "tests cover a few simulated crashes; each write of the sequence is a crash point",
  [C + "index/SegmentInfos.cpp", C + "store/ChecksumIndexOutput.cpp", C + "store/ChecksumIndexInput.cpp"],
  [("two-phase write", C + "index/SegmentInfos.cpp prepareCommit/finishCommit/rollbackCommit"), ("checksum", C + "store/ChecksumIndexOutput.cpp prepareCommit/finishCommit")])
p("C16", "Merge selection keeps segments contiguous, disjoint and bounded",
  "Whatever the sizes of the segments, each merge the log merge policy proposes is a run of adjacent segments in index order, no segment is in two proposed merges, an ordinary merge has at most the merge factor's number of segments, and no segment larger than the configured maximum takes part in an ordinary merge.",
  ["inputs", "configurations"], "all segment size sequences, merge factors and limits",
  "tests run a few indexing workloads; level boundaries computed from logarithms of sizes have a large space of corner cases",
  [C + "index/LogMergePolicy.cpp"],
  [("selection", C + "index/LogMergePolicy.cpp findMerges/findMergesForOptimize/findMergesToExpungeDeletes")])
p("C17", "Length-norm bytes encode monotonically and decode consistently",
  "The one-byte floating-point code used for norms never reverses order: a larger value never gets a smaller code; every one of the 256 codes decodes to a value that encodes back to the same code; non-positive values encode to zero, tiny positive values to the smallest nonzero code and huge values to the largest.",
  ["inputs"], "all double-precision inputs except NaN and all 256 codes",
  "tests check the 256 decoded values and some random inputs; rounding and overflow edges are individual bit patterns",
  [C + "util/SmallDouble.cpp", C + "search/Similarity.cpp"],
  [("codec", C + "util/SmallDouble.cpp doubleToByte/byteToDouble"), ("norm table", C + "search/Similarity.cpp encodeNorm/decodeNorm")])
p("C18", "Compressed sorted id lists iterate exactly",
  "A compressed list built from any strictly increasing sequence of non-negative document numbers reports its exact size and iterates exactly those numbers in order; advancing to a target stops at the first stored number not less than the target, and exhaustion is reported exactly once the numbers run out.",
  ["inputs", "histories"], "all increasing sequences of 31-bit numbers and all next/advance sequences",
  "tests use a few lists; multi-byte delta boundaries are powers of 128",
  [C + "util/SortedVIntList.cpp"],
  [("builder", C + "util/SortedVIntList.cpp addInt"), ("iterator", "SortedDocIdSetIterator::advance/nextDoc")])
p("C19", "Character tokenizers report exact tokens and offsets",
  "A character-class tokenizer emits exactly the maximal runs of token characters of its input, in order, split at the maximum token length, with each token's text equal to the normalised input slice and its start and end offsets delimiting that slice, regardless of where the internal read buffer ends. Removing stop words keeps every other token and adds the number of removed tokens to the next position increment when increments are enabled.",
  ["inputs"], "all inputs of all lengths and all token-character predicates",
  "tests tokenize short strings; tokens straddling the 4096-character buffer or the 255-character limit are not sampled",
  [C + "analysis/CharTokenizer.cpp", C + "analysis/StopFilter.cpp", C + "analysis/LengthFilter.cpp"],
  [("tokenizer loop", C + "analysis/CharTokenizer.cpp incrementToken"), ("stop filter", C + "analysis/StopFilter.cpp incrementToken")])
p("C20", "Wildcard and fuzzy matching follow their definitions",
  "A wildcard pattern matches a term exactly when the term can be produced from the pattern by replacing each '?' with one character and each '*' with any string. The fuzzy similarity of two terms sharing the required prefix equals one minus their edit distance over the length of the shorter term (including the prefix), except that it may be reported as zero when that value does not exceed the configured minimum (up to rounding).",
  ["inputs"], "all patterns and terms; all term pairs, prefix lengths and minimum similarities",
  "tests try a few dozen patterns; backtracking and distance cut-offs depend on pattern structure",
  [C + "search/WildcardTermEnum.cpp", C + "search/FuzzyTermEnum.cpp"],
  [("matcher", C + "search/WildcardTermEnum.cpp wildcardEquals"), ("edit distance", C + "search/FuzzyTermEnum.cpp similarity")])
p("C21", "The term dictionary is ordered and lookups find exactly the term",
  "Terms are totally ordered by field and then text, the dictionary of a segment stores them in that order with shared prefixes removed, and reading it back yields the same terms with the same statistics. Seeking positions at the first term not less than the target, and looking a term up succeeds exactly when it is present.",
  ["inputs", "histories"], "all sorted term sequences, all lookup targets and orders of lookups, all index intervals",
  "tests index few terms, mostly below one index interval; seeks forward, backward and across index entries are sparsely sampled",
  [C + "index/Term.cpp", C + "index/TermBuffer.cpp", C + "index/TermInfosReader.cpp", C + "index/TermInfosWriter.cpp", C + "index/SegmentTermEnum.cpp"],
  [("order", C + "index/Term.cpp compareTo, TermBuffer.cpp compareTo"), ("index search", C + "index/TermInfosReader.cpp getIndexOffset"), ("delta coding", C + "index/TermInfosWriter.cpp writeTerm, SegmentTermEnum.cpp next")])
p("C22", "Compound files present the original files unchanged",
  "Packing files into a compound file and opening them through it yields, for every packed file, exactly its original length and bytes at every position, independent of the other files, and reads never cross the end of the packed file.",
  ["inputs", "histories"], "all sets of files, all lengths and all read/seek sequences",
  "tests pack a few sizes; slice bounds must hold for every offset and length",
  [C + "index/CompoundFileReader.cpp", C + "index/CompoundFileWriter.cpp"],
  [("slice reader", C + "index/CompoundFileReader.cpp CSIndexInput::readInternal/length"), ("writer", C + "index/CompoundFileWriter.cpp close/copyFile")])
p("C23", "Query-text escaping and number/date text forms are faithful",
  "Escaping any string for the query parser leaves every non-special character alone and precedes exactly the special characters with a backslash. The sortable text forms of numbers and the radix text forms of integers convert back to the same number and order as the number does.",
  ["inputs"], "all strings; all 64-bit numbers and supported radixes",
  "tests check a few literals; extreme values and each special character are single points",
  [C + "queryparser/QueryParser.cpp", C + "document/NumberTools.cpp", C + "util/StringUtils.cpp"],
  [("escape", C + "queryparser/QueryParser.cpp escape"), ("number text", C + "document/NumberTools.cpp longToString/stringToLong; StringUtils::toString/toLong")])
p("C24", "A reader's view never changes while writers continue",
  "A reader opened on an index keeps returning exactly the documents of the commit it was opened on, for as long as it is open, whatever additions, deletions, merges and commits other threads perform meanwhile.",
  ["schedules", "histories"], "all interleavings of reader use with writer, merge and commit threads",
  "tests run a few thread mixes for seconds; visibility errors depend on the schedule",
  [C + "index/IndexWriter.cpp", C + "index/SegmentReader.cpp", C + "index/DirectoryReader.cpp"],
  [("copy-on-write deletions and norms", C + "index/SegmentReader.cpp clone/reopenSegment"), ("near-real-time readers", C + "index/IndexWriter.cpp ReaderPool")])
p("C25", "At most one writer holds an index",
  "While one writer has an index open for writing, any other attempt to open it for writing fails, in this process or another, and the lock is released when the first closes.",
  ["schedules"], "all interleavings of lock attempts from any number of threads and processes",
  "tests try two sequential openers; a race between check and creation needs a particular interleaving",
  [C + "store/NativeFSLockFactory.cpp", C + "store/SimpleFSLockFactory.cpp", C + "store/SingleInstanceLockFactory.cpp", C + "store/Lock.cpp"],
  [("lock acquisition", C + "store/NativeFSLockFactory.cpp obtain; SingleInstanceLockFactory.cpp obtain")])

# ---- claims: property -> (level_note, theorems) ; everything else is not applicable with a reason
CLAIMS = {}
NA = {}
exec(open(os.path.join(V, "tools", "claims.py")).read())
def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for x in P: f.write(json.dumps(x) + "\n")
    for x in P: assert len(x["title"]) <= 80, x["title"]
    checks = []
    for x in P:
        if x["id"] not in CLAIMS: continue
        c = CLAIMS[x["id"]]
        checks.append({"property": x["id"], "quick_cmd": "/opt/veriftools/pyvenv/bin/python3 check.py %s quick" % x["id"], "thorough_cmd": "/opt/veriftools/pyvenv/bin/python3 check.py %s thorough" % x["id"],
                       "evidence_file": "evidence/%s.json" % x["id"],
                       "technique": "contract-based deductive verification: contracts on the real functions, verification conditions generated from clang LLVM IR of the current sources, discharged by z3/cvc5" + c.get("tech", ""),
                       "level": "proof", "level_note": c["note"]})
    na = [{"property": x["id"], "reason": NA.get(x["id"], "check not built yet")} for x in P if x["id"] not in CLAIMS]
    json.dump({"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
               "notes": "Own VC generator over LLVM IR (engine/), contracts in contracts/, native replay harnesses (bounded stand-ins, counterexample replay) in harness/. Known findings: known_findings.json."}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
    print(len(P), "properties", len(checks), "claimed")
main()
