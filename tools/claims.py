CLAIMS["C01"] = dict(note="All value codecs of IndexOutput/IndexInput proved for every value over the abstract byte-stream contract of writeByte/readByte.")
NA["C24"] = "schedule property: contracts over single calls cannot express interleavings of reader and writer threads, and the verifier has no thread semantics"
NA["C25"] = "schedule property across threads and processes, decided by OS file locks: no contract within reach of a sequential program verifier expresses it"
CLAIMS["C06"] = dict(note="Point operations, counts (cached and recomputed), construction, subset and the dense file format proved for all sizes and contents; the sparse (d-gap) format and clone are covered by the bounded native stand-in only.")
CLAIMS["C03"] = dict(note="All of BufferedIndexInput (refill, readByte, readBytes, readVInt, seek, setBufferSize, getFilePointer, close) proved for every file, buffer size and state over the assumed contract of a subclass's readInternal; clone and the SimpleFS/MMap subclasses are covered by the bounded native stand-in.")
CLAIMS["C04"] = dict(note="BufferedIndexOutput, SimpleFSIndexOutput::seek/flushBuffer and both checksum wrappers proved for every state and block over assumed contracts of the file and of boost's CRC step.")
CLAIMS["C05"] = dict(note="RAMOutputStream and RAMInputStream (writeByte/writeBytes/seek/flush/close/reset/writeTo, readByte/readBytes/seek and the length and position queries) with RAMFile inlined, proved for every state over the assumed contract of RAMFile::addBuffer; clone and RAMDirectory are covered by the bounded native stand-in only.")
CLAIMS["C17"] = dict(note="doubleToByte, byteToDouble, encodeNorm and the bit conversions proved for all inputs (IEEE semantics by the solver's float theory); monotonicity, round trip and extremes are lemmas over those contracts. The static norm table behind decodeNorm is compared for all 256 codes natively.")
CLAIMS["C08"] = dict(note="Encoders, decoders, sortable doubles, the range builders and the range-splitting loop (by invariant, symbolic precision step and bounds, 32 and 64 bits) proved for all inputs; order of terms is a lemma per shift. Shifting by 64 or more (undefined in C++) occurs in splitRange for large steps; its results are proved unused only in the sense that any value the solver gives is allowed. End-to-end range queries are a bounded native stand-in.")
CLAIMS["C18"] = dict(note="addInt, iterator nextDoc/advance and both queries proved for every list state below 2^29 bytes and every number (ghost history of values and byte positions, gap bytes equal the variable-length code); the constructors' loops over their sources are covered by the bounded native stand-in. Iterators are assumed to be used while their list lives.")
CLAIMS["C07"] = dict(note="Point and range operations, next-bit queries, union/intersection/difference/symmetric difference (operands distinct or the same object), trimming, the iterator's nextDoc/advance and the bit-twiddling helpers proved for all sets up to 2^24 words. The word-array counters (pop_array and its four two-array versions), equality, hash codes, OpenBitSetDISI and clone are covered by the bounded native stand-in.")
CLAIMS["C12"] = dict(note="newSlice, allocSlice, ByteSliceWriter init/writeByte/getAddress and ByteSliceReader init/readByte/nextSlice/eof proved for every pool state over the assumed contract of nextBuffer (continues in a clear block): what each call changes, that slices are fresh, forwarding addresses and copied bytes. The composition over a whole stream, block reads and writes, block recycling and TermsHashPerField are covered by the bounded native stand-in.")
CLAIMS["C13"] = dict(note="std::upper_bound over start tables, readerIndex/subIndex, MergeDocIDRemapper (constructor and remap), SegmentMergeInfo::getDocMap, MultiReader/DirectoryReader isDeleted/doDelete/document and construction, MultiSearcher doc/subDoc/construction proved for every number of sub-readers and documents. Whole-index histories (merging, deletes, addIndexes) are a bounded native stand-in.")
CLAIMS["C09"] = dict(note="The heap operations (sift up and down, add, pop, updateTop, top, addOverflow) proved to keep the heap order and exactly the expected multiset of elements for every size and every strict weak order; the hit ordering and both collect functions proved for every score and document; the induction from single steps to a whole stream and the drain into sorted results (topDocs, populateResults) are covered by the bounded native stand-in. Sifting keeps order and keeps elements are two proved contracts, used together by callers.")
CLAIMS["C10"] = dict(note="ConjunctionScorer (doNext, nextDoc, advance), DisjunctionSumScorer (advanceAfterCurrent, nextDoc, advance, every minimum), ReqExclScorer, ReqOptSumScorer and FilteredDocIdSetIterator proved for every number of parts and every document set against the contract that their parts are assumed to satisfy - so nesting composes. ScorerDocQueue is used by an assumed contract. Constructors, DisjunctionMaxScorer, BooleanScorer2 and the bucket scorer BooleanScorer are covered by the bounded native stand-in. Termination of the conjunction's loop is not proved.")
CLAIMS["C22"] = dict(note="Reading a packed file (CSIndexInput::readInternal, length) and packing one (CompoundFileWriter::copyFile) proved for every slice, length, chunk size and position over abstract input and output files; the table of contents (close, ConstructReader, openInput by name) and whole pack/open/read histories are covered by the bounded native stand-in.")
CLAIMS["C02"] = dict(note="UTF8Encoder::utf32to8, UTF8Decoder::utf8to32, the array conversions of StringUtils, IndexOutput::writeString and IndexInput::readString proved for every string of scalar values up to 2^26 characters against the standard encoding written as a specification, with lemmas by induction on byte positions. The string-returning conversions, the older modified form, maps and stream readers are covered by the bounded native stand-in; the 16-bit wchar_t forms are not built here.")
CLAIMS["C11"] = dict(note="SegmentTermDocs next/read/readNoTf/skipTo, SegmentTermPositions readDeltaPosition/skipPayload/skipPositions/lazySkip/nextPosition and the writers FormatPostingsDocsWriter::addDoc and FormatPostingsPositionsWriter::addPosition proved for every posting list, deletion set and state over one token grammar (writer emits it, readers consume it). The multi-level skip list reader and writer are used by an assumed contract and covered, with whole-index histories, by the bounded native stand-in.")
CLAIMS["C21"] = dict(note="Term order (compareChars, Term::compareTo), the delta coding of entries (TermInfosWriter::writeTerm against SegmentTermEnum::next for dictionary and index files), SegmentTermEnum::seek and scanTo proved for every dictionary over one token grammar. TermBuffer::read, the index look-up and caching of TermInfosReader are covered by the bounded native stand-in.")
CLAIMS["C20"] = dict(note="WildcardTermEnum::wildcardEquals proved for every pattern and string against the recursive definition of matching, with lemmas by induction about runs of stars. The fuzzy similarity and both enumerations are covered by the bounded native stand-in (edit distance recomputed).")
CLAIMS["C23"] = dict(note="QueryParser::escape proved for every string (standard stream by assumed contracts); StringUtils::toLong(value, base) and toString(value, base) proved for every text, 64-bit number and radix 2 to 36 (digits of the successive quotients, sign, no truncation). NumberTools and DateField are covered by the bounded native stand-in.")
