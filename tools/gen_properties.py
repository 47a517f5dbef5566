#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text stays reviewable)."""
import json, os
L="Src/libCZI/"
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None,hook=None):
    a={"files":[f if f.startswith("Src") else L+f for f in files],
       "mechanism":[{"name":n,"where":(w if w.startswith("Src") else L+w)} for n,w in mech],
       "observe_at":observe,"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":L+w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,
      "quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

p("C01","A written document reads back exactly as written",
 "After any sequence of writer operations followed by closing the writer, opening the produced file yields exactly the accepted sub-blocks (all plane coordinates, M-index, logical rectangle, physical size, pixel type, compression identifier, pyramid type, pixel data, sub-block metadata and sub-block attachment bytes), exactly the accepted attachments (GUID, type, name, bytes), the last accepted document metadata, and the requested file GUID. This holds whatever way the data was supplied (memory block, strided bitmap, line callback, pull callback), in whatever chunks, and whatever space was reserved up front for directories and metadata.",
 ["histories","inputs","configurations"],
 "all sequences of add-sub-block / add-attachment / write-metadata calls up to a bounded length over an alphabet of item shapes, times all reservation configurations",
 "The unit tests write a handful of fixed documents; they never cross reservation sizes (too small, exact, too large, default) with operation order, payload-size edge cases and the four ways of supplying data.",
 ["CziWriter.cpp","CziReaderCommon.cpp","CziParse.cpp","CziSubBlockDirectory.cpp","CziAttachmentsDirectory.cpp","CziMetadataSegment.cpp","CZIReader.cpp"],
 [("CCziWriter::SyncAddSubBlock / SyncAddAttachment / SyncWriteMetadata / Finish","CziWriter.cpp"),("CWriterUtils::WriteSubBlock / WriteSubBlkDirectory / WriteAttachmentDirectory / WriteMetadata","CziWriter.cpp"),("CCZIParse::ReadSubBlock / ReadSubBlockDirectory / ReadAttachmentsDirectory","CziParse.cpp")],
 ["ICZIReader over the bytes received by the output stream"])

p("C02","Every produced file is a well-formed, non-overlapping chain of segments",
 "Every file produced by the writer, or left behind by a closed edit session, is a gap-free chain of segments with known identifiers starting at offset 0, each 32-byte aligned with used size not exceeding allocated size, that covers every segment in use; no two segments in use overlap and every segment in use lies completely inside the file (only space that is reserved and not in use may be cut off by the end of the file). The file header points at one sub-block directory, one attachment directory and one metadata segment (or at none when there is none), each directory lists exactly the live items, and every directory entry points at the start of a segment of the right kind carrying the same description.",
 ["histories","configurations"],
 "all bounded writer histories times all reservation configurations; all bounded edit histories on files of different layouts, including several consecutive edit sessions",
 "Tests only inspect a few results through the library's own reader, which tolerates overlaps, gaps and stale copies; structural damage that is masked by the reader is never looked at.",
 ["CziWriter.cpp","CziReaderWriter.cpp","CziStructs.h"],
 [("WriteSubBlkDirectory / WriteAttachmentDirectory / WriteZeroes","CziWriter.cpp"),("CCziReaderWriter::Finish and Replace*/Add*/Remove*","CziReaderWriter.cpp"),("CWriterCziSegmentBase / nextSegmentInfo","CziWriter.h")],
 ["raw bytes of the file, walked by an independent parser"])

p("C03","In-place editing changes exactly what was asked for, across reopen",
 "After any sequence of adding, replacing and removing sub-blocks, attachments and document metadata on an existing file, both the open edit session and every later reopening of the closed file show exactly the edited content: every item not addressed by an operation is unchanged in description and bytes, every addressed item is as requested, and removed items are gone. The key by which an item is addressed inside a session keeps denoting the same item until it is removed, and an operation on a key that does not exist changes nothing and reports an error.",
 ["histories","configurations"],
 "all bounded sequences of edit operations (add / replace smaller, equal, larger / remove / metadata) over several initial file layouts, split over one or more edit sessions",
 "The unit tests perform single edits on single files; damage appears only after combinations such as replace-then-append, remove-all-then-add or a second session.",
 ["CziReaderWriter.cpp","CziReaderWriter.h","CziSubBlockDirectory.cpp","CziAttachmentsDirectory.cpp"],
 [("ReplaceSubBlock, SyncAddSubBlock, SyncRemoveSubBlock, ReplaceAttachment, SyncAddAttachment, SyncRemoveAttachment, SyncWriteMetadata, Finish","CziReaderWriter.cpp"),("CReaderWriterCziSubBlockDirectory, CReaderWriterCziAttachmentsDirectory","CziSubBlockDirectory.cpp, CziAttachmentsDirectory.cpp")],
 ["ICziReaderWriter queries during the session","ICZIReader after close"],
 state=[("nextSegmentInfo","where the next appended segment goes","CziReaderWriter.h")])

p("C04","Document statistics are an exact function of the sub-blocks present",
 "The reported sub-block count, bounding box (all levels and layer 0), bounds of every dimension, M-index range, per-scene bounding boxes and per-scene pyramid layer counts are exactly those implied by the set of sub-blocks currently in the document. This holds for a reader on any document and for an edit session at every moment, regardless of the order of additions, replacements and removals that produced the set.",
 ["histories","inputs"],
 "all sub-block sets up to a bounded size over an alphabet of shapes (layer-0, pyramid, missing dimensions, missing M, missing scene, negative coordinates), in every insertion order and with every removal/replacement order, queried in between",
 "Incremental statistics depend on the order of operations and on when they were last queried; tests check single fixed documents.",
 ["CziSubBlockDirectory.cpp","CziSubBlockDirectory.h","CZIReader.cpp","CziReaderWriter.cpp"],
 [("CSbBlkStatisticsUpdater::UpdateStatistics / Consolidate / SortPyramidStatistics / Clear","CziSubBlockDirectory.cpp"),("CReaderWriterCziSubBlockDirectory::EnsureSbBlkStatistics","CziSubBlockDirectory.cpp")],
 ["GetStatistics / GetPyramidStatistics of the reader and of the edit session"])

p("C05","Invalid write requests are refused and leave no trace",
 "The writer refuses a sub-block that duplicates an existing one (same pyramid zoom, plane coordinate and M-index, or same position where there is no M-index, unless duplicates were allowed on creation), has a coordinate dimension set deviating from the declared bounds, lies outside declared dimension or M-index bounds, or lacks a required dimension or M-index, and a second attachment identical in identity to an earlier one; it never refuses a sub-block that satisfies those rules. A refused request, and any request before creation or after closing, raises an error and has no effect on the final document.",
 ["histories","configurations"],
 "all bounded sequences mixing acceptable and unacceptable requests, for every combination of declared bounds",
 "Tests try one bad request at a time; the interplay of refused requests, duplicates with differing M-index/scene/pyramid rectangle and later acceptable requests is not explored.",
 ["CziWriter.cpp","CziSubBlockDirectory.cpp","CziAttachmentsDirectory.cpp"],
 [("CCziWriter::AddSubBlock / CheckAddSubBlockArguments / ThrowIfCoordinateIsOutOfBounds / ThrowIfMIndexOutOfBounds / ThrowNotOperational","CziWriter.cpp"),("CWriterCziSubBlockDirectory::TryAddSubBlock, SubBlkEntryCompare","CziSubBlockDirectory.cpp"),("CWriterCziAttachmentsDirectory::TryAddAttachment, AttachmentEntriesCompare","CziAttachmentsDirectory.cpp")],
 ["exceptions thrown by ICziWriter; final document read back"])

p("C06","Write failures are reported and never damage acknowledged content",
 "If the output stream raises an error or stores fewer bytes than requested at any point of any operation, that operation reports an error instead of success. Whatever was acknowledged before and after the fault is complete and correct in the document obtained by closing later on a healthy stream (except for an item which the failed operation was itself overwriting in place), an operation that failed has not added anything to it, and it may be retried.",
 ["fault_sequences","histories"],
 "every position of one failing or short write (and pairs of them) in every bounded writer or edit history",
 "No test injects a write fault; the position of the fault relative to the bookkeeping decides whether the document is silently damaged.",
 ["CziWriter.cpp","CziReaderWriter.cpp"],
 [("CWriterUtils::ThrowIfNotEnoughBytesWritten / CheckMetadataIs... and all WriteXXX callers","CziWriter.cpp"),("directory bookkeeping around the writes","CziWriter.cpp, CziReaderWriter.cpp")],
 ["exceptions, then the document read back"])

p("C07","Read failures are reported; content is never made up",
 "If the input stream raises an error or delivers fewer bytes than requested at any read of opening, enumerating, reading or decoding, the call in progress reports an error or returns exactly the content a healthy stream would give. It never returns wrong or partial content (an edit session treats a stream that ends inside of the file header as a new document), and a reader that was opened successfully gives correct answers again once the stream is healthy.",
 ["fault_sequences","inputs"],
 "every position of one failing or short read (and pairs) in a session that opens a document and reads everything in it",
 "Tests use healthy streams (one or two hand-made short reads); the fault position is unbounded.",
 ["CziParse.cpp","CZIReader.cpp","CziReaderWriter.cpp","CziReaderCommon.cpp"],
 [("ThrowNotEnoughDataRead / ThrowIllegalData on each read","CziParse.cpp")],
 ["exceptions or returned content"])

p("C08","Damaged or hostile files never cause memory errors, hangs or crashes",
 "For any byte content presented as a document - truncated anywhere, or with any header, directory, segment or size field replaced by an arbitrary value - opening it, querying it, reading and decoding its sub-blocks, attachments and metadata, and composing images from it either succeed or report an error through an exception. They never access memory outside what was allocated, never terminate the process, never loop without bound, and never hand out a buffer smaller than its reported size.",
 ["inputs"],
 "all truncation lengths and all single-field replacements (and pairs on size-like fields) by an adversarial value set, on documents covering every segment kind and compression",
 "A few tests open one or two broken files; the space of broken fields is not enumerated.",
 ["CziParse.cpp","CziStructs.cpp","CziSubBlockDirectory.cpp","SubblockAttachmentAccessor.cpp","SubblockMetadata.cpp","CreateBitmap.cpp","decoder_zstd.cpp","decoder.cpp","CziReaderWriter.cpp"],
 [("CCZIParse::*","CziParse.cpp"),("size checks in CreateBitmapFromSubBlock_*","CreateBitmap.cpp"),("decoders","decoder_zstd.cpp, decoder.cpp")],
 ["AddressSanitizer, watchdog, exception type"])

p("C09","Enumeration and subset queries return exactly the matching items",
 "Enumerating sub-blocks visits every sub-block exactly once with the index under which it can be fetched, and stops when asked to; querying a subset visits exactly those sub-blocks whose plane coordinate has every dimension of the given one with the same value, whose rectangle intersects the given region, and (if requested) that are on layer 0. Fetching by index gives the item enumerated under that index with identical description, and the same holds for attachments with their GUID, name and type filters.",
 ["inputs","configurations"],
 "all bounded sub-block sets times all query parameters (coordinate subsets, regions touching/overlapping/disjoint, layer filter, early stop), through reader and edit session",
 "Tests enumerate fixed documents with one or two filters.",
 ["CZIReader.cpp","CziReaderCommon.cpp","CziReaderWriter.cpp","CziUtils.cpp","CziSubBlockDirectory.cpp"],
 [("CziReaderCommon::EnumSubset / EnumerateSubset","CziReaderCommon.cpp"),("CziUtils::CompareCoordinate","CziUtils.cpp"),("TryGetSubBlockInfo, TryGetSubBlockInfoOfArbitrarySubBlockInChannel, ReadSubBlock, ReadAttachment","CZIReader.cpp, CziReaderWriter.cpp")],
 ["ISubBlockRepository, IAttachmentRepository"])

p("C10","Tile composition equals painting the tiles in order",
 "The single-channel composite of a region of a plane equals the picture obtained by filling it with the requested background (leaving it untouched if none is requested) and painting every layer-0 tile of that plane and of the allowed scenes that intersects the region, in ascending M-order if sorting is on, each clipped to the region and converted to the requested pixel type. Nothing outside the requested region of the destination is written and every call leaves the destination unlocked.",
 ["inputs","configurations"],
 "all arrangements of up to a few overlapping tiles on a small grid, all M-orders, regions (negative, partial, outside), backgrounds, scene filters, pixel types and option combinations",
 "Tests compose a couple of fixed arrangements.",
 ["SingleChannelTileAccessor.cpp","SingleChannelAccessorBase.cpp","SingleChannelTileCompositor.cpp","BitmapOperations.cpp","BitmapOperations.hpp"],
 [("CSingleChannelTileAccessor::Get / InternalGet / ComposeTiles","SingleChannelTileAccessor.cpp"),("Compositors::ComposeSingleChannelTiles","SingleChannelTileCompositor.cpp"),("CBitmapOperations::CopyWithOffset","BitmapOperations.cpp")],
 ["pixels of the returned/filled bitmap"])

p("C11","Performance options never change the composed picture",
 "Turning on visibility-based skipping of tiles or supplying a sub-block cache (empty, warm, shared between accessors or pruned at any moment) never changes a single pixel of what a tile accessor returns for a document whose sub-blocks can be decoded and converted to the requested pixel type, nor whether it succeeds.",
 ["configurations","inputs","histories"],
 "all bounded tile arrangements and request sequences, run with every combination of the options and compared with the run without them, including mask-aware requests sharing one cache",
 "Tests compare only particular arrangements; the optimisation decides per arrangement which tiles to skip.",
 ["SingleChannelAccessorBase.cpp","SingleChannelTileAccessor.cpp","SingleChannelScalingTileAccessor.cpp","subblock_cache.cpp","utilities.cpp"],
 [("CSingleChannelAccessorBase::CheckForVisibility / GetSubBlockDataIncludingMaskForSubBlockIndex","SingleChannelAccessorBase.cpp"),("RectangleCoverageCalculator","utilities.cpp"),("SubBlockCache","subblock_cache.cpp")],
 ["pixels of composites with and without the option"])

p("C12","Scaled and pyramid-level composition use the right layer and geometry",
 "The scaling accessor returns, for any region and zoom, a picture of the advertised size in which every pixel shows the nearest source pixel of the topmost covering tile of the pyramid layer fitting the zoom (per scene: the coarsest layer present in the region whose resolution is sufficient up to a tolerance of 5 percent, else the finest one), or background where no tile covers it; a pixel that falls exactly on the right or lower border of a tile may show that tile or what lies beneath. The pyramid-level accessor returns for any region and level exactly the tiles of that level, placed at their scaled-down position.",
 ["inputs","configurations"],
 "all bounded arrangements of layer-0 and pyramid tiles over one or two scenes, times regions, zooms and pyramid levels",
 "Tests exercise a few zoom values on fixed documents.",
 ["SingleChannelScalingTileAccessor.cpp","SingleChannelPyramidLevelTileAccessor.cpp","BitmapOperations.hpp"],
 [("CSingleChannelScalingTileAccessor::InternalGet / GetIdxOf1stSubBlockWithZoomGreater / ScaleBlt","SingleChannelScalingTileAccessor.cpp"),("CSingleChannelPyramidLevelTileAccessor::GetSubBlocks / CalcPyramidLayerNo","SingleChannelPyramidLevelTileAccessor.cpp"),("CBitmapOperations::NNResize","BitmapOperations.hpp")],
 ["pixels of the composite"])

p("C13","The sub-block cache is linearizable and evicts least-recently-used first",
 "Under any interleaving of adding, fetching, pruning and querying from several threads, the cache behaves as if the calls happened one after the other: a fetch returns the most recently added bitmap for that index or nothing if none was added or it was evicted, and the reported element count and memory usage match the elements held. Pruning removes elements strictly in least-recently-used order and only until both given limits are met.",
 ["schedules","histories"],
 "all interleavings (at lock granularity) of 2-3 threads with 1-3 operations each; all sequential operation histories up to a bounded length",
 "Tests run a few sequential scenarios; schedules are not controlled.",
 ["subblock_cache.cpp","subblock_cache.h"],
 [("SubBlockCache::Add / Get / Prune / GetStatistics under mutex_","subblock_cache.cpp")],
 ["results of ISubBlockCache calls"])

p("C14","A reader may be used from several threads at once",
 "Concurrent calls on one opened reader (queries, reading sub-blocks, attachments and metadata, and composing through accessors sharing a cache) give each caller exactly what it would get alone, under every interleaving of their accesses to the underlying stream and locks, without data races; if one of them closes the reader, the others give their result or report an error.",
 ["schedules"],
 "all interleavings of 2-3 threads at stream-access and lock granularity up to a preemption bound, plus a race-detector pass over the same bodies",
 "No test uses a reader concurrently.",
 ["CZIReader.cpp","CziParse.cpp","CziSubBlock.cpp","StreamImpl.cpp","subblock_cache.cpp","libCZI_Site.cpp"],
 [("CCZIReader (immutable after Open)","CZIReader.cpp"),("CSubBlockDirectory","CziSubBlockDirectory.cpp")],
 ["results of the concurrent calls"])

p("C15","Compression round-trips losslessly for every bitmap",
 "Compressing a bitmap of any supported pixel type, width, height and line stride with zstd (with or without header, with or without hi/lo byte packing, at any level) or losslessly with JPEG XR, and decoding the result, gives back exactly the same pixels; the result never exceeds the advertised maximum size, and a destination that is too small is reported rather than overrun. Sub-block data whose stored size does not match its description is decoded per the documented rules: missing lines become black and surplus is ignored when the lenient mode is requested, otherwise an error is raised.",
 ["inputs","configurations"],
 "all small widths/heights/strides times pixel types, parameter combinations, data patterns, destination sizes and size mismatches",
 "Tests use a few sizes; stride padding, odd sizes, tiny bitmaps and 3-component 16-bit types are rarely combined.",
 ["zstdCompress.cpp","decoder_zstd.cpp","decoder.cpp","jxrlibcompress.cpp","CreateBitmap.cpp","utilities.cpp","utilities_simd.cpp","libCZI_compress.h"],
 [("ZstdCompress::CompressZStd0 / CompressZStd1 and Alloc variants","zstdCompress.cpp"),("CZstd0Decoder / CZstd1Decoder","decoder_zstd.cpp"),("LoHiBytePackUnpack","utilities.cpp, utilities_simd.cpp"),("CreateBitmapFromSubBlock and the size-mismatch handling","CreateBitmap.cpp")],
 ["decoded pixels"])

p("C16","Bitmap copying, filling, converting and resizing are exact and in bounds",
 "Copying a bitmap to any position of another writes exactly the overlapping pixels, each converted by the rule for that pair of pixel types, and touches nothing else; filling sets exactly the region; the optional tile border changes only edge pixels; nearest-neighbour resizing (of the whole bitmap or of a region into a region) gives each destination pixel the source pixel nearest to its linearly mapped position; all for every size, stride and offset without accessing memory outside either bitmap. The MD5 checksum of a bitmap or memory block covers exactly the pixels of its lines (or bytes of the block), whatever the padding contains.",
 ["inputs"],
 "all small source/destination sizes, strides, offsets (including fully outside), supported pixel-type pairs and border options",
 "Tests use a few positions and pixel types.",
 ["BitmapOperations.cpp","BitmapOperations.hpp","BitmapOperations.h","utilities.cpp"],
 [("CBitmapOperations::CopyWithOffset / Copy / CopyWithOffsetAndMask / Fill* / NNResize*","BitmapOperations.cpp"),("pixel converters","BitmapOperations.hpp")],
 ["all pixels of the destination including guard bytes"])

p("C17","Bitonal bitmap operations are exact bit-for-bit",
 "Reading, setting and filling pixels of a one-bit bitmap, copying a bitmap through a one-bit mask at any position, and decimating it by the documented rule (a result pixel is set exactly if all source pixels in its neighbourhood that lie inside the bitmap are set) give for every size, stride, region and position exactly the bits a per-pixel definition gives; no other pixel and no byte outside of the lines of the bitmap is touched.",
 ["inputs"],
 "all small widths/heights/strides (crossing byte and 32-bit boundaries), all regions, offsets and bit patterns within bounds",
 "Tests sample a few bit patterns; word-boundary handling is size dependent.",
 ["BitmapOperationsBitonal.cpp","BitmapOperationsBitonal.h","bitmapData.h","libCZI_Pixels.cpp"],
 [("BitonalBitmapOperations / BitmapOperationsBitonal::Set, Fill, Decimate, CopyAt, CopyWithOffsetAndMask","BitmapOperationsBitonal.cpp")],
 ["all bits of the bitmaps including guard bytes"])

p("C18","Mask-aware composition paints exactly the valid pixels",
 "When mask-awareness is requested, a tile carrying a valid-pixel mask in its sub-block attachment contributes exactly its pixels marked valid (pixels of the tile beyond the extent of the mask count as invalid) and lower tiles or the background show through elsewhere; when it is not requested masks have no effect. A sub-block attachment holding any sequence of chunks is enumerated completely and in order, and an attachment without a proper mask means no mask.",
 ["inputs","configurations"],
 "all arrangements of up to three overlapping tiles with/without masks of every small shape, all chunk-container layouts up to a few chunks, and all truncations of them",
 "Tests use one or two hand-made masks.",
 ["SubblockAttachmentAccessor.cpp","SubblockAttachmentAccessor.h","SingleChannelTileAccessor.cpp","SingleChannelAccessorBase.cpp","SingleChannelTileCompositor.cpp","SubblockMetadata.cpp"],
 [("SubblockAttachmentAccessor::EnumerateChunksInChunkContainer / GetValidPixelMaskFromChunkContainer","SubblockAttachmentAccessor.cpp"),("ComposeMaskAware","SingleChannelTileCompositor.cpp")],
 ["pixels of the composite; enumerated chunks"])

p("C19","Multi-channel composition follows the stated formula for every pixel",
 "The multi-channel composite of any set of equally sized channel bitmaps equals, per pixel and colour component, the clamped sum over channels of weight times the channel value after black/white-point or look-up-table mapping and tinting, for every supported combination of pixel types, weights, tints, look-up tables and destination pixel type including the alpha output. Look-up tables built from black/white point, gamma or splines have the requested length, are zero below the black point, maximal from the white point on, and in between are the clamped samples of the stated curve.",
 ["inputs","configurations"],
 "all channel counts 1-3, pixel types, tint/weight/black-white/LUT combinations and representative pixel values, widths and strides",
 "Tests check a few channel combinations; the optimised per-case code paths are selected by the combination of parameters.",
 ["MultiChannelCompositor.cpp","libCZI_Utilities.cpp","splines.cpp"],
 [("Compositors::ComposeMultiChannel_Bgr24 / _Bgra32","MultiChannelCompositor.cpp"),("Utils::Create8BitLookUpTableFromGamma / FromSplines","libCZI_Utilities.cpp")],
 ["pixels of the composite"])

p("C20","Coordinates, bounds and index sets survive text conversion and enumeration",
 "Converting any plane coordinate or dimension bounds to its text form and parsing it back gives an equal value, and every text (of a coordinate, bounds, an index set or compression options) is either rejected or parsed to the value it denotes - never to something else and never with undefined behaviour. Setting, clearing and querying dimensions behave like a map from dimension to value, comparing coordinates is a consistent ordering, and enumerating all coordinates of a bounds visits every coordinate in it exactly once.",
 ["inputs","histories"],
 "all coordinates/bounds over small dimension subsets and edge values, all short texts over the relevant alphabet, all bounded set/clear sequences",
 "Tests parse a couple of strings.",
 ["DimCoordinate.cpp","libCZI_DimCoordinate.h","IndexSet.cpp","IndexSet.h","libCZI_Utilities.cpp","CziUtils.cpp"],
 [("CDimCoordinate::Parse, CDimBounds::Parse, Utils::StringToDimBounds / DimCoordinateToString / DimBoundsToString","DimCoordinate.cpp, libCZI_Utilities.cpp"),("CIndexSet","IndexSet.cpp"),("Utils::EnumAllCoordinates, Utils::Compare","libCZI_Utilities.cpp")],
 ["parsed values, texts, enumerated coordinates"])

p("C21","Metadata written through the builder reads back with the same meaning",
 "Everything put into document metadata through the metadata builder and its helpers (dimension sizes, channel ids/names/pixel types, general document information, scaling, display settings, custom values) is found again with the same value when the produced XML is parsed by the metadata reader, for any text content; setting one item never alters another. The metadata attached to a sub-block (tags, stage position, format of its attachment) is reported as stored; XML that is not well-formed is reported as such by every call.",
 ["inputs","histories"],
 "all bounded sequences of builder operations over an alphabet of paths and values (including XML-special and non-ASCII text, extreme numbers)",
 "Tests set a few values; combinations and order are not explored.",
 ["CziMetadataBuilder.cpp","CziMetadata.cpp","CziMetadataDocumentInfo2.cpp","CziMetadataDocumentInfo.cpp","CziDisplaySettings.cpp","CziDimensionInfo.cpp","XmlNodeWrapper.h"],
 [("MetadataUtils::*","CziMetadataBuilder.cpp"),("XmlNodeWrapperBase / XmlNodeWrapperThrowExcp path handling","XmlNodeWrapper.h"),("CCziMetadataDocumentInfo::*","CziMetadataDocumentInfo2.cpp"),("CDisplaySettingsOnPod / CDisplaySettingsWrapper","CziDisplaySettings.cpp")],
 ["values reported by ICziMultiDimensionDocumentInfo, IDisplaySettings and IXmlNodeRead after parsing"])

p("C22","The C interface is faithful and safe for every call sequence",
 "Every function of the C interface called with any combination of valid, released or null arguments in any order returns an error code or succeeds with exactly the data the C++ interface gives; objects stay usable until released, whatever else has been released before (a bitmap outlives its sub-block, a sub-block its reader), every object is released exactly once, no memory is leaked, and a locked bitmap cannot be released.",
 ["histories","inputs"],
 "all bounded call sequences over an alphabet of C functions and object slots (live, released, null, of another type)",
 "Tests follow a few straight-line sequences.",
 ["Src/libCZIAPI/src/libCZIApi.cpp","Src/libCZIAPI/src/sharedptrwrapper.h","Src/libCZIAPI/src/parameterhelpers.cpp"],
 [("SharedPtrWrapper","Src/libCZIAPI/src/sharedptrwrapper.h"),("libCZI_* functions","Src/libCZIAPI/src/libCZIApi.cpp")],
 ["return codes, returned data, AddressSanitizer/leak accounting"])

p("C23","Stream implementations read and write exactly the requested bytes",
 "Every stream (file, memory, http) reads exactly the bytes stored at the requested offset, reporting how many were available up to the end of the data; reading past the end is not an error, whereas a failing request is never reported as data. Every output stream writes exactly the given bytes at the given offset without disturbing others, for any order, size and overlap of requests and also when the operating system completes them partially or interrupts them. An existing file is never overwritten or truncated unless that was requested, and the options given for a stream (redirections, user agent, cookie, token, proxy) are those it uses.",
 ["histories","fault_sequences","configurations"],
 "all bounded sequences of reads/writes over edge offsets and sizes on every stream implementation, with every position of a partial or failing system call, and every way of answering of an http server",
 "Tests do not inject partial system calls and use one stream.",
 ["StreamImpl.cpp","StreamImpl.h","StreamsLib/preadfileinputstream.cpp","StreamsLib/simplefileinputstream.cpp","StreamsLib/curlhttpinputstream.cpp","StreamsLib/streamsFactory.cpp"],
 [("C*StreamImpl*::Read / Write","StreamImpl.cpp"),("PreadFileInputStream, SimpleFileInputStream","StreamsLib/preadfileinputstream.cpp, StreamsLib/simplefileinputstream.cpp")],
 ["bytes delivered / file content"])

p("C24","Bitmap locking is balanced everywhere",
 "Locking a bitmap any number of times, from any number of threads, gives pointers to the same stable pixel memory until the matching number of unlocks; unlocking more often than locking is reported as an error and does not disturb the count. Every library operation that takes bitmaps - including one that fails half-way - leaves each bitmap's lock count as it found it.",
 ["histories","schedules","fault_sequences"],
 "all bounded lock/unlock sequences per bitmap class, all interleavings of two threads, and every library operation with bitmaps whose lock fails at the n-th lock",
 "Tests check one or two unbalanced sequences.",
 ["bitmapData.h","libCZI_Pixels.h","libCZI_Pixels.cpp","CreateBitmap.cpp"],
 [("CBitmapData::Lock / Unlock / GetLockCount","bitmapData.h"),("ScopedBitmapLocker","libCZI_Pixels.h")],
 ["GetLockCount, exceptions"])

p("C25","Documents of other origin open as documented, options decide strictness",
 "A document is read - and can be edited - the same whatever order its segments and the dimensions of its entries have, however much unused space or rubbish lies between them, and whether or not sizes in use are given. With strict validation Open refuses (parse error) every document whose sub-block directory lacks X or Y in an entry, or has another dimension with a size or stored size other than 1, or an M of size other than 1 (tolerated for pyramid sub-blocks with ignore_sizem_for_pyramid_subblocks); without it all of these open and are described as the directory says. If a sub-block's own header differs from its directory entry (pixel type, compression, coordinate, M-index, position, size, stored size), reading it fails unless discrepancies are to be ignored, and then the description comes from the source given precedence; a document without such deviations behaves the same under all options; options of one Open do not carry over to the next.",
 ["inputs","configurations","histories"],
 "all orders of segments/dimensions, all small sets of deviations of an entry or between entry and header, times all option sets; sequences of opens with one reader",
 "Tests cover one file per rule with a fixed order and one option set.",
 ["CZIReader.cpp","CziParse.cpp","CziParse.h","libCZI.h","CziReaderWriter.cpp"],
 [("CCZIReader::Open / ReadSubBlock","CZIReader.cpp"),("CCZIParse::AddEntryToSubBlockDirectory / ReadSubBlock / ReadSubBlockDirectory","CziParse.cpp"),("ICZIReader::OpenOptions","libCZI.h")],
 ["LibCZICZIParseException from Open/ReadSubBlock, sub-block description and payload"])

p("C26","A user-supplied site object never changes results",
 "With a site object installed by the user, whatever memory layout its bitmaps have (line padding, alignment to components, initial content), whatever decoders it supplies and whichever log levels it enables: every decoded, composed, scaled, converted or multi-channel picture, all compressed data and the display settings read equal those with the default site; bitmaps for results are allocated with the site's CreateBitmap and nothing outside of them is accessed; every Lock of a bitmap is matched by an Unlock. If the site fails at any of its calls (bitmap, lock, decoder), the error is reported to the caller, all bitmaps are released, and the next request is right. Releasing a library bitmap which is still locked asks the site to terminate exactly once. Once a site object is installed, installing another is refused and the first stays in use.",
 ["inputs","configurations","faults","histories"],
 "all layouts x operations x pixel types x compressions within bounds; failure of each single call to the site in turn; all lock/unlock/release histories up to a depth; repeated installing",
 "Tests run with the default site and tightly packed bitmaps.",
 ["libCZI_Site.cpp","libCZI_Site.h","bitmapData.h","BitmapOperations.cpp","CreateBitmap.cpp"],
 [("SetSiteObject / GetSite / CSiteBase","libCZI_Site.cpp"),("CreateBitmapFromSubBlock_*","CreateBitmap.cpp"),("CBitmapData::Lock / Unlock","bitmapData.h")],
 ["pixels, calls received by the site, live bitmaps and locks, errors"])

p("C27","Readers, writers and editors refuse calls in the wrong state, without effect",
 "For every sequence of opening/creating (with usable and unusable documents or streams), queries, edits and closing on one reader, writer or editor object: a call without an open document - before the first opening, after a failed one, after closing (an editor may instead go on working after Close, then consistently) - reports an error, as does opening while a document is open; none of these has any effect on the document, the object or the stream offered. A reader or writer which is used again behaves as a new one. The stream is released on closing, on failed opening and with the object. Sub-blocks, attachments and metadata handed out keep their content when the object is closed, re-used or gone; an accessor keeps its reader, and fails while that is closed.",
 ["histories"],
 "all sequences of life-cycle operations up to a depth on each kind of object, with all queries in each state",
 "Tests open one document per object and close it.",
 ["CZIReader.cpp","CziReaderWriter.cpp","CziWriter.cpp"],
 [("CCZIReader::Open / Close / ThrowIfNotOperational","CZIReader.cpp"),("CCziReaderWriter::Create / Close / ThrowIfNotOperational","CziReaderWriter.cpp"),("CCziWriter::Create / Close / Reset","CziWriter.cpp")],
 ["errors, answers of queries, document written, references to the stream"])

with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
for x in P: assert len(x["title"])<=80,x["id"]
