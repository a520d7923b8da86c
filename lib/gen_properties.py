#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (kept as python only to be readable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), obs=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            mechanism=[dict(name=n, where=w) for n, w in mech],
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            observe_at=list(obs), hook_needed=hook)))

prop("C01", "Demand-loaded reads always return the value stored in the file",
 "Any voxel read from a demand-loaded sparse field, by point read, iteration or linear interpolation, returns exactly the value that was written to the file. This holds for any memory budget, any order of accesses and evictions, any number of fields and files sharing the cache, and any interleaving of reading threads.",
 ["schedules", "histories", "configurations"],
 "all interleavings of reading threads x all access sequences x all budgets x several fields sharing one cache",
 "The tests read one or two files single-threaded, or with free-running threads whose interleavings are whatever the OS gives; an eviction between activation and read is a window of a few instructions.",
 ["src/SparseFile.cpp", "export/SparseFile.h", "export/SparseField.h", "src/FieldInterp.cpp", "export/SparseDataReader.h", "export/OgSparseDataReader.h"],
 [("activate/load under block mutex", "export/SparseFile.h SparseFileManager::activateBlock"),
  ("second-chance eviction", "src/SparseFile.cpp SparseFileManager::deallocateBlocks"),
  ("reference counting of blocks", "export/SparseField.h fastValue/const_iterator")],
 [("resident set", "which blocks are in memory", "SparseFile::Reference::blockLoaded"),
  ("block in-use count", "readers currently holding a block", "SparseFile::Reference::refCounts")],
 ["return values of value/fastValue/iterators/interpolators"],
 "schedule control is by compiler instrumentation of memory accesses, no hook; cache events use guarded hooks")

prop("C02", "A cached block in use is never evicted; an unused one can be",
 "While any reader (point read, iterator, copy of an iterator, interpolation, or explicit hold) is using a block of a demand-loaded field, memory pressure does not release that block. When every reader is done no block is still counted as in use, so every block can be released again.",
 ["schedules", "histories"],
 "all interleavings of readers holding blocks with cache pressure from others; all sequences of iterator creation, copy, assignment, advance and destruction",
 "No test holds an iterator while another field forces evictions, nor copies a live iterator; the window is timing dependent.",
 ["src/SparseFile.cpp", "export/SparseFile.h", "export/SparseField.h", "src/FieldInterp.cpp"],
 [("skip blocks with non-zero in-use count", "src/SparseFile.cpp deallocateBlocks"),
  ("increment/decrement around use", "export/SparseField.h SparseField::const_iterator, fastValue")],
 [("in-use count", "number of readers of a block", "SparseFile::Reference::refCounts")],
 ["block reference counts, block residency while an iterator is live"], "cache events (evict/load/hold/release) via guarded hooks")

prop("C03", "Cache memory use is accounted exactly and stays within budget",
 "The memory the block cache reports equals the size of the demand-loaded blocks resident, and the reported numbers of allocated, resident and loaded blocks agree with what happened, at every quiescent point. With a limit set, memory in use exceeds the limit by no more than what blocks in use and one block per concurrently loading thread require.",
 ["schedules", "histories", "configurations"],
 "all access/eviction/destroy/flush/limit-change histories, all interleavings of loading threads, all budgets",
 "Tests check totals after one pass; drift (a double add, a missing subtract) only appears after particular evict/destroy/flush sequences or racing loads.",
 ["src/SparseFile.cpp", "export/SparseFile.h"],
 [("memory use updated with each load/unload under one lock", "export/SparseFile.h activateBlock / src/SparseFile.cpp deallocateBlock, flushCache, removeFieldFromCache")],
 [("memory counter", "bytes held by resident blocks", "SparseFileManager::m_memUse"), ("cache list", "resident blocks in clock order", "SparseFileManager::m_blockCacheList")],
 ["memoryUse/numLoadedBlocks/totalLoadedBlocks/totalLoads/cacheSize queries"], None)

prop("C04", "Every operation on demand-loaded fields terminates",
 "Every read, iteration step, flush, limit change or destruction involving demand-loaded fields completes, whatever the budget (including one smaller than a block), whatever blocks other readers are holding, and however threads are interleaved. No operation waits for ever on a lock or for memory that cannot be released.",
 ["schedules", "histories", "configurations"],
 "all interleavings and budgets, including budgets smaller than one block and blocks pinned by the waiting thread itself",
 "A hang needs a budget below the pinned set or a specific lock order; tests never hold a block while another is loaded under a tiny budget.",
 ["src/SparseFile.cpp", "export/SparseFile.h", "export/SparseField.h"],
 [("eviction sweep terminates", "src/SparseFile.cpp deallocateBlocks"), ("lock order manager -> block", "export/SparseFile.h activateBlock")],
 [], ["completion of calls"], None)

prop("C05", "Demand-loaded fields can be destroyed, copied or changed safely",
 "Destroying, clearing, resizing, assigning over, copying or reordering a demand-loaded field at any point leaves every other field sharing the cache readable with its own values and the cache's accounting correct. A copy of a demand-loaded field has all its values and outlives the original.",
 ["histories", "schedules"],
 "all sequences of open/read/copy/assign/clear/resize/destroy/evict over fields sharing the cache",
 "Tests destroy fields only at scope exit with the cache idle; dangling cache entries surface only when a later eviction walks them.",
 ["export/SparseField.h", "src/SparseFile.cpp", "export/SparseFile.h"],
 [("removal from cache on destruction", "export/SparseField.h ~SparseField / SparseFileManager::removeFieldFromCache"), ("copy loads all blocks", "export/SparseField.h SparseField::copySparseField")],
 [], ["values and statistics after the operation, memory errors under ASan"], None)

prop("S01", "A sparse field behaves as a total map from voxels to values",
 "Under any sequence of writes, reads, block empty-value changes, releases of uniform blocks, clears, resizes, block-size changes, copies and assignments, every voxel of a sparse field reads as the value most recently given to it, and no operation changes a voxel it was not applied to. A block is reported allocated only if written to, releasing blocks changes only storage and never values outside the documented tolerance, and copies are independent.",
 ["histories", "inputs", "configurations"],
 "all operation sequences over fields of all extents, data windows (including negative and disjoint from the origin) and block sizes",
 "Tests exercise short hand-written sequences at a few sizes; errors at partial edge blocks, negative origins or after release/reallocate sequences are not sampled.",
 ["export/SparseField.h", "export/Field.h"],
 [("block addressing", "export/SparseField.h getBlockCoord/getVoxelInBlock/applyDataWindowOffset"), ("block allocation on write", "export/SparseField.h fastLValue"), ("block release", "export/SparseField.h releaseBlocks / CheckAllEqual / CheckMaxAbs")],
 [("block", "allocated flag, empty value, voxels", "Sparse::SparseBlock")], ["value, lvalue, blockIsAllocated, getBlockEmptyValue, voxelCount"], None)

prop("S02", "Dense and MAC fields behave as arrays over their data window",
 "Under any sequence of writes, reads, clears, resizes, copies and assignments every voxel of a dense field, and every face value of a staggered (MAC) field, reads as the value most recently given to it and no write affects another location. The cell-centred value of a staggered field is the average of its two faces per axis, and copies are independent.",
 ["histories", "inputs", "configurations"],
 "all operation sequences over all extents and data windows",
 "Tests cover a few cubes at the origin; index arithmetic errors need non-cubic, offset windows and specific components.",
 ["export/DenseField.h", "export/MACField.h", "export/Field.h"],
 [("linear addressing", "export/DenseField.h ptr/fastValue"), ("face addressing", "export/MACField.h getCompIndex/u/v/w")],
 [], ["value, lvalue, u/v/w faces, iterators"], None)

prop("S03", "Iterators visit exactly the voxels of their box, once, in order",
 "Iterating over any field (dense, sparse in memory, sparse demand-loaded, or staggered faces) over its data window or any sub-box visits each voxel of the box exactly once in scanline order with the coordinates and the value that a point access at those coordinates gives, and stops at the end. Block-wise iteration and grain partitions cover each voxel of the window exactly once with the block bounds they report.",
 ["inputs", "configurations", "histories"],
 "all data windows, sub-boxes, block sizes and allocation patterns",
 "Tests iterate whole windows at the origin; sub-boxes cutting blocks and windows with a non-zero minimum are the untested cases.",
 ["export/SparseField.h", "export/DenseField.h", "export/MACField.h", "export/Field.h"],
 [("iterator stepping", "export/SparseField.h iterator::operator++/setupNextBlock"), ("block iterator bounds", "export/SparseField.h block_iterator::recomputeBlockBoundingBox"), ("MAC component iterators", "export/MACField.h mac_comp_iterator")],
 [], ["iterator coordinates and dereferenced values"], None)

prop("F01", "Writing then reading a field reproduces it exactly",
 "A field written to a file and read back, in either file format, for every supported field structure, precision and dimensionality, has the same extents, data window, name and attribute, the same value at every voxel, the same sparse block structure and empty values, the same metadata and an equivalent spatial mapping. Requesting a different precision is served only by the matching-typed read calls, and writing a structure the format cannot hold (staggered fields in Ogawa) reports failure.",
 ["inputs", "configurations"],
 "all extents/windows/block sizes/allocation patterns/values x {dense, sparse, staggered, multi-resolution} x {half, float, double} x {scalar, vector} x {Ogawa, HDF5} x {in-memory, demand-loaded}",
 "Tests round-trip a few cubes per type and compare few voxels; layout errors for partial blocks, odd sizes, single-voxel fields, or particular mapping kinds go unseen.",
 ["src/DenseFieldIO.cpp", "src/SparseFieldIO.cpp", "src/MACFieldIO.cpp", "src/MIPFieldIO.cpp", "src/Field3DFile.cpp", "src/Field3DFileHDF5.cpp", "src/FieldMappingIO.cpp", "include/OgIO.h"],
 [("per-type read/write", "src/*FieldIO.cpp"), ("layer attributes", "src/Field3DFile.cpp writeLayer/readLayer")],
 [], ["read-back field"], None)

prop("F02", "Partitions and layers read back as they were organised when written",
 "For any sequence of layer writes, reading reports exactly the set of partition names and, in each, exactly the layer names that were written; each layer is returned with its own contents and the mapping its field had when written, also when several mappings share one partition name or a layer name is written twice. Name-based queries and reads select exactly the matching layers and nothing else.",
 ["histories", "inputs"],
 "all sequences of writes over small sets of partition/layer names (including names with dots and duplicates), mappings and field types",
 "Tests write a handful of distinct names; collisions, repeated names, and interleaved mappings are combinatorial.",
 ["src/Field3DFile.cpp", "export/Field3DFile.h", "src/Field3DFileHDF5.cpp"],
 [("internal partition naming", "src/Field3DFile.cpp intPartitionName/removeUniqueId/makeIntPartitionName"), ("layer lookup", "export/Field3DFile.h readScalarLayers/readLayers")],
 [("partitions", "list of (internal name, mapping, layers)", "Field3DFileBase::m_partitions")], ["getPartitionNames, getScalarLayerNames, readScalarLayers..."], None)

prop("F03", "A file object can be reused and never mixes up files",
 "After any sequence of opens, creates, closes, reads and writes on the same or different file objects, successful or failed, in either format, a reading object reports exactly the contents of the file it opened last, and a writing object's file contains exactly what was written since that file was created. Creating a file in no-overwrite mode fails and leaves an existing file untouched, and opening something that is not a readable file fails.",
 ["histories", "fault_sequences"],
 "all open/create/close/read/write histories over several objects, files and formats",
 "Tests use a fresh object per file; state left behind by a previous open or create is not exercised.",
 ["src/Field3DFile.cpp", "export/Field3DFile.h", "src/Field3DFileHDF5.cpp"],
 [("reset on open/create/close", "src/Field3DFile.cpp open/create/closeInternal/clear")],
 [("format delegate", "HDF5 fallback object", "Field3DFileBase::m_hdf5Base")], ["return codes, names and values read"], None)

prop("F04", "Multi-threaded writing gives the single-threaded file and completes",
 "Writing sparse fields with any number of I/O threads and under any interleaving terminates and produces a file whose every block holds its own data, identical in content to the file written with one thread. This holds for every pattern of allocated and unallocated blocks, including none and all.",
 ["schedules", "inputs", "configurations"],
 "all interleavings of writer threads x all block allocation patterns x thread counts",
 "The test-suite writes with one fixed pattern and whatever schedule the OS picks; the lost-turn window is a few instructions wide.",
 ["src/SparseFieldIO.cpp"],
 [("ordered hand-off of block writing", "src/SparseFieldIO.cpp WriteBlockOp")],
 [("next block to write", "turn variable", "src/SparseFieldIO.cpp ThreadingState")], ["file bytes, completion"], None)

prop("F05", "An interrupted or truncated file never yields wrong data",
 "If writing a file stops after any prefix of its write operations, or the finished file is cut short at any byte, opening and reading it either fails or reports only layers whose contents are exactly what was written; it neither crashes nor returns altered values. Only after the writer has closed the file is it marked complete, and every layer is then present.",
 ["crash_points", "inputs"],
 "every prefix of the sequence of file writes, every truncation length of a finished file",
 "No test interrupts a writer or truncates a file.",
 ["src/OStream.cpp", "src/OGroup.cpp", "src/OArchive.cpp", "src/IStreams.cpp", "src/IGroup.cpp", "src/IData.cpp", "src/Field3DFile.cpp", "src/SparseFieldIO.cpp"],
 [("root pointer and completion mark written last", "src/OGroup.cpp freeze, src/OStream.cpp"), ("bounds checks on read", "src/IData.cpp, src/IGroup.cpp")],
 [], ["open/read results on every crash image"], None)

prop("M01", "Metadata is a typed map that survives files",
 "For every field and for the file itself, a metadata entry reads back as the value most recently set under that name and type (string, integer, float, and integer or float triple), unset names give the supplied default, and entries of different names or types do not affect one another. Writing a field or file and reading it back reproduces all its entries in either format, or the write reports a failure (HDF5 has one name space for all types and no empty names). Copying a field copies them.",
 ["histories", "inputs"],
 "all sequences of set/get/copy/write/read over names, types and values including empty strings and extreme numbers",
 "Tests set one entry of each type once.",
 ["export/FieldMetadata.h", "src/FieldMetadata.cpp", "src/Field3DFile.cpp", "src/Field3DFileHDF5.cpp", "include/OgIO.h"],
 [("maps per type", "export/FieldMetadata.h"), ("metadata IO", "src/Field3DFile.cpp writeMetadata/readMeta")], [], ["metadata accessors"], None)

prop("X01", "Spatial mappings invert, interpolate over time and survive files",
 "For every matrix or frustum mapping and any sequence of time samples (added, replaced, in any order), world-to-voxel and voxel-to-world transforms are inverse to each other at every time, the transform at a sample time is that sample, between samples it is their linear blend and outside it is the nearest one. Two mappings built from equal samples are identical and differing ones are not, and a copy or a file round trip gives an identical mapping. The reported size of a voxel is the distance between adjacent voxel centres of its slice.",
 ["inputs", "histories"],
 "all sequences of sample insertions over times and transforms, all evaluation times, copies and round trips in either format",
 "Tests use one or two samples in increasing time and never round-trip a frustum mapping in both formats.",
 ["src/FieldMapping.cpp", "export/FieldMapping.h", "export/Curve.h", "src/FieldMappingIO.cpp"],
 [("sorted sample insertion", "export/Curve.h addSample"), ("lookup by time", "export/Curve.h linear"), ("curve <-> file", "src/FieldMappingIO.cpp")],
 [("time samples", "sorted (time,value) list", "Curve::m_samples")], ["transform results"], None)

prop("P01", "Multi-resolution levels load on demand, once, and complete",
 "Any access to a level of a lazily read multi-resolution field gives the same voxels, resolution, mapping and name as reading the whole field eagerly, in whatever order or from however many threads the levels are touched. Each level is loaded at most once, no thread ever sees a partially initialised level, and copies or reassigned objects never show another object's levels.",
 ["schedules", "histories"],
 "all interleavings of threads touching levels, all orders of level access, all copy/assign/clone histories",
 "Tests touch levels from one thread; the publication window in lazy loading is a few instructions.",
 ["export/MIPField.h", "export/MIPBase.h", "src/MIPFieldIO.cpp"],
 [("double-checked lazy load", "export/MIPField.h loadLevelFromDisk"), ("lazy load actions", "src/MIPFieldIO.cpp")],
 [("level pointers", "raw and owning pointers per level", "MIPField::m_fields/m_rawFields")], ["level values, resolution, mapping"], None)

prop("P02", "Multi-resolution construction covers the base and bounds its values",
 "Building a multi-resolution field from any base field gives levels whose windows together cover the whole base window at each level, and a constant base gives constant levels. Minimum and maximum pyramids bound from below and above every base voxel each coarse voxel covers. The result does not depend on the number of threads or on whether the field is dense or sparse.",
 ["inputs", "configurations"],
 "all base extents (odd, non-cubic, negative offsets), contents, thread counts and minimum sizes",
 "Tests build pyramids for a few power-of-two cubes.",
 ["export/MIPUtil.h", "src/MIPUtil.cpp", "export/MinMaxUtil.h", "src/MinMaxUtil.cpp", "export/Resample.h", "src/Resample.cpp"],
 [("level resolution and offset", "export/MIPUtil.h makeMIP, src/MIPUtil.cpp"), ("min/max filters", "export/Resample.h MinFilter/MaxFilter")], [], ["levels of the built field"], None)

prop("R01", "A shared object is destroyed exactly once, when its last owner goes",
 "For any number of threads copying and dropping shared references to the same field, the field is destroyed exactly once and only after the last reference is gone; an object with a live reference is never destroyed. Weak observers report the object gone from then on and never hand out a destroyed object.",
 ["schedules"],
 "all interleavings of reference creation, copy and release from several threads",
 "Tests count references in one thread; the double release window is one instruction wide.",
 ["export/RefCount.h"],
 [("counter decrement and zero test", "export/RefCount.h unref/intrusive_ptr_release")], [("reference count", "number of owners", "RefBase::m_counter")], ["destructor calls"], None)

prop("R02", "The field cache returns only live fields that match the request",
 "Reading a layer while the field most recently read from the same file, partition and layer is still alive returns that same field object; otherwise a freshly read, correct field is returned. Whatever the interleaving of readers and releases, the cache never returns a destroyed field or one belonging to another file, partition, layer or data type.",
 ["schedules", "histories"],
 "all histories of reads and releases over files/partitions/layers/types, all interleavings of readers with the last release",
 "Tests read one file twice in one thread.",
 ["export/FieldCache.h", "src/FieldCache.cpp", "src/Field3DFile.cpp", "export/Field3DFile.h"],
 [("weak lookup", "export/FieldCache.h getCachedField"), ("key from file and layer path", "src/Field3DFile.cpp readField")], [("cache map", "key -> (weak, raw) pointer", "FieldCache::m_cache")], ["identity and contents of returned fields"], None)

prop("I01", "Linear interpolation is exact, local and the same for all structures",
 "Linear interpolation at any position gives the trilinear blend of the eight surrounding voxel centres with positions outside clamped to the edge voxels, so it is exact at voxel centres. The same contents give the same result whether held in a dense field, a sparse field in memory, or a demand-loaded sparse field; for staggered fields each component is blended on its own face grid.",
 ["inputs", "configurations"],
 "all positions (inside, on block borders, outside), windows, block sizes and contents",
 "Tests sample a few interior points of one size.",
 ["src/FieldInterp.cpp", "export/FieldInterp.h", "export/SparseField.h", "export/MACField.h"],
 [("corner selection and weights", "export/FieldInterp.h LinearFieldInterp, DenseField/SparseField/MACField LinearInterp")], [], ["sample results"], None)

prop("N01", "Layer patterns and file sequences select exactly what they describe",
 "A layer (name and attribute, or an attribute alone) is selected by a list of patterns exactly when it matches at least one inclusion and no exclusion, with shell-style wildcards; an empty list selects everything unless asked otherwise. A frame-sequence string expands to exactly the described file names, in order; a string that names an existing file is that file; a string without a start frame, an end frame or exactly one mark describes none.",
 ["inputs"],
 "all pattern lists over small alphabets and all names; all sequence strings of the documented syntax",
 "Tests try a handful of patterns.",
 ["src/PatternMatch.cpp", "export/PatternMatch.h", "src/FileSequence.cpp", "export/FileSequence.h"],
 [("pattern matching", "src/PatternMatch.cpp match"), ("sequence parsing", "src/FileSequence.cpp")], [], ["match(), filenames()"], None)

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
