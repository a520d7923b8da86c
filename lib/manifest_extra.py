"""Deciding method and level note per claimed property (used by gen_manifest.py)."""
_cache = " Trusts: the recorded log (guarded hooks under the library's own locks, values from the driver), sequential consistency, and context switches at instrumented shared accesses and pthread calls."
CH = {
 "C01": ("recorded executions of TLC-generated client programs under a controlled scheduler validated against the cache specification",
         "Every value a reader gets is compared with the content map of the specification, for generated programs of 1-3 threads on up to 4 files in both formats, budgets from 0 bytes up, with random, priority-based and run-to-block schedules." + _cache),
 "C02": ("clock-cache model checked (refinement of the abstract cache); recorded executions validated against it",
         "Model checked exhaustively for 2 threads, 3 blocks. On the code every pin, unpin and eviction event must be one the specification allows and no pin may remain at quiescence." + _cache),
 "C03": ("clock-cache model checked (refinement, bound invariant); recorded executions validated against it",
         "Accounting is compared after every load, eviction and removal and the statistics at every quiescent point; a load needs room or every resident block in use since the thread pinned its block." + _cache),
 "C04": ("liveness of the clock-cache model checked; TLC-generated programs run to completion under a controlled scheduler",
         "Termination under weak fairness is model checked (2 threads, 3 blocks, budgets of one block and below one). On the code, deadlock, a step bound and a wall-clock bound decide." + _cache),
 "C05": ("recorded life-cycle histories (open, close, copy, assign, clear, resize, reorder) validated against the cache specification",
         "Generated histories over shared and private fields under AddressSanitizer and multi threaded under the controlled scheduler; values, pins, accounting and removal are all validated." + _cache),
 "S02": ("array model of dense and staggered fields model checked; TLC-generated operation histories replayed on the code",
         "Every voxel, face, window, mapping and comparison is checked after every operation of simulated histories over two to three fields (windows up to 36 voxels, six voxel types), under AddressSanitizer. Trusts the driver; contents after a resize are unspecified."),
 "S03": ('iterator state machine model checked; TLC-generated iterator scripts replayed on every structure',
         'Carry stepping is model checked to enumerate boxes (small windows, every sub-box). On the code each script (whole, sub-box, block, empty boxes, copies, assignments, partial steps) runs on dense, sparse, demand-loaded, generic and staggered iterators, const and writable, and positions, values and ends are compared at every step; block and grain bounds are compared exactly. Windows up to 64 voxels.'),
 "I01": ('trilinear blend on the integer quarter-voxel lattice model checked; TLC-generated write/sample histories replayed on every interpolator',
         'Exactness at centres, boundedness and clamping outside are model checked on small windows at every lattice position. On the code every interpolator class and structure (dense, sparse, demand-loaded, field interface, staggered faces and cells, world space) is compared at generated positions inside, at the edges of and far outside windows up to 60 voxels, six voxel types. Positions off the quarter lattice are not compared; LinearSparseFieldInterp does not compile for single precision vectors with the installed Imath.'),
 "N01": ('TLA+ (Patterns, FileSeq) model-checked with TLC; TLC-simulated pattern lists and sequence strings replayed on match() and FileSequence',
         'glob semantics, inclusion/exclusion accumulation, frame-sequence expansion'),
 "M01": ('typed-map model of metadata model checked; TLC-generated set/copy/store histories replayed on fields and files of both formats',
         'Every entry and the number of entries of every type is compared after every step, on three field structures, in memory and after round trips through both formats, with odd names (empty, slashes, long, non-ASCII, reserved) and extreme values, under AddressSanitizer. Where HDF5 cannot hold the entries the write has to report failure.'),
 "X01": ('curve model checked; TLC-generated sample/extents/clone/file histories replayed on the mapping classes',
         'The interpolation of time samples is model checked on small curves. On the code every position transform (world, voxel, local, with and without time, directions, voxel size, near/far), identity relation and round trip through both formats is compared with exact rational images after every step of histories over three mappings. Positions are on the quarter lattice of local space; blends of different lenses with uniform slices are only checked for invertibility.'),
 "F01": ('file content model (encode/decode) model checked; TLC-generated fields written and read back through the real files',
         'On the model decoding an encoded field gives it back and only a matching request is served, for all small resolutions. On the code every voxel, allocation flag, empty value, window, mapping, name and metadata entry of generated dense, sparse, staggered and multi-resolution fields of all six types is compared after a round trip through Ogawa and HDF5, with 1-8 threads and with and without demand loading, under AddressSanitizer.'),
 "F02": ('file organisation model (partitions, numbering, listings, queries) model checked; TLC-generated write histories replayed on both formats',
         'Faithfulness of the file organisation is model checked for all write histories of bounded length. On the code every name listing and every read call (by name, by partition, all, generic, proxies) of generated files is compared with the model. Layer order is not compared; layers whose writing failed may or may not be listed by name but must not be readable.'),
 "F03": ('two writers and two readers over four paths, model checked; TLC-generated open/create/close histories replayed on both formats',
         'The model checked machine has one writer, one reader and two paths; the replayed histories use two of each, four paths, junk files, missing directories, no-overwrite mode and re-creation. After every step each reader must report exactly the contents of the file it opened last.'),
 "F05": ('container model (append, patch root pointer, mark) model checked for every stop and cut; recorded write operations of TLC-generated files replayed as crash images',
         "On the model every prefix of the writer's words and every cut is checked. On the code all operation prefixes of small files (a sample of large ones), partly done operations and cuts at the head, the tail, record boundaries and random places are read back by name and in bulk, with and without demand loading, under AddressSanitizer; write failures (disk full) are injected in Ogawa at any operation, in HDF5 from some operation on. Operations are taken to reach the disk in order."),
 "F04": ('model-based: TLA+ pipeline spec checked by TLC (prefix order, liveness), TLC-generated scenarios run on the real thread pools under a controlled scheduler',
         'spec/WriterPipeline.tla exhaustively; spec/WriterGen.tla scenarios x 400 schedules'),
 "R01": ('TLA+ model checked with TLC (spec/RefCount.tla); programs generated from spec/RefGen.tla run on the real reference counts under a controlled scheduler; recorded executions validated against spec/RefTrace.tla with TLC',
         'Interleavings at every access to shared memory and pthread call are explored by seeded policies (random, priority change points, hot addresses); sequentially consistent memory'),
 "R02": ('TLA+ model checked with TLC (spec/RefCount.tla with the cache); programs generated from spec/RefGen.tla run on the real field cache under a controlled scheduler; recorded executions validated against spec/RefTrace.tla with TLC',
         'Contents tell file version, partition, layer and type; identity is required while the field most recently read is alive'),
 "P01": ('TLA+ model checked with TLC (spec/MIPLazy.tla, safety and liveness); programs generated from spec/MIPGen.tla run on real lazily loaded fields, one thread under ASan and several under a controlled scheduler',
         'Ogawa, HDF5 and custom load actions; a level is loaded at most once per field and every thread sees it complete'),
 "P02": ('TLA+ model checked with TLC (spec/MIPBuild.tla); bases and expected levels generated from spec/MIPBuildGen.tla compared with fields built by the real code, under ASan with 1 to 4 threads and under a controlled scheduler',
         'Box, minimum, maximum and the first triangle level are exact; Gaussian and Mitchell are held to bounds, constants and dense/sparse and thread-count agreement'),
}
