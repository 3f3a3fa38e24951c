import json
P=[]
def p(id,title,st,over,qt,why,files,mech,state=None,obs=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if obs: a["observe_at"]=obs
    a["hook_needed"]=hook
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=st,quantifier={"over":over,"text":qt},why_tests_cant=why,anchors=a))
C="pasture-core/src/containers/"
A="pasture-algorithms/src/"
I="pasture-io/src/"
p("C01","A point buffer always equals the list of points its users wrote",
 "After any history of pushes, appends, resizes, clears, swaps, overwrites and in-place transformations, a point buffer of any storage kind (interleaved, columnar, externally owned memory) reports exactly the length and exactly the points and attribute values that a plain list of points subjected to the same operations would hold. Every access path (single and ranged raw access, references, typed, converting and raw attribute views, untyped points, slices) returns that same content. The content does not depend on hash seeds or on where memory happens to be allocated.",
 ["histories","inputs","configurations"],"all operation histories of several interleaved users x point layouts x storage kinds x access paths x hash seeds x memory placements",
 "Unit tests run a handful of fixed two- or three-operation sequences on two fixed layouts and compare one access path at a time.",
 [C+"point_buffer.rs",C+"buffer_views.rs",C+"raw_attribute_view.rs",C+"untyped_point.rs"],
 [("one byte-range computation per access path, all from the layout",C+"point_buffer.rs: get_byte_range_of_*"),("per-attribute columns kept in step with one length",C+"point_buffer.rs: HashMapBuffer")],
 [("storage / attributes_storage","the raw bytes of the points",C+"point_buffer.rs"),("length","number of points",C+"point_buffer.rs")],
 ["BorrowedBuffer","BorrowedMutBuffer","OwningBuffer","views and iterators"])
p("C02","A failed buffer operation never leaves a torn buffer",
 "If a buffer operation is cut short, because an allocation fails, a caller-supplied predicate, transformation, source buffer or iterator panics, or the arguments are rejected, the buffer afterwards still has one common length for all attributes and every point outside the addressed range is unchanged. Every addressed attribute value is either its old value, its complete new value or the zero value of a freshly added point (for an interrupted layout conversion, possibly an intermediate value inside the target range), and data moved by the operation is neither lost nor duplicated. Later operations on the buffer and on its source behave as on any other buffer.",
 ["fault_sequences","histories"],"all operation histories x every point at which an allocation or a user callback can fail inside an operation",
 "No existing test injects an allocation failure or a panicking callback; the tests only cover operations that complete.",
 [C+"point_buffer.rs","pasture-core/src/layout/conversion/buffer_conversion.rs"],
 [("length updated after the storage",C+"point_buffer.rs: push_points, resize, append*"),("whole-point commits",C+"point_buffer.rs: HashMapBufferAttributePusher::done")],
 [("length vs. column sizes","must agree after every operation",C+"point_buffer.rs: HashMapBuffer")])
p("C03","A slice reads and writes exactly its own range",
 "A slice of a point buffer, however deeply nested and whether immutable or mutable, has the length of its range and maps its indices one to one onto that range of the parent. Writes, swaps and transformations through it change exactly the addressed points of the parent. Any access outside the slice's own length is rejected without any effect, while every sub-range of a slice, including the full range and empty ranges, can be sliced again.",
 ["histories","inputs"],"all nestings of slices x all histories of operations through them, valid and invalid x storage kinds",
 "The tests slice a few fixed ranges once and never access past a slice's end or re-slice the full range.",
 [C+"slice.rs"],
 [("local to global index translation with bounds check",C+"slice.rs: get_and_check_global_point_index/range")],
 [("point_range","the slice's range in its parent",C+"slice.rs")])
p("C04","Iterators yield every point exactly once, in order, however they are driven",
 "Any iterator over the points or attribute values of a buffer or slice, by value, by reference, by mutable reference or with conversion, yields exactly the buffer's values in order, each once, under any mix of stepping, skipping, nth, collecting and pausing, interleaved with any other iterators. Once exhausted it keeps returning nothing, whatever is asked of it. Mutable iterators never hand out the same point twice and what is written through them is what the buffer then holds.",
 ["histories","schedules"],"all interleavings of calls on several live iterators x skip distances (including past the end and extreme values) x storage kinds x buffer lengths including empty",
 "Tests call nth with three fixed distances on one 16-point buffer; interleavings, repeated skips past the end and empty buffers are not reached.",
 [C+"point_iterators.rs",C+"attribute_iterators.rs",C+"buffer_views.rs"],
 [("current_index compared with the buffer length",C+"point_iterators.rs, attribute_iterators.rs")],
 [("current_index","position of the iterator",C+"point_iterators.rs, attribute_iterators.rs")])
p("C05","Layout conversion is exact per point and independent of how it is split up",
 "Converting points between layouts gives every target point, for each mapped attribute, exactly the documented conversion (with any attached transformation, applied once per point) of its own source point, and leaves unmapped attributes, points outside the target range and the source unchanged. The result is the same for every storage kind of source and target and for every way the range is split into consecutive conversions, including ones that were interrupted by a failing transformation and repeated.",
 ["histories","configurations","fault_sequences"],"all layout pairs and mapping sets x storage kinds x partitions of the range and interruption points",
 "The tests convert whole buffers between a few fixed layouts and never split, interrupt or resume a conversion.",
 ["pasture-core/src/layout/conversion/buffer_conversion.rs","pasture-core/src/layout/conversion/attribute_conversion.rs"],
 [("one conversion path per storage pair, chunk buffers sized from the mappings","pasture-core/src/layout/conversion/buffer_conversion.rs: convert_*_to_*")],
 [("mappings","source attribute, target attribute, converter, transformation","pasture-core/src/layout/conversion/buffer_conversion.rs")])
p("C06","Filtering and collecting keep exactly the selected points, in order",
 "Filtering a columnar buffer into any storage kind yields exactly the points the predicate accepts, complete and in their original order, and filtering into an existing buffer changes only the leading points it fills. Collecting any iterator of points, whatever it says about its own length, yields a buffer with exactly the points the iterator produced, in order.",
 ["histories","inputs","fault_sequences"],"all predicates x buffers x target kinds and fill states x iterators with exact, loose, wrong or missing size hints, including ones that end early or panic",
 "The tests collect only exactly sized iterators and filter with one predicate.",
 [C+"point_buffer.rs"],
 [("matches counted first, then copied column by column or point by point",C+"point_buffer.rs: filter, filter_into"),("preallocation from size_hint",C+"point_buffer.rs: FromIterator for VectorBuffer")])
p("C07","Column-wise bulk pushes commit whole points or nothing",
 "Pushing attribute data column by column into a columnar buffer makes no point visible until the push is committed, and the commit either adds complete points whose attribute values are exactly the pushed ones, in order, or is refused. A push that is abandoned, refused, given inconsistent amounts of data or interrupted by a failure leaves the buffer exactly as it was.",
 ["histories","fault_sequences"],"all histories of push sessions (order of columns, repeated and missing columns, abandoned sessions) x hash seeds x allocation failures",
 "The tests push each column once in one order and commit.",
 [C+"point_buffer.rs"],
 [("staging area plus commit",C+"point_buffer.rs: HashMapBufferAttributePusher")],
 [("num_new_points","expected points of the session",C+"point_buffer.rs: HashMapBufferAttributePusher")])
p("C08","Concurrent readers get the answers a lone reader would get",
 "Any number of threads may at the same time read, iterate, slice, convert and analyse shared buffers and layouts, including for the first time in the process, and under every interleaving each call returns exactly what it would return if it ran alone. The shared inputs are unchanged afterwards and no call blocks forever.",
 ["schedules","histories"],"all interleavings of the threads' memory accesses and synchronisation operations x per-thread programs of read-only operations x hash seeds",
 "No existing test shares a buffer between threads; the test harness cannot choose interleavings.",
 ["pasture-core/src/layout/conversion/attribute_conversion.rs",C+"buffer_views.rs",A+"bounds.rs",A+"minmax.rs",A+"normal_estimation.rs",A+"convexhull.rs",A+"voxel_grid.rs",A+"reprojection.rs"],
 [("no interior mutability in buffers and views; lazily initialised converter table","pasture-core/src/layout/conversion/attribute_conversion.rs"),("per-call projection context",A+"reprojection.rs")])
p("C09","RANSAC reports exactly the inliers of the model it returns",
 "For every thread schedule, pool size and random stream, plane and line segmentation, parallel or serial, return a model spanned by distinct points of the buffer, together with exactly the indices of the points closer to that model than the threshold, each once and in ascending order, and a ranking equal to their number. The input buffer is unchanged and its storage kind does not matter.",
 ["schedules","inputs","histories"],"all schedules of the worker threads x random streams x point sets x thresholds x iteration counts",
 "The tests run each variant once on one easy data set with whatever schedule and randomness happen to occur.",
 [A+"segmentation.rs"],
 [("hypothesis, ranking and inlier list built together per iteration",A+"segmentation.rs: generate_plane_model, generate_line_model")],
 [("ranking","number of inliers",A+"segmentation.rs: Plane, Line")])
p("C10","RANSAC returns the best of all the hypotheses it was asked to try",
 "With n iterations, plane and line segmentation try n independently and uniformly drawn hypotheses over distinct points and return one that no other tried hypothesis beats in number of inliers, under every thread schedule and pool size; the parallel variants are as good as the serial ones. In particular, a model that every sufficiently long search must meet is never missed.",
 ["schedules","histories","inputs"],"all schedules x random streams x iteration counts x point sets, judged on the returned models over many calls",
 "A test cannot tell a lost hypothesis from an unlucky draw: it controls neither the schedule nor the random stream.",
 [A+"segmentation.rs"],
 [("max_by over all iterations",A+"segmentation.rs: ransac_*"),("rejection of repeated indices",A+"segmentation.rs: generate_rng_plane, generate_rng_line")])
p("C11","A failure inside parallel segmentation reaches the caller and nothing hangs",
 "If reading a point fails inside any worker of a parallel segmentation, or its arguments are invalid, the calling thread receives the failure and never a result, under every schedule. Every call, failed or not, finishes once its workers are scheduled, other segmentations running at the same time return correct results, and later segmentations in the same process work normally.",
 ["schedules","fault_sequences"],"all schedules x fault positions (which read of which iteration in which worker) x numbers of simultaneous callers",
 "No test injects a failing buffer or runs two segmentations at once.",
 [A+"segmentation.rs"],
 [("panic propagation through the thread pool's join",A+"segmentation.rs: ransac_*_par")])
p("C12","Voxel downsampling yields one faithful point per occupied cell",
 "Downsampling produces exactly one point for every occupied grid cell, where the cells partition the input points by position, and nothing else. Each output attribute is the documented reduction (mean, maximum or a most frequent value) over exactly the points of that cell, and points already in the output buffer stay untouched. The output is the same for every storage kind and hash seed.",
 ["inputs","configurations","histories"],"all point sets x leaf sizes x layouts x storage kinds x hash seeds, including several downsamplings appended to one output",
 "The tests use one regular grid of points and whatever hash seed the process got; ties and negative values do not occur.",
 [A+"voxel_grid.rs"],
 [("sorted list of occupied cells",A+"voxel_grid.rs: voxelgrid_filter"),("per-attribute reductions",A+"voxel_grid.rs: centroid_*")])
p("C13","A convex hull encloses all points, is closed and uses only input points",
 "For points in general position the reported hull triangles form one closed surface whose every edge is shared by exactly two triangles, with all input points on or inside it, and refer only to points of the buffer; the hull points reported are exactly the corners of those triangles. The set of corners is the same for every storage kind, hash seed and order of the input points.",
 ["inputs","configurations","histories"],"all point sets in general position x insertion orders x storage kinds x hash seeds",
 "The tests check a few fixed shapes with one hash seed per process.",
 [A+"convexhull.rs"],
 [("incremental hull with edge bookkeeping in hash sets",A+"convexhull.rs")])
p("C14","The same points give the same analysis wherever and however they are stored",
 "Bounds, per-attribute extrema, normals, convex hulls of points in general position, downsampled points and reprojected coordinates of a point set are identical whether the points are stored interleaved, columnar, in external memory or seen through a slice, among whatever other attributes, at whatever memory placement and under whatever hash seed; bounds and hulls also when the positions are stored in another type that holds them exactly. Read-only analyses leave their input unchanged, and results do not depend on what the process computed before.",
 ["configurations","histories"],"all point sets x storage kinds x surrounding layouts x memory placements x hash seeds x histories of earlier calls",
 "Tests use one storage kind per algorithm and the process's one hash seed and allocator.",
 [A+"bounds.rs",A+"minmax.rs",A+"normal_estimation.rs",A+"convexhull.rs",A+"voxel_grid.rs",A+"reprojection.rs"],
 [("all algorithms go through typed attribute views",A)])
p("C15","Every flushed 3D Tiles point file holds exactly the points written to it",
 "Once flushing a .pnts writer succeeds, or the writer is dropped without an error, the destination holds one well-formed .pnts file with exactly the points written so far, in order, however the writes were batched and however the destination splits, delays or interrupts them. If the destination fails at any point, some call on the writer reports it; data written after a successful flush is never silently dropped.",
 ["fault_sequences","histories","crash_points"],"all histories of write and flush calls x layouts x short writes, interruptions, errors and full-disk points of the destination",
 "The tests write to an in-memory cursor that always accepts everything at once.",
 [I+"tiles3d/pnts_writer.rs",I+"tiles3d/feature_table.rs",I+"tiles3d/batch_table.rs"],
 [("cached points, header and tables rewritten on flush",I+"tiles3d/pnts_writer.rs: write_cached_points, flush")],
 [("cache / requires_flush","points not yet written out",I+"tiles3d/pnts_writer.rs")])
p("C16","Reading a .pnts file returns its points or an error, never anything else",
 "Reading a .pnts source in any sequence of chunk sizes returns exactly the stored points, each once, in order, with the file's origin offset applied once, however the source splits or interrupts its reads. If the source fails, ends early or is corrupt the reader reports an error instead of panicking, looping or returning points that are not in the file, and points in the target buffer beyond those reported as read are untouched.",
 ["fault_sequences","histories","crash_points"],"all histories of read calls x files x short reads, interruptions, I/O errors, truncation points and flipped bytes",
 "The tests read complete well-formed files from an in-memory cursor in one call.",
 [I+"tiles3d/pnts_reader.rs",I+"tiles3d/feature_table.rs",I+"tiles3d/batch_table.rs"],
 [("attribute-wise seek and read into a buffer",I+"tiles3d/pnts_reader.rs")],
 [("current point index","how many points were delivered",I+"tiles3d/pnts_reader.rs")])
p("C17","The text writer emits one faithful line per point or reports an error",
 "Writing points as delimited text emits exactly one line per point, in order, with the columns of the format string filled from the attributes they name, however writes are batched and however the destination splits or interrupts them. A destination failure is reported by a write or flush, and what was emitted is then a prefix of the correct text.",
 ["fault_sequences","histories"],"all format strings and delimiters x batches x short writes, interruptions, errors and full-disk points",
 "The tests write one batch to a real file and read it back.",
 [I+"ascii/raw_writer.rs",I+"ascii/ascii_writer.rs"],
 [("column by column formatting",I+"ascii/raw_writer.rs")])
p("C18","The text reader returns each line's point once and counts truthfully",
 "Reading delimited text in any sequence of chunk sizes returns exactly one point per line, in order, each attribute parsed from its column, and the reported number of points is the number actually read, also at the end of the text. The result does not depend on hash seeds or on how the source splits or interrupts its reads; malformed or failing sources yield an error, and points beyond those read are untouched.",
 ["fault_sequences","histories","crash_points"],"all texts x format strings x chunkings x short reads, interruptions, I/O errors and truncation points x hash seeds",
 "The tests read one well-formed file in one or two calls with the process's one hash seed.",
 [I+"ascii/raw_reader.rs",I+"ascii/ascii_reader.rs"],
 [("line iterator plus per-column parser",I+"ascii/raw_reader.rs")])
p("C19","A closed LAS file has a header and points that agree with what was written",
 "Once a LAS writer is flushed or closed without an error, the destination holds a file whose header counts (total and per return), bounds and record layout describe exactly the points written, in order, with all their attribute values within the file's resolution and the variable length records of the given header, however writes were batched and flushed and however the destination splits or interrupts them. If the destination fails at any point, some call on the writer reports it.",
 ["fault_sequences","histories","crash_points"],"all histories of write and flush calls x point formats x point layouts x short writes, interruptions, errors and full-disk points",
 "The tests write one batch per format to an in-memory cursor that never fails.",
 [I+"las/raw_writers.rs",I+"las/las_writer.rs",I+"las/write_helpers.rs",I+"las/las_metadata.rs"],
 [("header rewritten on flush and drop",I+"las/raw_writers.rs")],
 [("current header","point counts and bounds so far",I+"las/raw_writers.rs")])
p("C20","Reading and seeking in a LAS file always yields the stored points",
 "Any sequence of seeks and reads of any chunk size, into any supported layout and storage kind, returns exactly the stored points at the reader's position, and the position advances by exactly the number of points reported as read. Short or interrupted reads of the source change nothing; if the source fails or ends early the reader reports an error instead of panicking or returning points that are not in the file, and a later read after the source recovers returns correct points again.",
 ["fault_sequences","histories","crash_points"],"all histories of seek and read calls x point formats x target layouts x short reads, interruptions, transient errors, truncation points",
 "The tests read well-formed files from an in-memory cursor with a few fixed seeks.",
 [I+"las/raw_readers.rs",I+"las/las_reader.rs",I+"las/read_helpers.rs",I+"base/seek.rs"],
 [("stream position derived from the point index",I+"las/raw_readers.rs")],
 [("current_point_index","position of the reader",I+"las/raw_readers.rs")])
p("C28","A point file on disk holds all of its points, or using it says that it does not",
 "Writing all points of a buffer to a file by its path and reading the file by its path, at once, in chunks or appended to an existing buffer, yields exactly those points in order, whatever the file held before. If a file can't be opened, read, written or positioned, the call returns an error and an existing buffer keeps its points. If the process dies at any moment while the file is written, reading what is left yields an error or a leading part of the points, never anything else.",
 ["fault_sequences","crash_points","histories"],"all failures and interruptions of open, read, write and seek x crash points x formats, layouts and batches",
 "The tests write and read a few files on a file system that never fails and never crash in between.",
 [I+"base/mod.rs",I+"base/io_factory.rs",I+"las/las_reader.rs",I+"las/las_writer.rs",I+"tiles3d/pnts_reader.rs",I+"tiles3d/pnts_writer.rs"],
 [("format chosen by the extension of the path",I+"base/io_factory.rs")])
# not applicable ones
def na(id,title,st,over,qt,why,files,mech):
    p(id,title,st,over,qt,why,files,mech)
na("C21","Attribute offsets in a point layout never overlap and respect alignment",
 "In every point layout, however it was put together, attributes occupy disjoint byte ranges inside the point, each at an offset fitting its alignment, and lookups by name or definition find exactly the attributes that were added.",
 ["inputs"],"all sequences of attribute definitions and alignments","The tests sample a few layouts.",
 ["pasture-core/src/layout/point_layout.rs"],[("offset computation on add","pasture-core/src/layout/point_layout.rs: add_attribute")])
na("C22","Scalar attribute conversions follow the language's numeric casts",
 "Converting a single attribute value between numeric or vector types gives, per component, exactly the documented cast of that value.",
 ["inputs"],"all values of all supported type pairs","The tests sample a few values.",
 ["pasture-core/src/layout/conversion/attribute_conversion.rs"],[("converter functions","pasture-core/src/layout/conversion/attribute_conversion.rs")])
na("C23","Bounding-box arithmetic is a lattice: union, containment, intersection agree",
 "Union, extension, containment and intersection of axis-aligned boxes agree with their set-theoretic meaning for all boxes and points.",
 ["inputs"],"all boxes and points","The tests sample a few boxes.",
 ["pasture-core/src/math/bounds.rs"],[("component-wise minima and maxima","pasture-core/src/math/bounds.rs")])
na("C24","Derived point types describe the memory layout of their struct exactly",
 "A derived point type's layout lists every field with the offset, size and type the field has in memory, and unsupported structs are rejected at compile time.",
 ["programs"],"all struct definitions","The tests compile a few structs.",
 ["pasture-derive/src/lib.rs","pasture-derive/src/layout.rs"],[("derive macro","pasture-derive/src/lib.rs")])
na("C25","Normals of exactly planar neighbourhoods are the plane's normal",
 "The estimated normal of a point whose k nearest neighbours lie in one plane is that plane's unit normal, up to sign.",
 ["inputs"],"all point sets","The tests sample a few point sets.",
 [A+"normal_estimation.rs"],[("covariance eigenvector",A+"normal_estimation.rs")])
na("C26","Reprojection there and back returns to the original coordinates",
 "Reprojecting positions between two reference systems and back returns the original coordinates within the projection's accuracy.",
 ["inputs"],"all positions inside the systems' area of use","The tests sample a few positions.",
 [A+"reprojection.rs"],[("one projection per call",A+"reprojection.rs")])
na("C27","Tileset descriptions survive a JSON round trip",
 "Every tileset description serialises to JSON that parses back to the same description.",
 ["inputs"],"all tilesets","There are no tests of this.",
 [I+"tiles3d/tileset.rs"],[("serde derives",I+"tiles3d/tileset.rs")])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
