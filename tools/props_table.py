H = ["src/hnsw.rs"]
NA = {}
prop("C01", "Concurrent use never deadlocks, hangs or panics",
 "Any number of threads may at the same time call any mix of insertion (single or batch), search (plain, filtered, batch), counting, iteration, lookup, flattening and dump operations on one shared index, whatever its parameters and even when it is still empty. Every call returns after a bounded number of steps without panicking, the index stays usable, and dropping it afterwards returns too.",
 ["schedules", "programs", "configurations"],
 "all interleavings of 2-4 caller threads and 1-4 pool workers, all mixes of calls, all index parameters",
 "The tests insert from one pool batch and check nothing about interleavings; a lock-order inversion between two insertions needs a preemption between two particular lock operations.",
 ["src/hnsw.rs", "src/hnswio.rs", "src/flatten.rs"], [("insertion and linking back", "src/hnsw.rs insert_slice, reverse_update_neighborhood_simple"), ("read guards held by iterators", "src/hnsw.rs IterPoint"), ("drop", "src/hnsw.rs Drop for PointIndexation")],
 "Deadlock = no runnable simulated thread; hang = step limit; any library panic or abnormal process end is a violation.")
prop("C02", "Every inserted point is stored exactly once and can be looked up",
 "After any concurrent mix of single and batch insertions has returned, the point count, the per-layer counts and iteration agree with the set of insertions made: each point is present exactly once, with the id and vector it was inserted with, under a (layer, rank) identifier no other point shares and through which its data can be looked up. While insertions run, the reported count lies between the number of completed and the number of started insertions and never decreases.",
 ["schedules", "histories"],
 "all interleavings of concurrent insertion calls of all four kinds, all level draws",
 "Tests look at counts after one batch on a lightly loaded pool; duplicated ranks or lost updates need two threads inside the numbering code.",
 H, [("rank numbering and storage", "src/hnsw.rs generate_new_point"), ("lookups", "src/hnsw.rs get_point_data, get_layer_nb_point, iterators")],
 "Oracle: the recorded insertion history.")
prop("C03", "Neighbour lists are always well formed, even while insertions run",
 "At every moment, including in the middle of concurrent insertions, every stored point's neighbour list in every layer is sorted by increasing distance, contains no point twice and not the point itself, records the true distance of each neighbour and holds at most M entries (2M in the bottom layer). Every entry names a point that was inserted, and once insertions have returned the entry's identifier leads to exactly that stored point.",
 ["schedules", "histories", "configurations"],
 "all interleavings of inserting threads and of a reader auditing the lists at arbitrary points",
 "No test reads the lists while another thread updates them; the tests check them only through search results.",
 H, [("forward lists", "src/hnsw.rs insert_slice, select_neighbours"), ("linking back and shrinking", "src/hnsw.rs reverse_update_neighborhood_simple"), ("public view", "src/hnsw.rs Point::get_neighborhood_id")],
 "Distances are integers in f32, so exact comparison is sound.")
prop("C04", "The reported top layer is the highest occupied layer",
 "Once concurrent insertions have returned, the reported top layer is exactly the highest layer that holds a point, every point is stored in the layer its identifier names, and iteration over all layers yields every point. While insertions run the reported top layer never decreases, never reaches the configured number of layers and never exceeds the highest layer holding a point.",
 ["schedules", "histories"],
 "all interleavings of insertions, in particular of the first ones and of those that open a new layer",
 "The window between reading and replacing the entry point is a few instructions wide and only matters for the first points or when two points of different new layers race.",
 H, [("entry point", "src/hnsw.rs check_entry_point, insert_slice"), ("reader", "src/hnsw.rs get_max_level_observed")],
 "Oracle: per-layer contents.")
prop("C05", "Exhaustive search on a small index is exact, even under races",
 "On an index configured with a single layer, holding at most 2M points and searched with a width of at least the number of points (a width below the number of neighbours asked counts as that number), the answer is exactly the k nearest inserted points, whatever threads inserted them in whatever interleaving. This holds during insertion too: no point whose insertion returned before the search began is missing in favour of a farther one. With any number of layers the same exactness holds once insertions have returned, as long as the index holds at most M points.",
 ["schedules", "histories", "inputs"],
 "all interleavings of insertions and searches, all construction widths, vectors with ties and duplicates",
 "Tests measure approximate recall after construction, so a point lost by a race stays below their tolerance.",
 H, [("linking of concurrent points", "src/hnsw.rs insert_slice, get_or_init_entry_point, reverse_update_neighborhood_simple"), ("search", "src/hnsw.rs search_layer, search_filter")],
 "The regime is the one where the algorithm is provably exact: lists never overflow so nothing is ever shrunk.")
prop("C06", "Every search answer is sound, even while insertions run",
 "Whatever insertions run at the same time, a search returns at most k results, sorted by distance, without repetition, each being a point whose insertion had begun before the search ended, with the true distance between the query and that point's vector and the identifier under which the point is stored. If at least one insertion returned before the search began and k is at least one, the answer is not empty.",
 ["schedules", "histories"],
 "all interleavings of searches and insertions, all k, widths and index parameters",
 "Tests search only when nothing else runs.",
 H, [("layer search", "src/hnsw.rs search_layer"), ("top level search", "src/hnsw.rs search, search_filter")],
 "Answers are judged against the history stamped with global event numbers.")
prop("C07", "Batch search equals one-by-one search, in request order",
 "When no insertion runs, a batch search returns one answer per request, in request order, and each equals what a single search for that request returns. This holds for any number of pool threads, any interleaving of them, several simultaneous batches and an empty batch or index. No search, single or batch, changes anything observable in the index.",
 ["schedules", "inputs"],
 "all interleavings of the pool workers executing the batch, 1-4 workers, up to several concurrent batches",
 "Tests run one batch and look at aggregate recall; a misplaced answer needs a particular completion order.",
 H, [("distribution and reordering", "src/hnsw.rs parallel_search")],
 "The whole observable index is compared before and after the searches. Calls are made from plain threads and from pool tasks, in batches of up to 1100 requests.")
prop("C08", "Filtered search returns only accepted points",
 "A filtered search never returns a point the filter rejects, whatever insertions run at the same time, and otherwise satisfies the soundness rules of plain search; when the filter accepts nothing the answer is empty. Searched with a width, or a number of neighbours, of at least the number of points, a quiescent single-layer index of at most 2M points, or an index of any number of layers and at most M points, returns exactly the k nearest accepted points.",
 ["schedules", "inputs", "histories"],
 "all interleavings with insertions, predicate and id-list filters from accepting everything to accepting nothing",
 "Tests use filters that always accept some points near the query.",
 H + ["src/filter.rs"], [("filter application", "src/hnsw.rs search_layer, search_filter"), ("filter kinds", "src/filter.rs")],
 "")
prop("C09", "Iteration is a consistent snapshot, during insertions and on an empty index",
 "An iteration over all points, or over one layer, that starts while other threads insert ends without panic or deadlock, yields no point twice, yields layer by layer in rank order, yields every point whose insertion had returned before the iteration began and no point whose insertion had not begun before it ended. On an empty index it yields nothing.",
 ["schedules", "histories"],
 "all interleavings of iterators, counters and insertions",
 "Tests iterate only after construction, over a filled index.",
 H, [("iterators", "src/hnsw.rs IterPoint, IterPointLayer")],
 "")

IO = ["src/hnswio.rs"]
prop("C10", "Dropping an index releases everything it held",
 "When an index is dropped, after any concurrent use and from any thread, every vector and point it stored is released, except points the caller still holds, which stay valid and are released with the last handle. Repeating the cycle build, search, dump, reload (in memory, memory-mapped, graph only, as a data map, or refused because the dump is damaged or of another type) and drop, in one thread or several, leaves no growing memory, no open file and no file mapping behind.",
 ["histories", "schedules", "configurations"],
 "all interleavings of the concurrent phase and of simultaneous drops; every kind of reload cycle",
 "Points refer to each other in cycles, so a missed cleanup leaks silently; no test counts memory, files or mappings.",
 H + IO + ["src/datamap.rs"], [("cycle-breaking drop", "src/hnsw.rs Drop for PointIndexation"), ("reload error paths", "src/hnswio.rs load_point_indexation"), ("mapping lifetime", "src/datamap.rs, src/hnswio.rs HnswIo")],
 "Elements with a counted Clone/Drop; heap counted by the simulator's allocator; descriptors and mappings read from /proc/self.")
prop("C11", "A panic in a user distance or filter stays confined to its own call",
 "When the user's distance or filter function panics during an insertion or a search, only that call (or the batch it belongs to) fails: calls running at the same time on other threads and all later calls return normally, with sound answers. Afterwards every point whose insertion had returned normally is still counted, stored with its vector and neighbour lists that are well formed, and found by exhaustive search of a small single-layer index; the index can be grown, searched, dumped, reloaded and dropped.",
 ["fault_sequences", "schedules"],
 "panics at every evaluation position of every kind of call, in all interleavings with 1-3 other threads and pool workers",
 "No test has a panicking callback; a lock left held or a half-registered point only shows when another thread comes next.",
 H, [("critical sections around user code", "src/hnsw.rs insert_slice, reverse_update_neighborhood_simple, search_layer"), ("storage before linking", "src/hnsw.rs generate_new_point")],
 "Panics are unwound (panic=abort builds are outside).")
prop("C12", "Dump then reload gives back the same index",
 "An index dumped without faults, alone or while other threads search it or dump it under other names, and reloaded in memory or memory-mapped, with or without giving the distance, by one thread or several at once, is observably the same index: parameters, level scale, dimension, distance, every point's id, vector, identifier and layer, every neighbour list, and the answers to searches. A graph-only reload gives the same graph; the dump leaves the original index unchanged, is written under the requested name and replaces an older dump of that name entirely.",
 ["inputs", "schedules", "configurations"],
 "five element types, vectors of equal and different lengths, indexes built sequentially and concurrently with any parameters, concurrent dumps and searches",
 "Tests round-trip a few f32 indexes and compare mostly counts and one search.",
 IO + H, [("dump", "src/hnswio.rs dump, HnswIoT, file_dump"), ("reload", "src/hnswio.rs load_hnsw, load_point_indexation, load_point_graph, load_point_data")],
 "Answers are compared exactly when the reloaded lists come back in the same order, otherwise for soundness.")
prop("C13", "A dump under disk faults never reports a false success",
 "When opening, writing or flushing fails, the disk fills up or writes are short while an index is dumped, the dump either reports success and the files reload as exactly that index, or returns an error without panicking; faults that only interrupt or shorten a write must not make it fail. In both cases the index in memory is unchanged and usable, other dumps in the directory are untouched, whatever the failed dump left is never reloaded as a different index, and a later dump succeeds once the fault is gone.",
 ["fault_sequences", "inputs", "schedules"],
 "errors, short writes, interruptions and full disks at every file operation of a dump, next to concurrent searches and another dump",
 "Tests never see a disk fault.",
 IO, [("buffered writers and final flush", "src/hnswio.rs file_dump, DumpInit"), ("error propagation", "src/hnswio.rs dump")],
 "Faults are injected at the libc boundary, below the buffering.")
prop("C14", "A crash during a dump never yields a wrong index on reload",
 "If the process dies at any file operation of a dump, with the last write possibly torn, or power is lost afterwards so that each file keeps only some prefix of what was written, then every kind of reload of that name either fails with an error or gives exactly the dumped index (or exactly the older index dumped under that name). If the dump had returned and its files are complete, every reload succeeds; the restarted process can always dump again under the same name.",
 ["crash_points", "inputs"],
 "a crash at every file operation with every torn length, and power loss with every pair of prefixes",
 "Tests cannot stop in the middle of a dump.",
 IO + ["src/datamap.rs"], [("length and magic checks on reload", "src/hnswio.rs load_description, load_point, load_point_indexation"), ("data file checks", "src/datamap.rs from_hnswdump")],
 "Each file keeps a prefix of its writes; cross-file order is arbitrary under power loss.")
prop("C15", "A reload under disk faults fails cleanly or is exact",
 "When opening, reading, mapping or measuring the files fails or reads are short or interrupted while an index is reloaded or its vectors are opened as a data map, the call returns an error without panicking or gives exactly the dumped content; faults that only interrupt or shorten a read, or that only prevent mapping, must not make it fail. The dump files are never modified and the same reloader succeeds once the faults have stopped.",
 ["fault_sequences", "inputs"],
 "errors, short reads and interruptions at every file operation of a reload",
 "Tests never see a disk fault.",
 IO + ["src/datamap.rs"], [("reload", "src/hnswio.rs load_hnsw, load_hnsw_with_dist"), ("data map", "src/datamap.rs from_hnswdump")],
 "A mapping failure falls back to reading in memory for an index; a data map must then report an error.")
prop("C16", "A dump from a memory-mapped index never overwrites existing files",
 "When an index reloaded with memory mapping is dumped, no file that existed before is modified: if the requested name is taken by any of its files the dump goes to a fresh name, which is reported, differs between concurrent dumps and reloads as exactly the dumped index, however many dumps of that name there are already; a free name is used as it is. The mapped indexes and the dump they map stay intact throughout, including under injected open and stat errors and colliding random names.",
 ["schedules", "fault_sequences", "histories"],
 "all interleavings of 1-3 simultaneous dumps from one or two mapped indexes, with colliding random draws and errors",
 "The existing test does one dump over one existing name.",
 IO, [("choice of a fresh name", "src/hnswio.rs DumpInit::new, reserve_basename"), ("mapped flag", "src/hnsw.rs file_dump, datamap_opt")],
 "Random names come from simulated entropy, so collisions are driven on purpose.")
prop("C17", "Memory mapping changes nothing but where vectors live",
 "An index reloaded with memory mapping, whatever the mapping threshold, is the same index with the same vectors and gives the same answers as when reloaded in memory, for concurrent readers too. A data map opened on a dump gives for every dumped id exactly the dumped vector, enumerates the ids in file order, counts them, reports the type and distance of the dump, and gives nothing for an unknown id.",
 ["inputs", "schedules", "configurations"],
 "five element types, equal and different vector lengths, all thresholds, concurrent readers",
 "Tests map one f32 dump with the default threshold.",
 IO + ["src/datamap.rs"], [("mapped vectors", "src/hnswio.rs load_point, src/datamap.rs get_data"), ("vector access", "src/hnsw.rs Point::get_v")],
 "Ids are distinct, as documented.")
prop("C18", "A reloaded index can be grown, dumped and reloaded again and again",
 "An index that was reloaded, in memory or memory-mapped, accepts concurrent insertions and searches like the original one: afterwards old points are where they were, new ones are stored once, all neighbour lists and answers are sound, and the level scale is the one of the dumped index. Its dump reloads to exactly the grown index, over any number of cycles.",
 ["histories", "schedules"],
 "1-3 cycles of reload, concurrent growth and dump, mixing mapped and unmapped cycles",
 "Tests do a single such cycle sequentially.",
 IO + H, [("rank numbering after reload", "src/hnswio.rs load_point_indexation"), ("level scale after reload", "src/hnswio.rs load_description, src/hnsw.rs LayerGenerator")],
 "Random entropy and schedules are drawn per run.")
prop("C19", "A reload of the wrong or damaged files is refused",
 "Reloading with an element type or a distance other than the dumped one, with a file missing, a directory in its place, a file that is not a dump or is shorter than what was dumped, or with graph and data files of dumps that hold different points, returns an error: it neither panics, exits, hangs, nor returns an index. A data map refuses a wrong element type, and missing, foreign or truncated files it depends on; the refusal does not disturb a later reload of a valid dump.",
 ["inputs", "fault_sequences"],
 "all truncation lengths, foreign contents, swapped files, five element types and two distances",
 "Tests reload only dumps they just wrote correctly.",
 IO + ["src/datamap.rs"], [("header checks", "src/hnswio.rs load_description, load_hnsw"), ("data header checks", "src/hnswio.rs load_point_data, src/datamap.rs from_hnswdump")],
 "Arbitrary corruption inside a file of the right length is not promised: the format has no checksum.")
prop("C20", "Flattening reproduces the neighbour lists exactly",
 "Flattening an index that is not being modified, also after a full, mapped or graph-only reload, gives for every stored id exactly the neighbours it has in all layers, sorted by distance, nothing for any other id, and nothing for an empty index. Flattening while insertions run ends, contains every id whose insertion had returned, and lists only inserted points at their true distance.",
 ["schedules", "inputs", "histories"],
 "all interleavings of flattening and insertions; indexes of any parameters",
 "The existing test looks at one id of one index.",
 ["src/flatten.rs", "src/hnsw.rs"], [("flattening", "src/flatten.rs From<&Hnsw>, flatten_point")],
 "Compared as multisets, since neighbours at equal distance have no order.")
prop("C21", "The C interface does what the Rust interface does and reports errors as values",
 "Through the exported C functions, for every element type, every distance name and a C callback distance: created indexes store what is inserted (one by one or in batches) with its id; searches, single or batch and from several threads, answer every query in order with distinct inserted ids at their true distance, nearest first, at most k, and exactly the nearest ones when the index is small (at most M points, or 2M in a single layer) and the search width, or the number of neighbours asked, covers it. A dump that reports 1 is under the given name and reloads, through C and through Rust, to the same points, vectors, parameters and graph, and its description states its parameters; the caller's buffers may be reused after each call. An unknown distance name, a loader of another type or distance, a missing file, a dump the index cannot make and injected file errors give a null pointer or -1, never an abort, and leave the index usable.",
 ["inputs", "programs", "schedules", "fault_sequences"],
 "all call sequences on one or two indexes with concurrent searches and batches, all file errors during dump, reload and description",
 "No test calls the C interface; an abort across the C boundary or a wrong length kills the calling program, and error paths need failing files.",
 ["src/libext.rs", "src/api.rs"], [("exported functions", "src/libext.rs"), ("object interface", "src/api.rs AnnT for Hnsw"), ("dump naming", "src/api.rs file_dump, src/hnswio.rs DumpInit")],
 "Insertion takes a mutable handle in C, so it is not run concurrently with searches of the same index; two indexes are used concurrently.")
prop("C22", "Clock jumps never change results or cause a failure",
 "Whatever jumps the system clocks make, forward or backward, while an index is built, searched, dumped, reloaded, grown and dropped, no call panics or fails, searches stay sound and the reloaded index equals the dumped one.",
 ["fault_sequences", "schedules"],
 "wall-clock jumps at every reading of the clock",
 "Tests run with a clock that only moves forward.",
 H + IO, [("elapsed-time reports", "src/hnsw.rs Drop, src/hnswio.rs load_hnsw")],
 "Wall and CPU clocks are simulated at the libc boundary.")
prop("C23", "Search quality does not depend on how the index was built",
 "On 200 uniformly distributed points in 8 dimensions with M between 8 and 24, construction width 100 and search width 100, mean recall of the 10 nearest neighbours is at least 0.95, and at least 95% of the stored points are found by searching for themselves. This holds for insertion one by one, by several threads or in parallel batches, with any schedule, level draw and candidate-selection option, and after a dump and reload.",
 ["schedules", "configurations", "inputs"],
 "random data, level draws and interleavings for all ways of building",
 "Tests print recall and check it loosely on one schedule; islands unreachable in the bottom layer appear only for some level draws and schedules.",
 H, [("layer descent during insertion", "src/hnsw.rs insert_slice, search_layer"), ("reverse links", "src/hnsw.rs reverse_update_neighborhood_simple"), ("neighbour selection", "src/hnsw.rs select_neighbours")],
 "Measured minimum over 10^4 builds on the repaired tree is 0.99.")
prop("C24", "Points spread over the layers by the exponential law",
 "Whatever the way of insertion (one by one, several threads, batches), the number of points reaching layer l follows the exponential law P(level >= l) = M^(-l/f), with f the factor given to modify_level_scale (1 by default); draws beyond the configured last layer are spread evenly over all layers, and no point is ever placed outside the configured layers. Points added after a dump and reload follow the same law as before.",
 ["inputs", "schedules", "configurations", "histories"],
 "all level draws of populations of 300 to 1000 points, M from 2 to 16, all scale factors and layer limits, all ways of insertion",
 "Tests use one scale and print the populations; the hierarchy's logarithmic search cost rests on this law and nothing fails functionally when it is lost.",
 H + ["src/hnswio.rs"], [("level draw", "src/hnsw.rs LayerGenerator"), ("scale restored at reload", "src/hnswio.rs load_point_indexation")],
 "Randomness is simulated from the run's seed. The factor is clamped to [0.2, 1] by the library. Bounds leave 6 standard deviations plus a margin, so that a run of correct code fails with negligible probability.")
prop("C25", "A dump taken while points are inserted is a usable snapshot",
 "A dump that runs at the same time as insertions and searches on the same index ends, and succeeds if the index held a point when it began. Every dump that reports success reloads, into memory, memory-mapped, graph only or as a data map, to a well-formed index that holds every point whose insertion had returned before the dump began and no point whose insertion began after it ended, each with its own vector; it can be searched, grown and dumped again. When all points lie in the bottom layer and lists never overflow, exhaustive search on it misses no point whose insertion had returned before the dump. The insertions themselves are unharmed.",
 ["schedules", "histories", "configurations"],
 "all interleavings of one or several dumps with single and batch insertions and searches",
 "Tests dump only when nothing else runs; an inconsistent snapshot needs an insertion to fall between two steps of the dump.",
 ["src/hnswio.rs", "src/api.rs", "src/hnsw.rs"], [("dump of all layers", "src/hnswio.rs PointIndexation dump, dump_layers"), ("entry", "src/hnsw.rs file_dump, src/api.rs"), ("storage of new points", "src/hnsw.rs generate_new_point")],
 "Exactness across several layers is not promised for insertions still in progress when the dump is taken: the top layer of a point may be stored before it is the entry point.")
prop("C26", "Dumps written by earlier releases still reload",
 "A dump in one of the two earlier formats reloads in every way to the index that was dumped: points, vectors, ids, neighbour lists, entry point and parameters, with the default level scale, which those formats do not record. A request to map the vectors is honoured for format 3 and falls back to memory for format 2, whose data a data map refuses. Under read, open and mapping faults the reload fails with an error or is exact. The reloaded index can be grown, dumped and reloaded.",
 ["inputs", "fault_sequences", "configurations"],
 "all index shapes and element types, both formats, all ways of reloading, all injected read-side faults",
 "No test holds a dump of an earlier format, so the code that reads them is never run.",
 ["src/hnswio.rs", "src/datamap.rs"], [("format selection", "src/hnswio.rs load_description"), ("vectors of format 2 and 3", "src/hnswio.rs load_point_data, skip_point_data"), ("version check", "src/datamap.rs from_hnswdump")],
 "The harness rewrites a dump of the current format into the earlier ones, field by field as the loader's own documentation of the formats describes.")
prop("C27", "Dumps and reloads touch no files but their own",
 "A dump creates or replaces exactly the two files of the name it reports, and reports the name it was given (a memory-mapped index may take a fresh one); a dump that fails touches only the files of the name asked for, or those it reserved. Reloads of every kind, data maps and descriptions, whether they succeed or are refused, create, change and remove nothing and work on a medium that cannot be written. This holds next to other dumps and reloads in the same directory, among files and directories with similar names, and under disk faults.",
 ["fault_sequences", "schedules", "inputs"],
 "all sequences of simultaneous dumps and reloads, names that extend each other, occupied names, missing files and directories, read-only media, disk faults",
 "Tests use one name per test and never look at the rest of the directory.",
 ["src/hnswio.rs", "src/datamap.rs", "src/libext.rs"], [("file names and opening for writing", "src/hnswio.rs DumpInit, reserve_basename"), ("opening for reading", "src/hnswio.rs HnswIo init, src/datamap.rs from_hnswdump, src/libext.rs load_hnsw_description")],
 "The whole tree under the scratch directory is compared byte by byte before and after each phase; opening any file for writing outside it is noticed too.")
prop("C28", "Memory use follows the points stored, not the numbers asked for",
 "A new index takes no more memory than a table entry for each announced element, insertions take no more than the vectors and a bounded amount for each point, and a search, whatever the requested number of neighbours and search width, up to the largest integers, takes memory only in proportion to the points present and answers as if both had been the number of points. The same holds for any construction width. A dump and a data map need no copy of the vectors, a reload in memory holds them once, and a memory-mapped reload does not hold the vectors it maps in memory at all.",
 ["configurations", "schedules", "inputs"],
 "all announced sizes up to 10^7, widths and numbers of neighbours up to the largest integer, vectors of up to 200000 elements, all mixes of concurrent calls",
 "Tests use moderate sizes and widths and never measure or limit memory.",
 ["src/hnsw.rs", "src/hnswio.rs", "src/datamap.rs"], [("tables of a new index", "src/hnsw.rs PointIndexation::new"), ("heaps of a search", "src/hnsw.rs search_layer"), ("reading of vectors", "src/hnswio.rs load_point, skip_point_data"), ("mapped vectors", "src/datamap.rs from_hnswdump, get_data")],
 "The simulated allocator refuses whatever exceeds the bound of the phase (a few times what is measured), which is reported as the violation; the proportional parts do not depend on the length of vectors where none may be copied.")
