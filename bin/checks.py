from config import check, run

check("B01",
      "A case is a random program over three bitmaps (single adds, ranges, flips, set algebra, "
      "copies, serialisation round trips) run next to an interval-set model; values lean on "
      "65536 and 2^32 boundaries. Non-trivial: at least two operations and a set of three or "
      "more values; distinct by the sequence of generator choices.",
      [run("bitmaps.cpp", 50000, 2000000)])

check("B03",
      "A case is a column of values appended to an index with given bounds (with nulls), queried "
      "with ==, <, <=, >, >= for literals at and around bounds and values, before and after "
      "reload, against a scan of the column. Non-trivial: three or more rows and more than one "
      "possible value.",
      [run("bsi.cpp", 19200, 480000)])
check("B04",
      "A case is an expression of And/Or over results (keep all, skip all, row sets loaded "
      "lazily, failing loads) or an IN/NOT IN list over an index that answers only == and !=, "
      "compared row by row with set algebra. Non-trivial: two or more operations and a result "
      "that is neither all rows nor none, or a list of two or more values matching some rows.",
      [run("index_result.cpp", 450000, 11250000)])
check("B05",
      "A case is a program of And/Or/offset/byte round trips over plain, scored and foreign "
      "results next to a model map from row to score, or a corrupted byte form. Non-trivial: two "
      "or more operations and a result of two or more rows.",
      [run("global_index.cpp", 360000, 9000000)])
check("B06",
      "A case fills a filter of given capacity and rate with edge-biased hashes, compares every "
      "bit and every answer with an independent computation and reloads it at an offset. "
      "Non-trivial: two or more distinct hashes.",
      [run("bloom.cpp", 200000, 5000000)])
check("B07",
      "A case is a sequence of 64-bit values with steps around the sizes where one more byte is "
      "needed, or arbitrary bytes. Non-trivial: two or more values.",
      [run("delta_varint.cpp", 2500000, 62500000)])
check("B08",
      "A case is a pair of lists of ranges inside a window of 64 ids placed at 0, at 2^32 and at "
      "both ends of the axis, compared with bit-set algebra, or a list of items grouped by "
      "overlap compared with connected components. Non-trivial: two or more ranges.",
      [run("ranges.cpp", 2000000, 50000000)])
check("B09",
      "A case is a list of weights and a target. Non-trivial: two or more bins, one of them with "
      "several items.",
      [run("bin_packing.cpp", 2000000, 50000000)])
check("B10",
      "A case is a program of typed writes (both byte orders, strings up to the 16-bit limit) sent "
      "to both writers, compared with an independent encoding, read back through several streams, "
      "cut at any byte, or written to a stream that fails or accepts only part. Non-trivial: two "
      "or more items and four or more bytes.",
      [run("data_streams.cpp", 138000, 3450000)])
check("B11",
      "A case is a stack of memory, window and buffer streams (also over 2 and 4 GiB, and over a "
      "stream that fails or reads short) and a program of reads and seeks next to a model of one "
      "string and a position. Non-trivial: three or more steps and one read that returned bytes.",
      [run("input_streams.cpp", 3000000, 75000000)])
check("B12",
      "A case is a byte array cut into equal pieces of 1 to 64 bytes and a program of typed "
      "accesses, bit operations, copies, searches, comparisons and hashes next to the contiguous "
      "array and a second, differently cut one. Non-trivial: two or more pieces and steps.",
      [run("segments.cpp", 1920000, 48000000)])
check("B13",
      "A case is a pair of UTF-8 texts (related: part, one byte changed, longer) placed in pieces "
      "of 1 to 64 bytes at some offset, or any bytes cut inside a character, compared with the "
      "plain strings. Non-trivial: two or more characters and a non-empty second text.",
      [run("binary_string.cpp", 1300000, 32500000)])
check("B14",
      "A case is one or two points in time between the years 0 and 9999, on and around seconds, "
      "days, leap days and the ends, compared with exact integer arithmetic and an independent "
      "calendar. Non-trivial: neither part is zero, or the two points differ.",
      [run("timestamps.cpp", 3000000, 75000000)])
check("B16",
      "A case is a descriptor written, compared with an independent layout, read back, cut at "
      "any byte or given wrong lengths. Non-trivial: uri of two or more bytes and an offset, or "
      "altered bytes.",
      [run("blob_descriptor.cpp", 2100000, 52500000)])
check("B17",
      "A case is a program of writes, flushes, reads and seeks on a file, or of creations, "
      "deletions and listings of names, next to a model and the operating system's own view; or "
      "a fault put at call k of a write-read sequence. Non-trivial: two or more writes, three or "
      "more name operations, or a fault after the first call.",
      [run("local_file.cpp", 120000, 3000000)])
check("B20",
      "A case is a program of allocations, resizes and releases next to exact accounting, owned "
      "objects whose construction may throw, pairs of byte arrays next to strings, or threads "
      "allocating at once. Non-trivial: three or more operations, or two or more bytes.",
      [run("memory.cpp", 600000, 20000000)])
check("B19",
      "A case is a number of workers, producers and tasks (some adding tasks, some throwing, some "
      "null) followed by immediate destruction or by collecting results. Non-trivial: two or more "
      "tasks or workers. Run once with address checking and once with race detection.",
      [run("executor.cpp", 36000, 900000, workers=6), run("executor.cpp", 18000, 450000, flavor="tsan", workers=6)])
check("B21",
      "A case is a program of set, merge and replace operations on three sets of counters next to "
      "maps, or threads merging at once. Non-trivial: three or more operations, or two or more "
      "merges per thread.",
      [run("metrics.cpp", 120000, 3000000), run("metrics.cpp", 4800, 150000, flavor="tsan")])
check("B22",
      "A case is a program of operations on a shared map, queue or registry next to a sequential "
      "model, or threads using one at once. Non-trivial: four or more operations, or two or more "
      "per thread. Run once with address checking and once with race detection.",
      [run("shared_containers.cpp", 90000, 2400000), run("shared_containers.cpp", 16000, 480000, flavor="tsan")])
check("B23",
      "A case is a program of insertions, assignments, erasures and copies over three ordered maps "
      "next to lists of pairs. Non-trivial: four or more operations.",
      [run("linked_map.cpp", 720000, 18000000)])
check("B25",
      "A case is one or two names over all byte values biased to the special ones, or a list of "
      "keys and values. Non-trivial: a name that needs escaping, or two or more levels.",
      [run("partition_paths.cpp", 3300000, 82500000)])
check("B26",
      "A case is a column type, optional starting statistics and a list of values and nulls. "
      "Non-trivial: two or more values.",
      [run("column_stats.cpp", 3300000, 82500000)])
check("B27",
      "A case is a program of constructions, copies, moves, combinations and assignments over "
      "statuses and results next to a model. Non-trivial: three or more operations.",
      [run("status_result.cpp", 1680000, 42000000)])
check("B28",
      "A case is a byte, a name and a mode read back as the stored kinds, or a list of deletion "
      "files written, compared to an independent encoding and read by every version. Non-trivial: "
      "a byte other than zero, or two or more files.",
      [run("stored_kinds.cpp", 1600000, 50000000)])
check("B02",
      "A case is the stored form of a row set, bit slice index, number sequence or deletion file "
      "list, cut short anywhere or with one to three bytes changed outside the row sets. "
      "Non-trivial: more than the first few bytes are left.",
      [run("decoders.cpp", 700000, 17500000)])
check("C01",
      "A case is a table layout, options and a sequence of commits, each read back at a random "
      "snapshot with a random projection and filter. Non-trivial: two or more commits and four or "
      "more rows.",
      [run("core_append.cpp", 600, 20000, lib="core")])

check("C11",
      "A case is a column, an index of it and questions about it, or a damaged index file. "
      "Non-trivial: four or more rows (three for a bloom filter), two or more columns, or a damaged "
      "file with a column.",
      [run("core_file_index.cpp", 130000, 4000000, lib="core")])

check("B24",
      "A case is a map from schemes to file systems and calls with paths of mapped, unmapped and "
      "missing schemes, some from several threads, or programs over the registry of factories. "
      "Non-trivial: two or more schemes are used.",
      [run("core_resolving.cpp", 500000, 12000000, lib="core")])
check("B29",
      "A case is a program of settings on one builder, finished one to three times, next to a "
      "record of what was set. Non-trivial: three or more settings.",
      [run("core_contexts.cpp", 80000, 2000000, lib="core")])
check("C07",
      "A case is a row or array of random types and values held in several forms, read back and "
      "compared cell by cell, or a pair of decimals compared with a decimal text model. "
      "Non-trivial: a row of two or more fields, an array of two or more elements, or decimals "
      "other than zero.",
      [run("core_rows.cpp", 300000, 8000000, lib="core")])
check("C13",
      "A case is a text or a value written as text, next to a direct computation. Non-trivial: "
      "the text has what is looked for, or the value has several parts.",
      [run("core_text.cpp", 800000, 20000000, lib="core")])
check("C02",
      "A case is a table with primary key, its merge engine, options and a sequence of commits, read "
      "back at a random snapshot with a random projection and predicate. Non-trivial: some key has "
      "two or more records.",
      [run("core_pk.cpp", 700, 20000, lib="core")])
check("C03",
      "A case is a table, a history of commits, overwrites and dropped partitions, and one failing or "
      "crashing operation of a committer or whole commits of others between two of its operations. "
      "Non-trivial: a fault struck or another commit came in between.",
      [run("core_commit.cpp", 350, 12000, lib="core")])
check("C04",
      "A case is a history of commits with expiry and cleaning in between, over files that are in use, "
      "expired or planted. Non-trivial: a snapshot was expired or a file deleted.",
      [run("core_maintain.cpp", 500, 15000, lib="core")])
check("C05",
      "A case is a few streaming scans polled between commits, overwrites, dropped partitions and expiry. "
      "Non-trivial: more than two polls, and a stream followed at least one change.",
      [run("core_stream.cpp", 1200, 40000, lib="core")])
check("C06",
      "A case is a table and its commits, read with random projections and predicates. Non-trivial: "
      "two or more commits.",
      [run("core_filter.cpp", 700, 25000, lib="core")])
check("C08",
      "A case is a table, its commits and schema changes, read with a random projection and predicate "
      "after every change. Non-trivial: rows written under an earlier schema are read.",
      [run("core_evolve.cpp", 600, 20000, lib="core")])
check("C10",
      "A case is a message, a list of messages or a split, its bytes in some version and all or many of "
      "their prefixes, or a table written and read through sent copies. Non-trivial: it names a file.",
      [run("core_sent.cpp", 2500, 60000, lib="core")])
check("C12",
      "A case is a table, its commits, positions deleted in its files and reads with random projections "
      "and predicates, a deletion vector next to a set, or one that cannot be read. Non-trivial: a row "
      "is deleted.",
      [run("core_deletions.cpp", 1200, 40000, lib="core")])
check("C14",
      "A case stores or reads a whole file over an in-memory store in which one operation fails. "
      "Non-trivial: the failure is reached, a file was there before, or the file is larger than a "
      "chunk.",
      [run("core_store.cpp", 16000, 400000, lib="core")])
check("C15",
      "A case is a program of file operations in a scratch directory next to a model tree, or one "
      "with a failure at a given step. Non-trivial: three or more changes to the tree, or the "
      "failure is reached.",
      [run("core_local_fs.cpp", 50000, 1200000, lib="core")])
check("C16",
      "A case is a program of writes, column updates, schema changes and reads of a table that "
      "tracks rows, next to a list of numbered rows. Non-trivial: more than two commits, or an index "
      "covers rows.",
      [run("core_columns.cpp", 900, 25000, lib="core")])
check("C17",
      "A case is a file of large objects written, taken apart byte by byte and read several ways, "
      "or a damaged one. Non-trivial: two or more objects, or the damaged file is refused.",
      [run("core_blob.cpp", 11000, 300000, lib="core")])
check("C09",
      "A case casts a few values of one type to another, one by one and as a column. Non-trivial: a "
      "value is not null.",
      [run("core_cast.cpp", 700000, 15000000, lib="core")])
check("C18",
      "A case is a tree of predicates asked of rows, batches and statistics, or a malformed one. "
      "Non-trivial: the answers differ over the rows, or a refusal is reached.",
      [run("core_predicates.cpp", 220000, 5000000, lib="core")])
check("C19",
      "A case is a definition of a table given to a catalog, a stored schema read back, a text naming a "
      "type, a damaged schema, or a program of catalog operations under failing storage. Non-trivial: a "
      "table is created or refused, or the schema read is a proper one.",
      [run("core_schema.cpp", 110000, 2500000, lib="core")])
check("C20",
      "A case is a batch of keys with a number of buckets. Non-trivial: more than one bucket and row.",
      [run("core_buckets.cpp", 200000, 4000000, lib="core")])
check("C21",
      "A case is a set of options given as texts. Non-trivial: an option is given or refused.",
      [run("core_settings.cpp", 250000, 5000000, lib="core")])
check("C22",
      "A case is a few partitions, buckets and external places and a program of asking for directories, "
      "new files and recorded ones. Non-trivial: a new file is placed in a partition or outside.",
      [run("core_places.cpp", 150000, 3000000, lib="core")])
check("C23",
      "A case is a table and some files made elsewhere that it takes over, some of one name and some "
      "with a failing operation, or a table that cannot. Non-trivial: two or more files are taken over, "
      "or a refusal is reached.",
      [run("core_takeover.cpp", 1700, 60000, lib="core")])
check("C24",
      "A case is a table with keys, one or two writers, up to five commits of changes and streams that "
      "follow them. Non-trivial: a commit of two or more changes is followed.",
      [run("core_changes.cpp", 900, 25000, lib="core")])
check("C25",
      "A case is a stored snapshot, a directory of snapshots with hints, a set of entries written to "
      "manifests, or manifests that are merged, some with a failing operation. Non-trivial: a snapshot with all its "
      "fields, two or more snapshots or entries, or manifests that are rewritten.",
      [run("core_stored.cpp", 6500, 150000, lib="core")])
