"""Properties of tables, metadata and reading and writing."""
from props import prop

C = "src/paimon/core/"

prop("C01", "Reading a snapshot of an append table returns exactly the rows committed",
     """After any sequence of writes and commits to a table without primary key, reading any
     snapshot returns exactly the rows committed up to it, each with the values written, whatever
     the column types, partition values, bucket layout, file, manifest, split and batch sizes. A
     projection returns exactly the chosen columns in the chosen order, and a partition or bucket
     filter returns exactly the rows of those partitions and buckets.""",
     "inputs programs configurations", """random schemas with nested types and up to two partition
     columns, one to six commits, small and large files, manifests, splits and batches, reads of
     any snapshot with random projections and filters""",
     """The integration tests read a few fixed tables; which files share a split, which manifests
     are merged and how batches are cut depends on the combination of sizes.""",
     C + "operation/append_only_file_store_write.cpp " + C + "append/append_only_writer.cpp "
     + C + "operation/append_only_file_store_scan.cpp " + C + "operation/file_store_commit_impl.cpp "
     + C + "table/source/append_only_table_read.cpp " + C + "manifest/manifest_entry.cpp",
     [("manifest writing and merging", C + "operation/manifest_file_merger.cpp"),
      ("split generation", C + "table/source/snapshot/snapshot_reader.cpp"),
      ("projection and partition columns", C + "operation/raw_file_split_read.cpp")],
     "model-based property testing through the public interface",
     """Explores random tables next to a list of rows per snapshot, over an in-memory file system
     and a stand-in for the file formats and for Arrow, which are not installed here.""",
     ["rows, columns and row kinds of every read"])

M = C + "mergetree/"

prop("C02", "A table with a primary key holds what its merge engine makes of the records",
     """After any sequence of writes and commits, reading any snapshot of a table with a primary key
     returns one row for each key, which is the outcome of merging the records of that key in the order
     of their sequence fields and then of writing: the last one, a partial update with or without
     sequence groups, or an aggregate of each field, with deletes and retractions applied or ignored as
     configured. Neither the sizes of batches, buffers, files and splits nor the sort engine changes the
     outcome, and with a predicate every matching row comes with its merged value.""",
     "inputs programs configurations", """one or two key columns, up to five value columns, up to five
     commits of up to 48 records with few distinct keys, every snapshot read with projections
     and predicates""",
     """The tests merge a few fixed records; which records meet in a batch, a flush, a file or only when
     read depends on the sizes.""",
     M + "compact/deduplicate_merge_function.h "
     + M + "compact/aggregate/aggregate_merge_function.cpp " + M + "compact/partial_update_merge_function.cpp "
     + M + "compact/sort_merge_reader_with_loser_tree.cpp " + M + "merge_tree_writer.cpp " + C + "operation/merge_file_split_read.cpp "
     + C + "operation/key_value_file_store_scan.cpp " + C + "io/key_value_in_memory_record_reader.cpp",
     [("merging while writing", M + "merge_tree_writer.cpp"),
      ("merging while reading", C + "operation/merge_file_split_read.cpp"),
      ("partial updates and sequence groups", M + "compact/partial_update_merge_function.cpp"),
      ("skipping files by key and value statistics", C + "operation/key_value_file_store_scan.cpp")],
     "model-based property testing through the public interface",
     """Explores random tables next to a model that folds the records of each key; only files as they are
     written are read, since the repository does not compact. Rows of tables that keep the first record
     of a key are readable only after compaction and are left out.""",
     ["rows of every read"])

F = "src/paimon/common/file_index/"

prop("C11", "A file index never drops a row that matches a predicate",
     """For every column and every comparison, a bitmap or bit slice index answers with exactly the
     matching rows whenever it answers with rows, and a bloom filter skips a file only when the
     value is not in it, for every stored version and block size, for several indexes in one file and
     for any order of questions. A file that is cut short or has a damaged head is refused, and a
     failed read does not change later answers.""",
     "inputs programs fault_sequences", """columns of up to 120 rows of every indexed type with nulls and
     extreme values, literals in and around the column, one failed read at any place, cuts at any
     byte, damage to the fixed part of the head""",
     """The tests read a few stored index files and ask a few questions; block boundaries, inline
     entries, negative numbers and extreme literals depend on the column.""",
     F + "bitmap/bitmap_file_index.cpp " + F + "bitmap/bitmap_file_index_meta_v1.cpp "
     + F + "bitmap/bitmap_file_index_meta_v2.cpp " + F + "bsi/bit_slice_index_bitmap_file_index.cpp "
     + F + "bloomfilter/bloom_filter_file_index.cpp " + F + "file_index_format.cpp",
     [("bitmap entries and blocks", F + "bitmap/bitmap_file_index_meta_v2.cpp"),
      ("comparisons over magnitudes", F + "bsi/bit_slice_index_bitmap_file_index.cpp"),
      ("hashing of values", F + "bloomfilter/fast_hash.cpp"),
      ("index file layout", F + "file_index_format.cpp")],
     "property testing against a scan of the column, with fault injection",
     """Explores random columns next to a scan; bit slice and bloom filter files are written by the
     harness from the format, since the library only reads them.""",
     ["rows or keep/skip answer of every question"])

U = "src/paimon/common/"

prop("B24", "A path is served by the file system of its own scheme",
     """Every operation on a path reaches the file system configured for the scheme of that path, the
     default one if none is configured, with the path, arguments and answer unchanged, and a scheme
     is set up once however many threads ask for it first. What was registered under a name is found
     under that name and no other.""",
     "inputs programs configurations", """maps of up to four schemes, paths with and without scheme and
     authority, up to eight threads, registries of all kinds of factory""",
     """The tests resolve a few fixed paths from one thread.""",
     U + "fs/resolving_file_system.cpp " + U + "factories/factory_creator.cpp "
     + U + "fs/file_system_factory.cpp",
     [("scheme lookup and cache", U + "fs/resolving_file_system.cpp"),
      ("registry of factories", U + "factories/factory_creator.cpp")],
     "model-based property testing with recording file systems",
     """Explores calls through recording stand-ins for the file systems of each scheme.""",
     ["file system reached, path, answer and error of every call"])

prop("B29", "A context holds what was set on its builder and nothing left from before",
     """A finished scan, read, write or commit context holds exactly the values set since the builder
     was made or last finished, with the documented default for everything not set and the path in
     normal form. A missing path or an impossible setting is refused.""",
     "programs", """programs of up to twelve settings, one to three contexts from one builder, all
     settings of every builder""",
     """The tests set each field once on a fresh builder; leftovers show only when a builder is used
     again after particular settings.""",
     "src/paimon/core/operation/scan_context.cpp "
     "src/paimon/core/operation/read_context.cpp src/paimon/core/operation/write_context.cpp "
     "src/paimon/core/operation/commit_context.cpp",
     [("builder reset", "src/paimon/core/operation/scan_context.cpp"),
      ("path normalisation", U + "utils/path_util.cpp")],
     "model-based property testing",
     """Explores builder programs next to a record of what was set.""",
     ["every field of every context, errors of refused ones"])

D = U + "data/"

prop("C07", "Rows, arrays and decimals give back the values put into them in every form",
     """A row or array holds exactly the values written, read through its own memory, through memory cut
     into pieces, as columns, through a selection or join of rows, nested in another row, or written out
     and read again. Rows of the same columns are equal, with equal bytes and hashes, exactly if all
     values are, and decimals compare by value across scales with exact bytes.""",
     "inputs programs", """rows of up to 70 fields and arrays of up to 70 elements of all types, nested
     twice, texts around the inline limit, pieces of 8 to 64 bytes at any offset, decimals of up to
     38 digits""",
     """The tests read a few fixed rows; which values are inline, where pieces end and which bits of
     the null mask are used depends on the combination.""",
     D + "binary_row.cpp " + D + "binary_array.cpp " + D + "abstract_binary_writer.cpp "
     + D + "binary_row_writer.cpp " + D + "binary_array_writer.cpp " + D + "decimal.cpp "
     + U + "utils/projected_row.h " + U + "utils/serialization_utils.h " + D + "columnar/columnar_row.cpp",
     [("fixed and variable part of a row", D + "abstract_binary_writer.cpp"),
      ("null bits", D + "binary_row.cpp"),
      ("columnar access", D + "columnar/columnar_row.cpp"),
      ("decimal comparison and bytes", D + "decimal.cpp")],
     "property testing of round trips and of agreement between forms",
     """Explores random rows in all forms next to the generated cells, with the address sanitizer on.""",
     ["every cell, null flag, equality, hash and row kind"])

prop("C13", "Texts, sizes, durations, dates and paths are read and put together exactly",
     """Replacing, splitting, trimming and joining texts, reading numbers, sizes, durations, dates and
     options from text, and splitting and joining paths give what a direct computation gives. What is
     malformed or out of range is refused, and a normal form is its own normal form.""",
     "inputs", """texts over small alphabets with overlaps, numbers at and beyond every limit, all
     size and duration units, dates of four-digit years, paths with schemes, authorities and repeated
     separators, lists of external paths""",
     """The tests use a few examples each; limits of every number type and overlapping matches are
     rarely among them.""",
     U + "utils/string_utils.cpp " + U + "utils/path_util.cpp " + U + "options/memory_size.cpp "
     + U + "options/time_duration.cpp " + U + "utils/options_utils.h " + U + "fs/external_path_provider.h",
     [("text search", U + "utils/string_utils.cpp"), ("path parts", U + "utils/path_util.cpp"),
      ("unit parsing", U + "options/memory_size.cpp")],
     "property testing against direct computation",
     """Explores random texts and values next to simple computations written from the description.""",
     ["every result and refusal"])

prop("C12", "Rows marked as deleted are not read, and all others are",
     """Reading a snapshot of a table with deletion vectors returns every row of its files except those
     at deleted positions, whatever the predicate, projection, batches, row groups, indexes and
     deletion files, and of a table with a primary key only rows above the lowest level. A limit on the
     number of rows never makes a plan hold fewer rows than asked for. A deletion vector holds exactly
     the positions put into it when stored and read back, and one that cannot be read makes the read
     fail.""",
     "inputs programs configurations fault_sequences", """append and primary key tables of up to four
     commits, none to all rows of a file deleted, vectors that grow from snapshot to snapshot or are
     carried over, several vectors in an index file, index files in the table, in the bucket and
     elsewhere; positions up to the largest allowed""",
     """The tests read a few stored tables with deletions; positions, row groups, batches, and the
     selection an index makes have to line up.""",
     C + "deletionvectors/deletion_vector.cpp " + C + "deletionvectors/bitmap_deletion_vector.h "
     + C + "deletionvectors/apply_deletion_vector_batch_reader.h " + C + "operation/raw_file_split_read.cpp "
     + C + "operation/merge_file_split_read.cpp " + C + "table/source/snapshot/snapshot_reader.cpp "
     + C + "index/index_file_handler.cpp " + C + "table/source/data_table_batch_scan.cpp",
     [("finding the vector of a file", C + "table/source/snapshot/snapshot_reader.cpp"),
      ("leaving out rows", C + "operation/raw_file_split_read.cpp"),
      ("leaving out rows before merging", C + "deletionvectors/apply_deletion_vector_batch_reader.h"),
      ("stored form", C + "deletionvectors/bitmap_deletion_vector.h")],
     "model-based property testing through the public interface",
     """Explores random tables whose index manifests and deletion files are written by the check, next
     to the rows of each file.""",
     ["rows of every read", "positions in a vector"])

prop("C14", "Storing a whole file reports success only if all of it is stored",
     """If storing a file succeeds, the file has exactly the given content, whichever operation of the
     store fails on the way. An atomic store that fails leaves neither a partial file nor a temporary
     one, and reading a whole file returns all of its bytes or an error.""",
     "fault_sequences inputs", """every operation of a store failing, before or after it takes effect,
     files from empty to just over two chunks of the asynchronous reader""",
     """The tests run on a store that does not fail.""",
     U + "fs/file_system.cpp " + U + "utils/stream_utils.h",
     [("write, flush, close and rename", U + "fs/file_system.cpp"),
      ("reading in chunks", U + "utils/stream_utils.h")],
     "fault injection at every operation of an in-memory store",
     """Explores failures at every operation; the failing store is a stand-in that records its files.""",
     ["status, files and content after every run"])

L = "src/paimon/fs/local/"

prop("C15", "The local file system does what a tree of files and directories would",
     """Creating, writing, reading, listing, renaming, deleting and making directories change and report
     exactly what they would in a plain tree, however the same path is written, and a refused operation
     changes nothing. A file read through a stream has the bytes written at every position, and a failure
     at any step is reported and leaves no partial file under the final name of an atomic store.""",
     "programs fault_sequences inputs", """programs of up to 20 operations on trees of three levels, paths
     with and without scheme and with repeated separators, failures at any step""",
     """The tests run fixed sequences; a path written in another way meets every operation only by
     chance.""",
     L + "local_file_system.cpp " + L + "local_file.cpp " + U + "fs/file_system.cpp "
     + U + "factories/io_hook.cpp",
     [("path spelling", L + "local_file.cpp"), ("rename and delete", L + "local_file_system.cpp"),
      ("streams", L + "local_file_system.cpp")],
     "model-based property testing with fault injection",
     """Explores programs in a scratch directory, as an unprivileged user, next to a model tree.""",
     ["status and content after every operation, the whole tree at the end"])

S = C + "table/source/"

prop("C03", "A commit takes effect exactly once or not at all",
     """Whatever operation of a commit fails, before or after it takes effect, the table afterwards holds
     either all of the commit or none of it, every snapshot stored earlier stays readable with its rows,
     and trying again with the same identifier applies the commit exactly once. Commits that run in
     between one another all take effect, each once, in snapshots numbered without gaps that name their
     user, identifier, kind and row counts; an overwrite or dropped partition replaces exactly the rows
     it names.""",
     "fault_sequences crash_points schedules histories", """append tables with up to two partition
     columns, histories of up to eight commits, overwrites and dropped partitions by up to three users, one failing
     operation or crash at any point, or whole commits of others between any two operations""",
     """The tests commit without failures or fail a handful of operations of one fixed commit; the order
     in which files appear matters only when the process stops in between.""",
     C + "operation/file_store_commit_impl.cpp " + C + "operation/file_store_commit.cpp "
     + C + "operation/manifest_file_merger.cpp " + C + "utils/snapshot_manager.cpp "
     + C + "manifest/manifest_committable.h",
     [("storing a snapshot and trying again", C + "operation/file_store_commit_impl.cpp"),
      ("finding the latest snapshot", C + "utils/snapshot_manager.cpp"),
      ("merging manifests", C + "operation/manifest_file_merger.cpp")],
     "model-based property testing with faults and interleavings at every file operation",
     """Explores failures, crashes and interleavings over an in-memory file system; the wait between
     attempts is skipped.""",
     ["rows, counts and properties of every snapshot after every operation"])

prop("C04", "Expiring snapshots and cleaning orphan files delete nothing that is in use",
     """Expiring snapshots removes exactly the oldest ones its limits allow, and every snapshot that is
     kept stays readable with its rows; files only the expired ones used are gone. Cleaning
     orphan files deletes exactly the old enough files in the directories of the table that no snapshot
     uses and that are not retained, and reports them; a failure on the way may leave files behind but
     deletes none in use.""",
     "histories configurations fault_sequences", """append tables with up to two partition columns,
     histories of up to eight commits, overwrites and dropped partitions, random limits and snapshot
     times, unused files of every kind and age, one failing operation""",
     """The tests expire and clean a few stored tables; which files are shared between snapshots depends
     on the history.""",
     C + "operation/expire_snapshots.cpp " + C + "operation/orphan_files_cleaner.cpp "
     + C + "operation/orphan_files_cleaner_impl.cpp " + C + "utils/snapshot_manager.cpp",
     [("limits and deletion order", C + "operation/expire_snapshots.cpp"),
      ("used files", C + "operation/orphan_files_cleaner_impl.cpp")],
     "model-based property testing with fault injection",
     """Explores histories over an in-memory file system, so that nothing deleted by mistake is real.""",
     ["files before and after, rows of every kept snapshot"])

prop("C05", "A stream of plans delivers every change exactly once and in order",
     """Starting from the latest snapshot, its full content or a given snapshot, a streaming scan
     delivers the starting content its mode asks for and then the rows of every later append, once each and in
     order, however polls and commits interleave, and says so when there is nothing new. A
     stream whose next snapshot has expired, or whose table was made anew, reports an error instead of
     skipping.""",
     "histories schedules configurations", """every starting mode, up to ten rounds of commits,
     overwrites, dropped partitions, expiry and polls, tables that are replaced by younger ones""",
     """The tests poll fixed tables; which snapshot a poll meets depends on what happened before.""",
     S + "data_table_stream_scan.cpp " + S + "data_table_batch_scan.cpp "
     + C + "utils/snapshot_manager.cpp " + S + "snapshot/snapshot_reader.cpp "
     + S + "snapshot/delta_follow_up_scanner.h " + S + "snapshot/continuous_latest_starting_scanner.h",
     [("next snapshot", S + "data_table_stream_scan.cpp"),
      ("starting points", S + "table_scan.cpp")],
     "model-based property testing through the public interface",
     """Explores interleavings of polls and changes next to the list of changes.""",
     ["rows of every plan, end of data and errors"])

prop("C06", "A predicate returns every matching row, and with filtering nothing else",
     """Reading with a predicate returns every row for which it is true, with the values written, and
     with filtering enabled no other row, whatever files, splits, row groups and batches the rows are
     in and whichever statistics and indexes were stored with them. Reading only some of the columns or
     prefetching changes nothing about the rows returned.""",
     "inputs programs configurations", """tables with and without key, every comparison over every
     column type with conjunctions and disjunctions of depth three, literals in and around the columns,
     files with and without statistics, with bitmap, bit slice and bloom filter indexes in their metadata
     or next to them, up to five commits""",
     """The tests ask a few questions of stored tables; a wrongly skipped file or row group shows only
     when the values fall around the literal.""",
     C + "operation/append_only_file_store_scan.cpp " + C + "operation/key_value_file_store_scan.cpp "
     + C + "stats/simple_stats_evolution.cpp src/paimon/common/predicate/literal.cpp "
      + C + "io/file_index_evaluator.cpp "
     "src/paimon/common/predicate/leaf_predicate_impl.h src/paimon/common/predicate/compound_predicate_impl.h src/paimon/common/reader/predicate_batch_reader.cpp",
     [("skipping files by statistics", C + "operation/append_only_file_store_scan.cpp"),
      ("skipping files and rows by indexes", C + "io/file_index_evaluator.cpp"),
      ("filtering rows", "src/paimon/common/reader/predicate_batch_reader.cpp"),
      ("comparing values", "src/paimon/common/predicate/literal.cpp")],
     "model-based property testing through the public interface",
     """Explores random tables and predicates next to a scan of the rows written.""",
     ["rows of every read"])

prop("C08", "Rows written before a schema change read as the changed schema says",
     """After columns are added, dropped, renamed, moved or given a wider type, every row written earlier
     reads under the current names and order with its value converted to the current type and nothing
     for columns added later, and a column added under the name of a dropped one takes none of its
     values. Predicates on changed columns return every matching row.""",
     "inputs programs configurations", """up to four schema changes of several steps between up to
     five commits, nested types, tables with and without key, predicates on changed and
     added columns""",
     """The tests read a few stored tables with fixed changes.""",
     C + "io/field_mapping_reader.cpp " + C + "utils/field_mapping.cpp " + C + "stats/simple_stats_evolution.cpp "
     + C + "casting/cast_executor_factory.cpp " + C + "schema/schema_manager.cpp",
     [("matching columns by identity", C + "utils/field_mapping.cpp"),
      ("converting values", C + "io/field_mapping_reader.cpp"),
      ("statistics under another schema", C + "stats/simple_stats_evolution.cpp")],
     "model-based property testing through the public interface",
     """Explores random schema changes; the changed schemas are stored as files, since the repository does
     not change schemas itself. Planning a keyed table whose schema changed is refused by design and done under
     the older schema.""",
     ["columns and rows of every read"])

prop("C10", "Splits and commit messages sent as bytes arrive as they were",
     """A split or commit message turned into bytes and back is equal to the original in every part, the
     bytes are those of the published layout, and bytes of every older supported version give what can be
     told from them. Bytes that end early are refused, and committing or reading with the copies has the
     same outcome.""",
     "inputs programs", """messages with up to three files in each list, splits of up to six files with
     deletion files, texts up to 3,000 bytes, embedded parts up to 140,000, rows of up to 80 fields,
     versions from 3 of messages and 2 of splits, cuts at any byte""",
     """The tests read a few stored messages; which optional parts are present and how long they are
     varies.""",
     S + "split.cpp " + C + "table/sink/commit_message_serializer.cpp " + C + "io/data_file_meta_serializer.cpp "
     + C + "index/index_file_meta_serializer.cpp " + S + "deletion_file.h " + S + "data_split_impl.cpp",
     [("file description", C + "io/data_file_meta_serializer.cpp"),
      ("message layout", C + "table/sink/commit_message_serializer.cpp"),
      ("split layout", S + "split.cpp")],
     "property testing against an independent encoder",
     """Explores random messages and splits next to an encoder written from the layout of rows, arrays and
     lists.""",
     ["every part of every object and every byte"])

prop("C16", "Rows keep their numbers, and columns written later replace theirs",
     """In a table that tracks rows, every row keeps the number and sequence it was given when written,
     and a column written later for a run of rows replaces just that column of just those rows, large
     objects in files of their own included. Picking rows by number, by an index over the table or
     together with scores returns exactly those rows, with their scores, under any projection, predicate,
     schema change and snapshot.""",
     "inputs programs configurations", """up to seven commits of up to some hundred rows, tables with and without
     partitions and buckets, random column subsets, target file sizes from a few hundred bytes, one column of large
     objects inline or as descriptors, bitmap indexes over runs of rows""",
     """The tests merge a few fixed sets of files; which file a column comes from depends on the order of
     writes, on projection and on the rows picked.""",
     C + "operation/data_evolution_split_read.cpp " + C + "operation/data_evolution_file_store_scan.cpp "
     + S + "data_evolution_split_generator.cpp " + C + "io/rolling_blob_file_writer.cpp "
     + S + "data_evolution_batch_scan.cpp",
     [("merging columns of several files", C + "operation/data_evolution_split_read.cpp"),
      ("planning files by row number", S + "data_evolution_split_generator.cpp"),
      ("picking rows", S + "data_evolution_batch_scan.cpp"),
      ("files of large objects", C + "io/rolling_blob_file_writer.cpp")],
     "model-based property testing through the public interface",
     """Explores random programs of writes, column updates, schema changes, index builds and reads next to a list of
     numbered rows.""",
     ["rows, numbers, sequences and scores of every read"])

prop("C17", "A file of large objects gives back what was put in",
     """A file of large objects has the published layout and gives back every object in order, whole or as a
     descriptor that leads to it, for any batch size and any choice of rows. A file whose end is damaged is refused or read
     within its bounds, and no memory stays taken once writer and reader are gone.""",
     "inputs programs configurations", """up to twelve objects of up to 1.1 MB, given inline or as descriptors of parts of
     other files, damage to footer and index, cuts at any byte, made-up indexes""",
     """The tests read a few stored files; none of them damaged.""",
     "src/paimon/format/blob/blob_format_writer.cpp " + "src/paimon/format/blob/blob_file_batch_reader.cpp " + "src/paimon/format/blob/blob_stats_extractor.cpp",
     [("writing objects", "src/paimon/format/blob/blob_format_writer.cpp"),
      ("reading objects", "src/paimon/format/blob/blob_file_batch_reader.cpp")],
     "property testing and fuzzing against an independent decoder",
     """Explores random lists of objects next to a decoder written from the layout, and damaged files under a memory
     checker.""",
     ["every byte of the file, every object, row numbers and memory taken"])

prop("C09", "Casting a value to another type is the same for one value and for a column",
     """Casting between two types gives the value the rules of the pair say: whole numbers keep their low bits, reals are cut,
     decimals are rounded half away from zero, texts are read and written in full, and nulls stay null. A decimal that does not
     fit becomes null and a text that names no value is refused. One value and a column, also part of a longer one, are cast alike.""",
     "inputs configurations", """all pairs of types with a cast, up to twelve values in a column with up to eight more around
     it, decimals of up to 38 digits, texts with exponents from -90 to 20, years 1 to 9999""",
     """The tests cast fixed columns of a few values; few of them with many digits, exponents or parts of columns.""",
     C + "casting/cast_executor_factory.cpp " + C + "casting/casting_utils.cpp " + C + "casting/numeric_primitive_cast_executor.cpp "
     + C + "casting/decimal_to_decimal_cast_executor.cpp " + C + "casting/string_to_decimal_cast_executor.cpp "
     + C + "casting/string_to_numeric_primitive_cast_executor.cpp " + C + "casting/timestamp_to_timestamp_cast_executor.cpp "
     + U + "utils/decimal_utils.cpp " + U + "utils/string_utils.cpp",
     [("which types can be cast", C + "casting/cast_executor_factory.cpp"),
      ("changing the scale of a decimal", U + "utils/decimal_utils.cpp"),
      ("reading numbers and dates from text", U + "utils/string_utils.cpp")],
     "property testing against rules computed with wide integers",
     """Explores values of every pair of types, cast one by one and as columns, next to rules worked out with 128 bit
     integers and digit strings.""",
     ["value, null or refusal of every cast"])

prop("C18", "A predicate says the same of a row however it is asked",
     """A predicate gives the answer of its definition for a row, for every row of a batch, and after negation, splitting,
     leaving out columns or moving to other columns. Statistics never deny a file that holds a matching row, and a single
     comparison is denied once the statistics rule it out. Literals of other types than the columns are refused.""",
     "inputs programs", """trees of up to a few levels over up to four columns of all simple types, up to a dozen rows, with
     and without statistics of some columns""",
     """The tests ask a few predicates of fixed rows; none compares rows, batches and statistics over one tree.""",
     U + "predicate/leaf_predicate_impl.h " + U + "predicate/compound_predicate_impl.h " + U + "predicate/literal.cpp "
     + U + "predicate/literal_converter.cpp " + U + "predicate/predicate_utils.cpp " + U + "predicate/predicate_validator.h "
     + U + "predicate/in.h " + U + "predicate/not_in.h " + U + "predicate/and.h " + U + "predicate/or.h",
     [("asking rows, batches and statistics", U + "predicate/leaf_predicate_impl.h"),
      ("joining answers", U + "predicate/compound_predicate_impl.h"),
      ("comparing and reading literals", U + "predicate/literal.cpp")],
     "property testing against a model of three-valued logic",
     """Explores random trees of predicates over random rows, asks them in every way there is and compares with a model.""",
     ["answers for rows, batches and statistics; refusals"])

prop("C19", "A table's schema is stored, checked and read back as it was defined",
     """Creating a table stores columns, types, numbers, keys, options and comments as given, and a stored schema of any supported
     version reads back as what it says, the newest version counting. Definitions that break a rule on keys, buckets, types or
     options are refused and leave nothing behind, and so are damaged schemas. A catalog lists exactly what was created, also
     when storage fails or another creates the same table.""",
     "inputs programs histories fault_sequences", """up to eight columns nested up to three deep, all types, keys, buckets and
     options of merge engines; up to four stored versions; programs of up to a dozen catalog operations""",
     """The tests create and read a few fixed schemas; none compares the rules for refusing a table with a list of its own.""",
     C + "schema/table_schema.cpp " + C + "schema/schema_manager.cpp " + C + "schema/schema_validation.cpp "
     + C + "schema/arrow_schema_validator.cpp " + C + "catalog/file_system_catalog.cpp " + U + "types/data_type_json_parser.cpp "
     + U + "types/data_field.cpp",
     [("storing and reading a schema", C + "schema/table_schema.cpp"),
      ("the rules for a table", C + "schema/schema_validation.cpp"),
      ("reading types", U + "types/data_type_json_parser.cpp"),
      ("creating and listing tables", C + "catalog/file_system_catalog.cpp")],
     "property testing and fuzzing against a model of the rules and an independent reader and writer of the stored form",
     """Explores definitions next to a list of all rules, stored schemas written by a writer of our own, texts of types next to
     a grammar, damaged schemas and catalogs under failing storage.""",
     ["acceptance or refusal, the stored text, schemas read back, listings, files left behind"])

prop("C20", "A row's bucket is the hash of its bucket key modulo the number of buckets",
     """The bucket of every row of a batch is given by the hash of the stored form of its key columns, so that all writers and
     readers agree, whatever other rows are in the batch and whichever part of a longer array it is. Tables without fixed buckets
     give the bucket their kind says, and other numbers of buckets are refused.""",
     "inputs configurations", """one to four key columns or up to seventy, all key types, up to twenty rows, nulls, parts of
     longer arrays, one bucket to 2^31-1""",
     """The tests hash fixed batches of a few rows.""",
     U + "utils/bucket_id_calculator.cpp " + U + "utils/murmurhash_utils.h " + D + "binary_row_writer.cpp",
     [("choosing a bucket", U + "utils/bucket_id_calculator.cpp"), ("the hash", U + "utils/murmurhash_utils.h")],
     "property testing against an independent encoder and hash",
     """Explores random batches of keys next to an encoder of rows and a hash written from their definitions.""",
     ["bucket of every row, refusals"])

prop("C21", "Every option means what its text says, and its default when not given",
     """Every option of a table has the value its text names, or its default when it is not given, and options that depend on
     others follow them. A text that names no value of the option is refused, options of single columns are found by the column's
     name, and all options given are kept. Copies of a set of options hold the same values.""",
     "inputs configurations", """all 49 options, up to all of them at once, numbers to the limits of their width, sizes and
     durations with every unit, and texts that mean nothing""",
     """The tests set each option once to one value.""",
     C + "core_options.cpp " + C + "options/expire_config.h",
     [("reading options", C + "core_options.cpp")],
     "property testing against a table of all options",
     """Explores random sets of options next to a table of every option with its kind and default.""",
     ["every value read back, refusals, the options kept"])

prop("C22", "Files are placed where their partition, bucket and options say",
     """The directory of a partition and bucket follows from the values, escaped and in the order of the keys, and a partition
     given as texts has the values they name or is refused. New files never share a name, carry the prefix and ending of their
     kind, and go to the table or to each external place in turn. Recorded files and those next to them are looked for where they
     were put.""",
     "inputs configurations programs", """up to four partition keys of nine types, four partitions, three external places,
     forty operations on several factories at once""",
     """The tests ask for a few fixed paths.""",
     C + "utils/file_store_path_factory.cpp " + C + "utils/file_store_path_factory.h " + C + "io/data_file_path_factory.cpp "
     + C + "io/data_file_path_factory.h " + U + "utils/binary_row_partition_computer.cpp " + U + "utils/data_converter_utils.h "
     + U + "fs/external_path_provider.h " + C + "index/index_in_data_file_dir_path_factory.h",
     [("directories of partitions and buckets", C + "utils/file_store_path_factory.cpp"),
      ("values from and to texts", U + "utils/data_converter_utils.h"),
      ("names of new files", C + "io/data_file_path_factory.h"),
      ("external places in turn", U + "fs/external_path_provider.h")],
     "property testing of programs against a model of names and directories",
     """Explores random partitions, options and programs of asking for paths, next to directories put together by hand.""",
     ["every path, value and refusal"])

prop("C23", "Files made elsewhere are taken over by a table whole and once",
     """When a table takes over files made elsewhere, each of them is moved into the directory of the partition given, recorded with
     its own size, rows and value bounds, and its rows are read once after the commit, with predicates and without. Files that would
     end up under one name are refused together, and so is a table that cannot take over files; nothing is moved or lost then. After
     a failing storage operation no file is lost, and the same call made again succeeds.""",
     "inputs configurations fault_sequences", """up to three calls of up to four files of up to eight rows, names with and without
     ending, files of the same name, one failing operation among the first forty, rows written in the usual way in between""",
     """The tests take over fixed files with distinct names, and simulate one interruption.""",
     C + "migrate/file_meta_utils.cpp " + C + "stats/simple_stats_converter.cpp",
     [("moving and recording files", C + "migrate/file_meta_utils.cpp"),
      ("bounds of the values", C + "stats/simple_stats_converter.cpp")],
     "property testing of calls against the rows put into the files, with injected failures",
     """Explores random files, names and failures next to the list of rows in the files.""",
     ["what is recorded of each file", "rows read with and without predicate", "files left after a failure or refusal"])

prop("C24", "A stream of a table with keys delivers the changes of each commit in order",
     """A stream that starts at a snapshot delivers for each commit its changes with their kinds: the last change of each key where
     the bucket is fixed, and every change in the order written where buckets are chosen later. Files of buckets chosen later are
     recorded with the number of records and of deletions, their first and last key, and a name that tells the writer, and a batch
     read returns nothing of them.""",
     "inputs configurations histories", """one or two partition-free or partitioned keys of three types, up to three values of any
     type, two writers, five commits of up to four batches of up to nine changes, files in the table or outside, random projections""",
     """The tests follow fixed tables written elsewhere, and write one table with buckets chosen later.""",
     C + "postpone/postpone_bucket_writer.cpp " + C + "postpone/postpone_bucket_file_store_write.h "
     + C + "io/key_value_data_file_writer.cpp " + C + "operation/merge_file_split_read.cpp " + S + "data_table_stream_scan.cpp "
     + M + "merge_tree_writer.cpp",
     [("writing to buckets chosen later", C + "postpone/postpone_bucket_writer.cpp"),
      ("what is recorded of a file", C + "io/key_value_data_file_writer.cpp"),
      ("reading changes unmerged", C + "operation/merge_file_split_read.cpp")],
     "property testing of histories against the list of changes written",
     """Explores random programs of writes by several writers next to the lists of changes each wrote.""",
     ["changes, kinds and order delivered for every snapshot", "what is recorded of each file", "batch reads"])
prop("C25", "What is recorded of a table's files is kept, summed up and merged exactly",
     """A stored snapshot gives back every field, is refused when a needed one is missing or wrong, and is found with or without
     hints, also when hints are behind or unreadable. A manifest gives back its entries in order and says their numbers, buckets,
     levels, rows and partitions exactly. Merging manifests leaves the net effect and the order of files unchanged, keeps the files
     merged, rewrites all but leading full ones without deletions once these reach the threshold, and changes nothing when it fails.""",
     "inputs configurations histories fault_sequences", """all fields of a snapshot, up to twelve snapshots on two branches; up to two
     partition keys, four partitions, 25 entries or up to 1700; up to eight manifests of up to six entries, thresholds around their
     sizes, one failing operation among the first sixty""",
     """The tests store fixed snapshots and entries and merge a few manifests of a fixed form, without failures.""",
     C + "snapshot.cpp " + C + "snapshot.h " + C + "utils/snapshot_manager.cpp " + C + "manifest/manifest_file.cpp "
     + C + "manifest/manifest_entry_writer.cpp " + C + "manifest/manifest_list.cpp " + C + "manifest/file_entry.h "
     + C + "manifest/partition_entry.cpp " + C + "operation/manifest_file_merger.cpp " + C + "partition/partition_statistics.h "
     + C + "io/rolling_file_writer.h",
     [("the stored form of snapshots", C + "snapshot.cpp"),
      ("finding snapshots by hints and by listing", C + "utils/snapshot_manager.cpp"),
      ("what a manifest says of its entries", C + "manifest/manifest_entry_writer.cpp"),
      ("merging manifests", C + "operation/manifest_file_merger.cpp"),
      ("adds and deletes of one file", C + "manifest/file_entry.h")],
     "property testing against lists of entries and an independent writer of snapshots, with injected failures",
     """Explores random snapshots, directories, entries and mergers next to lists of what was put in.""",
     ["every field of a stored snapshot", "snapshots found by number and user", "entries and summaries of each manifest",
      "net effect and order after merging", "sums by partition"])
