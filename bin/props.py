"""The properties, and the generator of properties.jsonl and MANIFEST.json from them."""
import json
import os
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
NA = []


def prop(pid, title, statement, over, text, why, files, mechanism, technique, note,
         observe=(), level="exploration", na=None):
    assert len(title) <= 80, (pid, len(title))
    d = dict(id=pid, title=title, statement=" ".join(statement.split()),
             quantifier=dict(over=over.split(), text=" ".join(text.split())),
             why_tests_cant=" ".join(why.split()),
             anchors=dict(files=files.split(),
                          mechanism=[dict(name=m[0], where=m[1]) for m in mechanism],
                          observe_at=list(observe), hook_needed=None))
    P.append((d, technique, " ".join(note.split()), level, na))


U = "src/paimon/common/utils/"

prop("B01", "Bitmaps of row ids behave as mathematical sets and survive storage",
     """Any sequence of additions, range additions, removals, unions, intersections, differences,
     flips and copies on a bitmap of row ids leaves exactly the ids a plain set would hold, and
     every query, iteration and comparison agrees with that set. Storing a bitmap and reading it
     back yields an equal bitmap, and the stored form follows the portable layout shared with other
     implementations.""",
     "programs inputs", """every sequence of operations over up to several bitmaps, ids from the
     whole range including container and word boundaries, self-application included""",
     """The tests run a few fixed sequences over small ids; which representation a container has
     (list, bits, runs) depends on the history, and each pair of representations takes its own
     path.""",
     "include/paimon/utils/roaring_bitmap32.h include/paimon/utils/roaring_bitmap64.h "
     + U + "roaring_bitmap32.cpp " + U + "roaring_bitmap64.cpp",
     [("wrapper over a compressed bitmap library", U + "roaring_bitmap32.cpp"),
      ("wrapper over its 64-bit map", U + "roaring_bitmap64.cpp")],
     "model-based property testing",
     """Explores random operation programs next to std::set and an independent reader of the stored
     layout, with address checking; no exhaustive bound.""",
     ["contents, cardinality, iteration order, equality, stored bytes"])

prop("B02", "Damaged stored bytes are refused or read as something usable",
     """Decoding a stored row set, bit slice index, number sequence or deletion file list that was
     cut short is reported as an error. With bytes changed, decoding reports an error or returns
     something that can be used; it never reads outside the given bytes, asks for memory the input
     cannot justify, or ends the process.""",
     "inputs fault_sequences", """every cut position and one to three changed bytes of generated
     stored forms (row sets themselves only cut, see the known finding of B05)""",
     """The tests decode what the same code has just encoded, plus one or two hand-made bad
     inputs.""",
     U + "roaring_bitmap32.cpp " + U + "roaring_bitmap64.cpp " + U + "delta_varint_compressor.cpp "
     "src/paimon/common/file_index/bsi/bit_slice_index_roaring_bitmap.cpp "
     "src/paimon/core/table/source/deletion_file.h",
     [("length-checked reading", "src/paimon/common/io/data_input_stream.cpp"),
      ("safe bitmap reading", U + "roaring_bitmap32.cpp")],
     "mutation fuzzing with semantic oracle under address checking",
     """Explores cuts and byte changes of generated inputs held in exactly sized buffers.""")

prop("B03", "A bit slice index answers comparisons exactly as a scan of the values",
     """For every set of rows and values appended to a bit slice index, equality, inequality,
     ordering and null queries return exactly the rows a scan would return, before and after the
     index is stored and read back. Values outside the declared bounds and repeated rows are
     refused.""",
     "inputs", "value sets over the whole 64-bit range, sparse row ids, literals at, around and "
     "far beyond the bounds",
     """The tests use one small table of values; slices carry through all bit positions only for
     wide value ranges.""",
     "src/paimon/common/file_index/bsi/bit_slice_index_roaring_bitmap.cpp",
     [("bit sliced comparison", "src/paimon/common/file_index/bsi/bit_slice_index_roaring_bitmap.cpp")],
     "property testing against brute force",
     "Explores random columns and literals next to a scan; no exhaustive bound.")

prop("B04", "Combining file index answers never drops a row that may match",
     """A combination of index answers with and and or describes exactly the row set given by
     set algebra over the parts, with a plain skip or keep answer acting as the empty or full set.
     An answer says remain whenever its row set is not empty, and asking twice gives the same
     answer.""",
     "inputs programs", "trees of index answers of every kind, up to four levels",
     "The tests combine two or three fixed answers; mixed kinds in deeper trees are not covered.",
     "include/paimon/file_index/file_index_result.h include/paimon/file_index/bitmap_index_result.h "
     "src/paimon/common/file_index/file_index_result.cpp "
     "src/paimon/common/file_index/bitmap/bitmap_index_result.cpp "
     "src/paimon/common/file_index/file_index_reader.cpp",
     [("lazy combination of answers", "src/paimon/common/file_index/bitmap/bitmap_index_result.cpp")],
     "model-based property testing", "Explores random trees next to sets.")

prop("B05", "Global index results combine by row set, keep scores and survive storage",
     """Combining global index results with and and or yields the intersection and union of their
     row ids, keeps scores where exactly one side has them, and shifting by an offset moves every
     row by it. A result stored and read back has the same rows and scores, and a damaged stored
     result is refused or usable.""",
     "inputs programs fault_sequences", "trees of results with and without scores, row ids over "
     "the 64-bit range, offsets, cut and altered stored forms",
     "The tests combine a handful of fixed results and damage none of them.",
     "include/paimon/global_index/global_index_result.h "
     "src/paimon/common/global_index/global_index_result.cpp "
     "src/paimon/common/global_index/bitmap_global_index_result.cpp "
     "src/paimon/common/global_index/bitmap_vector_search_global_index_result.cpp",
     [("bitmap results", "src/paimon/common/global_index/bitmap_global_index_result.cpp"),
      ("scored results", "src/paimon/common/global_index/bitmap_vector_search_global_index_result.cpp")],
     "model-based property testing and mutation fuzzing",
     """Explores random trees next to maps from row to score. One damaged input is a known
     finding.""")

prop("B06", "A bloom filter never denies a value that was added",
     """After any sequence of additions a bloom filter answers yes for every added value, also
     after its bytes are stored and loaded elsewhere, and its size and hash count are those of the
     expected number of entries and error rate. With the expected number of entries its rate of
     wrong yes answers stays near the requested one.""",
     "inputs", "entry counts, error rates, hash values over 64 bits, stored forms",
     "The tests add a few hundred sequential values for one configuration.",
     U + "bloom_filter64.cpp " + U + "bloom_filter64.h",
     [("bit positions from a 64-bit hash", U + "bloom_filter64.cpp")],
     "property testing against an independent bit model",
     "Explores random configurations; the false positive rate is judged over large samples with "
     "wide margins.")

prop("B07", "Compressed number sequences decompress to exactly what was compressed",
     """For every sequence of 64-bit numbers, compressing and decompressing returns the sequence,
     and the compressed form is the delta and variable-length encoding other implementations
     use. Bytes that end inside a number or encode one too large are refused.""",
     "inputs", "sequences over the whole 64-bit range, including differences that overflow",
     "The tests use sorted small sequences and one pair of extremes.",
     U + "delta_varint_compressor.cpp",
     [("zig-zag variable-length deltas", U + "delta_varint_compressor.cpp")],
     "round trip and reference encoder",
     "Explores random sequences next to an independent encoder.")

prop("B08", "Row id ranges merge, intersect and subtract as sets of ids",
     """Merging, intersecting and excluding lists of closed row id ranges gives sorted, disjoint
     ranges that cover exactly the ids given by set algebra, at every position of the 64-bit id
     space. Grouping ranges that overlap puts two ranges together exactly if they are connected
     through overlaps.""",
     "inputs", "lists of ranges, adjacent, nested, equal and at both ends of the id space",
     "The tests list a few dozen fixed range lists, none at the ends of the id space.",
     "include/paimon/utils/range.h " + U + "range.cpp " + U + "range_helper.h",
     [("sort and sweep", U + "range.cpp"), ("grouping", U + "range_helper.h")],
     "property testing against point sets", "Explores random lists next to per-id membership.")

prop("B09", "Bin packing keeps every item once, in order and within limits",
     """Packing items into bins returns every item exactly once and in the given order, in bins
     that are never empty. A bin exceeds its target weight only if it holds a single oversized item,
     and a bin is closed only when the next item would not have fit.""",
     "inputs", "lists of weights including zero, equal, oversized and very large ones",
     "The tests pack a few short lists.", U + "bin_packing.h",
     [("ordered packing", U + "bin_packing.h")],
     "property testing", "Explores random weights next to the packing rules.")

prop("B10", "Values written to a stream are read back identically in either byte order",
     """Any sequence of numbers, strings and byte arrays written to an output stream is read back
     identically, and its bytes follow the fixed layout in both byte orders. A failing or short
     write or read is reported, never taken for success, and strings too long for their length
     field are refused.""",
     "programs inputs fault_sequences", "write programs, both byte orders, segment sizes, every "
     "cut position, failures and short counts at every call",
     "The tests write one fixed program with no failure.",
     "src/paimon/common/io/data_input_stream.cpp src/paimon/common/io/data_output_stream.cpp "
     "src/paimon/common/io/memory_segment_output_stream.cpp",
     [("typed reading", "src/paimon/common/io/data_input_stream.cpp"),
      ("typed writing", "src/paimon/common/io/data_output_stream.cpp")],
     "round trip, reference layout, fault injection",
     "Explores random programs with injected failures.")

prop("B11", "Layered input streams agree with the bytes they stand for",
     """Whatever sequence of reads, positioned reads, seeks and asynchronous reads is made on a
     byte array, offset window or buffered stream, each returns exactly the bytes of the underlying
     range, positions are as a plain file's, and operations outside the range are refused and
     change nothing. A failure or short read below is passed on and leaves the stream usable.""",
     "programs inputs fault_sequences", "programs over stacked streams, buffer sizes, windows over "
     "up to huge sources, failures at any call",
     """The tests use short fixed programs on small inputs; buffer boundaries and 64-bit offsets
     are not reached.""",
     "src/paimon/common/io/byte_array_input_stream.cpp src/paimon/common/io/offset_input_stream.cpp "
     "src/paimon/common/io/buffered_input_stream.cpp",
     [("window arithmetic", "src/paimon/common/io/offset_input_stream.cpp"),
      ("read buffer", "src/paimon/common/io/buffered_input_stream.cpp")],
     "model-based property testing with fault injection",
     "Explores random programs next to a string and a position.")

prop("B12", "Data split over memory segments reads, compares and hashes as one piece",
     """Reading, writing, copying, searching, comparing and hashing data that lies across any number
     of memory segments gives the result of the same operation on one contiguous piece, at every
     offset. Hash values equal those of the published hash function, so all writers agree on
     them.""",
     "inputs programs", "segment sizes, offsets at and across boundaries, value widths, data "
     "differing in one byte",
     "The tests place a few values across one boundary.",
     "src/paimon/common/memory/memory_segment.cpp src/paimon/common/memory/memory_segment_utils.cpp "
     + U + "murmurhash_utils.h",
     [("multi-segment access", "src/paimon/common/memory/memory_segment_utils.cpp"),
      ("hash", U + "murmurhash_utils.h")],
     "differential property testing", "Explores random layouts next to a string and a reference "
     "hash.")

prop("B13", "Text values behave as sequences of characters however they are stored",
     """Length, substring, search, prefix, suffix, comparison, copies and case of a text value equal those of the same character sequence, whether the bytes lie in one piece
     or across segments and whatever the width of characters. On bytes that are not valid text no
     operation reads outside the value.""",
     "inputs", "texts of one to four byte characters, all segment splits, arbitrary bytes",
     "The tests use short texts, mostly of one-byte characters, in one or two layouts.",
     "src/paimon/common/data/binary_string.cpp src/paimon/common/data/binary_section.cpp",
     [("multi-byte stepping", "src/paimon/common/data/binary_string.cpp")],
     "model-based property testing", "Explores random texts next to decoded characters.")

prop("B14", "Timestamps convert without loss and order as the instants they name",
     """Converting a timestamp to and from milliseconds, microseconds and nanoseconds parts loses
     nothing the target can hold, for instants before and after the epoch. Two timestamps compare
     as their instants do, and their text shows exactly that instant.""",
     "inputs", "milliseconds over the supported years, all nanosecond parts",
     "The tests convert a handful of instants, few before the epoch.",
     "include/paimon/data/timestamp.h src/paimon/common/data/timestamp.cpp",
     [("floor arithmetic", "src/paimon/common/data/timestamp.cpp")],
     "property testing against 128-bit arithmetic", "Explores random instants.")

prop("B16", "Blob descriptors round trip and refuse malformed bytes",
     """A blob descriptor stored and read back names the same location, offset and length in the
     layout shared with other implementations. Malformed, cut or altered bytes are refused or
     give a descriptor that itself round trips; nothing outside the bytes is read.""",
     "inputs fault_sequences", "locations of any bytes, offsets, lengths; cuts and altered bytes",
     "The tests store one descriptor and read it back.",
     "src/paimon/common/data/blob_descriptor.cpp",
     [("stored layout", "src/paimon/common/data/blob_descriptor.cpp")],
     "round trip, reference layout, mutation fuzzing", "Explores random descriptors and damage.")

prop("B17", "Local files hold what was written, and every failure is reported",
     """Files and directories created, written, read, listed and deleted through the local file
     interface are what the operating system shows, and reads return exactly the bytes written.
     When an injected failure strikes any single call, that call reports it, no later call is made
     as if it had succeeded, and what was reported as written is there.""",
     "programs fault_sequences", "programs of file and name operations; a failure at every call "
     "position, returned or thrown",
     "The tests walk one fixed path per operation and inject failures at a few positions.",
     "src/paimon/fs/local/local_file.cpp src/paimon/common/factories/io_hook.cpp",
     [("file wrapper", "src/paimon/fs/local/local_file.cpp"),
      ("failure injection", "src/paimon/common/factories/io_hook.cpp")],
     "model-based property testing with fault enumeration",
     "Explores random programs in a scratch directory; fault positions of the write-read sequence "
     "are covered completely.")

prop("B19", "Every task given to an executor runs exactly once",
     """A task handed to an executor before it is destroyed runs exactly once, also tasks handed in
     by running tasks and from several threads, and destroying the executor waits for them. All
     workers can run at the same time, a single worker keeps the order, and the result or exception
     of each task reaches its future.""",
     "schedules programs", "worker, producer and task counts, nested tasks, exceptions, immediate "
     "destruction",
     "The tests run a few fixed counts and give each schedule one chance.",
     "src/paimon/common/executor/executor.cpp src/paimon/common/executor/future.h",
     [("queue and condition variable", "src/paimon/common/executor/executor.cpp"),
      ("promise per task", "src/paimon/common/executor/future.h")],
     "randomised concurrency testing with race and hang detection",
     "Samples schedules of the host; a race detector watches half of the cases.")

prop("B20", "Memory pools account for every byte and byte arrays own theirs",
     """After any sequence of allocations, resizes and releases, from any number of threads, a
     pool's current usage is the sum of live sizes and its peak is the highest it ever was. Resizing
     keeps contents and alignment, and byte arrays copy, move and compare as strings of bytes
     without sharing or leaking memory.""",
     "programs inputs schedules", "programs of allocations with alignments, constructors that throw, "
     "byte arrays of any bytes, threads",
     "The tests follow a few fixed sequences in one thread.",
     "src/paimon/common/memory/memory_pool.cpp src/paimon/common/memory/bytes.cpp "
     "include/paimon/memory/bytes.h include/paimon/memory/memory_pool.h",
     [("atomic counters", "src/paimon/common/memory/memory_pool.cpp"),
      ("owning buffer", "src/paimon/common/memory/bytes.cpp")],
     "model-based property testing", "Explores random programs next to exact sums.")

prop("B21", "Metrics add up when merged, also from several threads",
     """Setting, merging and replacing counters gives the sums a plain map would, merging a set with
     itself or with nothing changes nothing, and the text form lists every counter exactly. Merges
     from several threads are never lost.""",
     "programs schedules", "programs over three counter sets, names needing quoting, threads",
     "The tests merge two fixed sets in one thread.",
     "src/paimon/common/metrics/metrics_impl.cpp",
     [("locked map", "src/paimon/common/metrics/metrics_impl.cpp")],
     "model-based property testing with race detection", "Explores random programs and schedules.")

prop("B22", "Containers shared between threads lose, duplicate and reorder nothing",
     """A shared map returns the last value stored for a key until it is erased, a shared queue
     returns every pushed item exactly once and one producer's items in order, and a registry
     returns what was registered under a name. This holds for any number of threads.""",
     "programs schedules", "operation programs next to sequential models; two to four threads",
     "The tests start a few threads over fixed work once.",
     U + "concurrent_hash_map.h " + U + "threadsafe_queue.h "
     "src/paimon/common/factories/factory_creator.cpp",
     [("accessor locks", U + "concurrent_hash_map.h"), ("mutex", U + "threadsafe_queue.h")],
     "model-based property testing with race detection",
     "Samples schedules; race detection covers the queue and the registry.")

prop("B23", "The insertion-ordered map keeps first-insertion order and exact contents",
     """After any sequence of insertions, assignments, erasures, lookups and copies the map holds
     what a list of pairs would: iteration follows first insertion, updating keeps the place,
     erasing and inserting again moves to the end. Copies are independent and equality is equality
     of pairs in order.""",
     "programs", "operation programs over three maps, self assignment included",
     "The tests run a few fixed sequences.", U + "linked_hash_map.h",
     [("list plus index", U + "linked_hash_map.h")], "model-based property testing",
     "Explores random programs next to a vector.")

prop("B25", "Partition values map to directory names one to one and reversibly",
     """Every non-empty key and value is turned into a name without separators or control
     characters that decodes to the original, so different partitions never share a directory.
     Paths list all levels in order, each level's path is a prefix of the next, and names equal
     those other implementations choose.""",
     "inputs", "names over all byte values, biased to the escaped ones; up to four levels",
     "The tests escape a few names.", "src/paimon/core/utils/partition_path_utils.cpp",
     [("percent escaping", "src/paimon/core/utils/partition_path_utils.cpp")],
     "property testing against an independent escaper", "Explores random names.")

prop("B26", "Column statistics bound every collected value and count every null",
     """Collecting values one by one yields the minimum, maximum and null count of all of them, for
     every column type and whatever the order, also when continuing from earlier statistics.""",
     "inputs", "all column types, value lists with nulls and extremes (not-a-number excluded)",
     "The tests collect one or two values per type.",
     "src/paimon/common/format/column_stats.cpp include/paimon/format/column_stats.h",
     [("running minimum and maximum", "src/paimon/common/format/column_stats.cpp")],
     "property testing against a full pass", "Explores random lists.")

prop("B27", "Errors and results keep their contents through every copy and move",
     """A status keeps code, message and detail through copies, moves and combination, the first
     error wins when combining, and two statuses are equal exactly if all three are. A result holds
     either its value or its error through any sequence of copies, moves and assignments, and
     neither leaks nor destroys a value twice.""",
     "programs", "programs over three statuses or results, self assignment included",
     "The tests assign each combination at most once.",
     "include/paimon/status.h include/paimon/result.h src/paimon/common/utils/status.cpp",
     [("owned state", "include/paimon/status.h"), ("tagged storage", "include/paimon/result.h")],
     "model-based property testing", "Explores random programs with live value counting.")

prop("B28", "Stored kinds and deletion file lists keep their fixed encodings",
     """Row kinds, file kinds, file sources and startup modes are stored as fixed bytes or names,
     read back to the same value, and every other byte or name is refused. Lists of deletion files
     are written in the current layout and every earlier version's layout is still read.""",
     "inputs configurations", "all bytes and near-miss names; lists of up to five files, all "
     "versions", "The tests check the valid values and one list per version.",
     "src/paimon/common/types/row_kind.h src/paimon/core/manifest/file_kind.h "
     "src/paimon/core/manifest/file_source.h src/paimon/core/table/source/deletion_file.h "
     "src/paimon/core/table/source/startup_mode.cpp",
     [("versioned reading", "src/paimon/core/table/source/deletion_file.h")],
     "round trip and reference layout", "Explores all bytes and random lists.")


def main():
    sys.path.insert(0, os.path.join(VERIF, "bin"))
    import props2  # noqa: F401
    import config
    ids = [d["id"] for d, *_ in P]
    assert len(set(ids)) == len(ids)
    claimed = [i for d, _, _, _, na in P for i in [d["id"]] if na is None]
    assert set(claimed) == set(config.CHECKS), set(claimed) ^ set(config.CHECKS)
    with open(os.path.join(VERIF, "properties.jsonl"), "w") as f:
        for d, *_ in P:
            f.write(json.dumps(d, ensure_ascii=True) + "\n")
    man = dict(version=1, setup_cmd="bin/setup",
               hooks=dict(guard="none", enable="no hooks are used", source_commits=[]),
               checks=[dict(property=d["id"], quick_cmd="bin/check " + d["id"],
                            thorough_cmd="bin/check " + d["id"],
                            evidence_file="evidence/%s.json" % d["id"], technique=t, level=lv,
                            level_note=n) for d, t, n, lv, na in P if na is None],
               not_applicable=[dict(property=d["id"], reason=na) for d, _, _, _, na in P if na],
               notes="All checks are generated-input searches with shrinking; see DESIGN.md. "
               "`bin/check <id> --replay <file>` reruns one recorded case.")
    with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")
    design(config)


def design(config):
    """Rewrite the generated parts of DESIGN.md."""
    out = ["## Properties", ""]
    for d, t, n, lv, na in P:
        out += ["### %s %s" % (d["id"], d["title"]), ""]
        if na:
            out += ["Not applicable: " + na, ""]
            continue
        c = config.CHECKS[d["id"]]
        runs = "; ".join("%s, %s: %s cases quick, %s thorough" % (
            "`harness/%s`" % r["src"].split()[0], r["flavor"], "{:,}".format(r["quick"]),
            "{:,}".format(r["thorough"])) for r in c["runs"])
        out += ["* Technique: %s. %s" % (t, n), "* Generator and oracle: " + c["rule"],
                "* Bounds: %s." % d["quantifier"]["text"].rstrip("."),
                "* Reach: " + d["why_tests_cant"], "* Cost: %s." % runs, ""]
    p = os.path.join(VERIF, "DESIGN.md")
    s = open(p).read()
    s = between(s, "properties", "\n".join(out))
    rows = ["## Planted bugs", "", "All in `seeded/`, each with a demonstration that is independent of "
            "the checks. The last column is the outcome of the quick check of the property.", "",
            "| Bug | Property | Needs | Check |", "|---|---|---|---|"]
    sd = os.path.join(VERIF, "seeded")
    caught = {}
    rf = os.path.join(VERIF, "bin", "seeded_results.json")
    if os.path.exists(rf):
        caught = json.load(open(rf))
    for i in sorted(os.listdir(sd)) if os.path.isdir(sd) else []:
        m = json.load(open(os.path.join(sd, i, "meta.json")))
        rows.append("| %s | %s | %s | %s |" % (i, m["property"], m["needs"], caught.get(i, "not run")))
    s = between(s, "seeded", "\n".join(rows + [""]))
    open(p, "w").write(s)


def between(s, name, text):
    a, b = "<!-- generated: %s -->\n" % name, "<!-- end generated -->"
    i = s.index(a) + len(a)
    j = s.index(b, i)
    return s[:i] + text + "\n" + s[j:]


if __name__ == "__main__":
    import props
    props.main()
