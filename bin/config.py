"""What is built for each check, and how much of it each tier runs."""
import os
from vbuild import VERIF, REPO

SRC = REPO + "/src/paimon"

# The part of the library that needs none of Arrow, ORC, Parquet, Avro.
BASE = """
common/data/binary_section.cpp common/data/binary_string.cpp common/data/blob_descriptor.cpp
common/data/timestamp.cpp common/defs.cpp common/executor/executor.cpp
common/factories/factory_creator.cpp common/factories/io_hook.cpp common/factories/singleton.cpp
common/file_index/bitmap/bitmap_file_index_meta_v1.cpp
common/file_index/bitmap/bitmap_index_result.cpp
common/file_index/bsi/bit_slice_index_roaring_bitmap.cpp common/file_index/file_index_reader.cpp
common/file_index/file_index_result.cpp common/file_index/file_indexer_factory.cpp
common/format/column_stats.cpp common/format/file_format_factory.cpp
common/fs/file_system_factory.cpp common/fs/resolving_file_system.cpp
common/global_index/bitmap_global_index_result.cpp
common/global_index/bitmap_vector_search_global_index_result.cpp
common/global_index/global_index_result.cpp common/global_index/global_indexer_factory.cpp
common/io/buffered_input_stream.cpp common/io/byte_array_input_stream.cpp
common/io/data_input_stream.cpp common/io/data_output_stream.cpp
common/io/memory_segment_output_stream.cpp common/io/offset_input_stream.cpp
common/memory/bytes.cpp common/memory/memory_pool.cpp common/memory/memory_segment.cpp
common/memory/memory_segment_utils.cpp common/metrics/metrics_impl.cpp
common/types/row_kind.cpp common/utils/bloom_filter64.cpp
common/utils/delta_varint_compressor.cpp common/utils/range.cpp
common/utils/roaring_bitmap32.cpp common/utils/roaring_bitmap64.cpp common/utils/status.cpp
core/catalog/identifier.cpp core/manifest/file_kind.cpp core/manifest/file_source.cpp
core/operation/commit_context.cpp core/operation/scan_context.cpp
core/table/source/plan_impl.cpp core/table/source/startup_mode.cpp
core/utils/partition_path_utils.cpp fs/local/local_file.cpp
""".split()
BASE = [SRC + "/" + s for s in BASE]
THIRD = [REPO + "/third_party/roaring_bitmap/roaring.cpp", REPO + "/third_party/xxhash/xxhash.c"]

DEFS = ["-DPAIMON_ENABLE_ORC", "-DPAIMON_ENABLE_AVRO", "-DSNAPPY_CODEC_AVAILABLE",
        "-DZSTD_CODEC_AVAILABLE", "-DRAPIDJSON_HAS_STDSTRING"]
INC = ["-I" + REPO + "/src", "-I" + REPO + "/include", "-I" + REPO + "/test",
       "-I" + REPO + "/third_party/roaring_bitmap", "-I" + REPO + "/third_party/xxhash",
       "-I" + VERIF + "/pbt"]
WARN = ["-w"]

SAN = {
    "asan": ["-fsanitize=address",
             "-fsanitize=integer-divide-by-zero,bounds,null,return,"
             "unreachable,bool,enum",
             "-fno-sanitize-recover=all"],
    "tsan": ["-fsanitize=thread"],
    "plain": [],
}


def flavor_flags(flavor):
    san = SAN[flavor]
    common = ["-g1", "-O1", "-fno-omit-frame-pointer", "-pthread", "-fPIC"] + WARN + san + DEFS + INC
    return dict(cc="clang", cxx="clang++", cflags=["-std=gnu11"] + common,
                third=["-fno-sanitize=undefined"] if flavor == "asan" else [],
                cxxflags=["-std=c++17", "-D_GLIBCXX_ASSERTIONS"] + common,
                ldflags=["-pthread", "-fuse-ld=lld"] + san if os.path.exists("/usr/bin/ld.lld")
                else ["-pthread"] + san)


LIBS = ["-lfmt", "-ltbb", "-ldl"]


def lib_sources(lib):
    """The library with tables, compiled against the stand-ins for Arrow and the file formats."""
    assert lib == "core"
    srcs = []
    for d in ("common", "core", "format/blob", "fs/local"):
        for root, _, files in os.walk(SRC + "/" + d):
            srcs += [root + "/" + f for f in files
                     if f.endswith(".cpp") and not f.endswith("_test.cpp")]
    mine = [VERIF + "/arrow_min/arrow/mini.cpp", VERIF + "/core/vfmt.cpp", VERIF + "/core/memfs.cpp"]
    return (sorted(srcs) + THIRD + mine,
            ["-I" + VERIF + "/arrow_min", "-I" + VERIF + "/core", "-g0"])


def lib_libs(lib):
    return ["-lglog"]


# property -> list of runs. Each run: harness sources, flavor, cases per tier.
CHECKS = {}


def check(pid, rule, runs, level="exploration", assumptions=()):
    for r in runs:
        r["share"] = len(runs)
    CHECKS[pid] = dict(rule=rule, runs=runs, level=level, assumptions=list(assumptions))


def run(src, quick, thorough, flavor="asan", lib="base", **kw):
    d = dict(src=src, quick=quick, thorough=thorough, flavor=flavor, lib=lib)
    d.update(kw)
    return d


import checks  # noqa: E402,F401  (fills CHECKS)
