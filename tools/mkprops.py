import json
P=[]
def prop(id,title,statement,over,qtext,why,files,mech,observe,hook=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=hook)))
prop("C01","A data stream is the byte sequence it stands for",
 "For a data stream opened over a file or over memory, the size, every seek result and every byte returned by a read equal those of the underlying byte sequence, and a read returns no data only at the end. An exact read delivers exactly the requested bytes however the operating system splits or interrupts the underlying reads, and fails only when the data ends first or the underlying read fails. A failed call never changes what later calls return.",
 ["inputs","histories","fault_sequences"],"every content, every history of seek/read/exact-read/size calls, every splitting of the underlying reads, every placement of EINTR, EIO and short reads",
 "The unit tests read small files that the kernel always delivers in one piece and without errors; they never see a short read, an interruption or an error in the middle of a history.",
 ["keramics-core/src/data_stream.rs","keramics-core/src/os_data_stream.rs","keramics-core/src/fake_data_stream.rs","keramics-core/src/macros.rs"],
 [("provided methods of the DataStream trait","keramics-core/src/data_stream.rs"),("File as DataStream","keramics-core/src/os_data_stream.rs"),("in-memory stream","keramics-core/src/fake_data_stream.rs")],
 ["DataStream::read/read_exact/read_at_position/read_exact_at_position/seek/get_size"])
prop("C02","Fixed-layout records read from a stream are the bytes at that position",
 "Reading a record that is described by a layout map from a position in a stream yields the same record as parsing the bytes stored at that position, with the declared field offsets, sizes and byte order. It fails, rather than yielding a record made of other bytes, when the stream ends inside the record or the read fails, and a failure does not affect a later attempt.",
 ["inputs","programs","fault_sequences"],"every record layout kind the macros support, every content and position, every splitting and failure of the underlying reads",
 "The macro tests compare generated token streams; no test reads a record through a stream that delivers it in pieces or fails.",
 ["keramics-layout-map/src/structure.rs","keramics-layout-map/src/macros.rs","keramics-layout-map/src/bitmap.rs"],
 [("generated read_at_position","keramics-layout-map/src/structure.rs"),("generated debug_read_data","keramics-layout-map/src/structure.rs")],["read_at_position of types deriving LayoutMap"])
prop("C03","Digest hashes do not depend on how the data is delivered",
 "The MD5, SHA-1, SHA-224, SHA-256 and SHA-512 of a data stream equal the standard digest of its bytes for every way the data is delivered: any sequence of update sizes, any splitting of the reads that feed it, any interleaving with other contexts and threads. A finished context starts afresh and disturbs no other context, and a read error before the end never yields a digest.",
 ["inputs","histories","schedules","fault_sequences"],"every content length and content, every partition of it into updates, every interleaving of clients, every splitting/interruption of the feeding reads",
 "The tests hash a handful of fixed strings in one or two updates; padding, carry and block boundary behaviour depends on the total length and on every update boundary.",
 ["keramics-hashes/src/md5.rs","keramics-hashes/src/sha1.rs","keramics-hashes/src/sha224.rs","keramics-hashes/src/sha256.rs","keramics-hashes/src/sha512.rs","keramics-tools/src/hasher.rs"],
 [("block buffering in update","keramics-hashes/src/*.rs"),("padding in finalize","keramics-hashes/src/*.rs"),("read loop of the hash tool","keramics-tools/src/hasher.rs")],["DigestHashContext::update/finalize","DigestHasher::calculate_hash_from_reader"])
prop("C04","Checksums do not depend on how the data is delivered",
 "The Adler-32 and (reversed) CRC-32 checksums equal their mathematical definition over the concatenation of all data passed since the context was created or last finalized, for every partition of the data into updates. Finalizing resets the context to its initial value.",
 ["inputs","histories","schedules"],"every content, every partition into updates, every sequence of finalize/update, every interleaving of contexts, every polynomial and initial value",
 "The tests checksum one fixed buffer per algorithm in one update; deferred modulo reduction and lazily built tables only matter for longer and split input.",
 ["keramics-checksums/src/adler32.rs","keramics-checksums/src/crc32.rs"],
 [("deferred modulo","keramics-checksums/src/adler32.rs"),("lazy lookup table","keramics-checksums/src/crc32.rs")],["Adler32Context, Crc32Context, ReversedCrc32Context"])
prop("C05","Signature scanning reports true matches only, and misses none",
 "Scanning data with a set of signatures reports a signature at an offset only if its pattern is really there under its binding (offset from the start, from the end, or anywhere). When at least one start-bound (end-bound) signature is present and its range is scanned in one buffer, one of those present is reported; every place in a scanned buffer where an unbound signature is present is reported unless an earlier match overlaps it. The outcome is the same in every process and thread, independent of hash map ordering and of the order in which signatures were added, and building and scanning never fail on any signatures and data.",
 ["inputs","histories","schedules","configurations"],"every signature set, every data content and size, every hash seed, every sharing of one scanner by concurrent scan contexts",
 "The tests scan one or two fixed buffers with two fixed signatures; the scan tree is built through randomly seeded hash maps, so its shape differs between processes.",
 ["keramics-sigscan/src/scan_context.rs","keramics-sigscan/src/scan_tree.rs","keramics-sigscan/src/signature.rs","keramics-sigscan/src/signature_table.rs","keramics-sigscan/src/skip_table.rs","keramics-sigscan/src/pattern_weights.rs"],
 [("scan tree","keramics-sigscan/src/scan_tree.rs"),("skip table","keramics-sigscan/src/skip_table.rs"),("pattern matching","keramics-sigscan/src/signature.rs")],["Scanner::build","ScanContext::scan_buffer","ScanContext::results"])
prop("C06","Format detection sees every signature in the data",
 "Scanning a data stream for known formats reports a format only if a signature of that format is present at its place. When signatures of one or more formats are present at the start (end) of the data, one of those present is reported, whatever the size of the stream, the position it was left at, and however its reads are split. The outcome is the same every time, and a failed read makes the scan fail rather than report less.",
 ["inputs","fault_sequences"],"every stream content and size around the header and footer ranges, every splitting and failure of the reads",
 "The tests scan complete image files delivered in one piece.",
 ["keramics-formats/src/scanner.rs","keramics-sigscan/src/scan_context.rs"],
 [("FormatScanner::scan_data_stream","keramics-formats/src/scanner.rs")],["FormatScanner"])
def img(id,name,extra,files,mech,obs,q=""):
    prop(id,name+": the virtual disk has the bytes the image stores",
     "The virtual disk exposed by a valid "+name+" image has the size the image declares and at every offset the bytes that the format's on-disk structures assign to it, including sparse and unallocated ranges"+extra+". This holds for every history of seeks and reads of any size and alignment, and for every way the underlying reads are split. A transient read error may fail the operation it hits but never yields wrong bytes, then or later.",
     ["inputs","configurations","histories","fault_sequences"],"every layout the format permits (block sizes, allocation maps, table placement, chains"+q+"), every read/seek history, every splitting and transient failure of the underlying reads",
     "The tests open a few fixed images (most of them missing from this repository) and read a few fixed offsets with reads that are never split and never fail.",
     files,mech,obs)
F="keramics-formats/src/"
BT=("block tree and range cache",F+"block_tree.rs, "+F+"lru_cache.rs")
img("C07","Sparse disk image (sparseimage)","",[F+"sparseimage",F+"block_tree.rs"],[("band table",F+"sparseimage/file.rs"),BT],["sparseimage::SparseImageFile as DataStream"])
img("C08","Sparse bundle",", short and missing bands",[F+"sparsebundle",F+"plist",F+"lru_cache.rs"],[("band files",F+"sparsebundle/image.rs"),("Info.plist",F+"plist")],["sparsebundle::SparseBundleImage as DataStream"],", missing band files")
img("C09","VHD"," and the parents of differential disks",[F+"vhd",F+"block_tree.rs"],[("block allocation table",F+"vhd/block_allocation_table.rs"),("sector bitmaps",F+"vhd/sector_bitmap.rs"),("layers",F+"vhd/image.rs")],["vhd::VhdFile / VhdImage layers as DataStream"],", differential chains")
img("C10","VHDX"," and the parents of differential disks",[F+"vhdx",F+"block_tree.rs"],[("headers and regions",F+"vhdx/file.rs"),("block allocation table",F+"vhdx/block_allocation_table.rs"),("sector bitmaps",F+"vhdx/sector_bitmap.rs"),("layers",F+"vhdx/image.rs")],["vhdx::VhdxFile / VhdxImage layers as DataStream"],", differential chains")
img("C11","QCOW"," and the backing files",[F+"qcow",F+"block_tree.rs"],[("cluster tables",F+"qcow/cluster_table.rs"),("layers",F+"qcow/image.rs")],["qcow::QcowFile / QcowImage layers as DataStream"],", backing chains")
img("C12","UDIF (DMG)"," and compressed blocks",[F+"udif","keramics-compression/src"],[("block tables",F+"udif/file.rs"),("decompression","keramics-compression/src")],["udif::UdifFile as DataStream"],", block types and compression methods")
img("C13","EWF (E01)"," and compressed chunks across segment files",[F+"ewf","keramics-compression/src/zlib.rs"],[("sections and tables",F+"ewf/image.rs"),("chunk checksums and decompression",F+"ewf/image.rs")],["ewf::EwfImage as DataStream"],", segment counts, chunk sizes")
prop("C14","Partitions are the byte ranges their tables declare",
 "Opening an APM, GPT or MBR partitioned disk yields exactly the partitions that its tables declare, in table order, and each partition's data is exactly the declared byte range of the disk, ending at the partition's end. This holds for extended partition chains, for either copy of the GPT header being damaged, and for every splitting and transient failure of the underlying reads.",
 ["inputs","configurations","histories","fault_sequences"],"every partition layout and sector size, every damage to one of two redundant headers, every read/seek history and splitting of reads",
 "The tests use one fixed image per format (missing from this repository).",
 [F+"apm",F+"gpt",F+"mbr"],[("APM partition map",F+"apm/volume_system.rs"),("GPT headers and entries",F+"gpt/volume_system.rs"),("MBR and extended records",F+"mbr/volume_system.rs")],["volume systems and their partitions as DataStream"])
def fs(id,name,extra,files,mech):
    prop(id,name+": the files and directories are those stored on the volume",
     "For a valid "+name+" volume, walking the directories from the root yields exactly the stored tree of names, every stored path can be opened and no other, and each file's size and content equal what is stored"+extra+". The times, attributes and owners of each entry and the label of the volume are those stored too. This holds in any order of operations, for every way the underlying reads are split, and a transient read error never yields a wrong name, tree, content or attribute, then or later.",
     ["inputs","configurations","histories","fault_sequences"],"every tree of files and directories, allocation and fragmentation, volume geometry, every history of lookups and reads, every splitting and transient failure of the underlying reads",
     "The tests use one small fixed image per variant (most of them missing from this repository) and a few fixed paths, never with split or failing reads.",
     files,mech,["file system, file entry and data stream API"])
fs("C15","FAT"," for FAT-12, FAT-16 and FAT-32, including long names",[F+"fat"],[("cluster chains",F+"fat/block_allocation_table.rs, "+F+"fat/block_stream.rs"),("directory entries and long names",F+"fat/directory_entries.rs"),("path lookup",F+"fat/file_system.rs")])
fs("C16","ext2/3/4"," for block maps, extents, inline data, sparse files and symbolic links",[F+"ext"],[("inode block maps and extents",F+"ext/block_numbers_tree.rs, "+F+"ext/extents_tree.rs"),("directory entries",F+"ext/directory_tree.rs"),("block stream",F+"ext/block_stream.rs")])
fs("C17","NTFS"," for resident, non-resident, sparse and compressed streams and alternate data streams",[F+"ntfs"],[("MFT and fix-up values",F+"ntfs/mft_entry.rs, "+F+"ntfs/fixup_values.rs"),("data runs",F+"ntfs/data_run.rs, "+F+"ntfs/cluster_group.rs"),("directory index",F+"ntfs/directory_index.rs"),("compressed stream",F+"ntfs/compressed_stream.rs")])
prop("C18","Concurrent readers of one source never disturb each other",
 "When several threads read through streams that share one underlying source (partitions of one disk, files of one volume, layers of one image, or clones of one stream reference) each thread's positioned reads return the same bytes as when it runs alone, for every interleaving of the threads. No interleaving deadlocks, and an error in one reader does not affect the others.",
 ["schedules","histories","fault_sequences"],"every interleaving of the threads at every underlying I/O call and lock operation, every history per thread, every transient error",
 "All existing tests are single threaded.",
 ["keramics-core/src/macros.rs","keramics-core/src/data_stream.rs",F+"mbr/partition.rs",F+"gpt/partition.rs",F+"fat/block_stream.rs",F+"ext/block_stream.rs"],
 [("shared stream reference behind a lock","keramics-core/src/data_stream.rs"),("seek and read under one lock","keramics-core/src/macros.rs")],["DataStreamReference shared between threads"])
prop("C19","Damaged storage is contained",
 "Opening and reading damaged or truncated data in any supported format ends with a result or an error within bounded time, bounded I/O and bounded memory. It never panics, hangs, exhausts the stack or memory, or ends the process.",
 ["inputs","fault_sequences","crash_points"],"every valid image damaged by bit flips, lost, torn, misdirected or zeroed sectors, truncation at every point and hostile field values",
 "The tests only open well-formed images; damage sites and their combinations are unbounded.",
 ["keramics-formats/src","keramics-compression/src","keramics-vfs/src"],
 [("validation of on-disk values","keramics-formats/src/**"),("bounds of decompressors","keramics-compression/src")],["every open/read entry point of the formats crate"])
prop("C20","Checksummed structures never pass damaged bytes off as good",
 "Where a format protects a structure or the data with a checksum (EWF sections, tables and chunks, VHDX headers and region tables, GPT headers and partition entries, ext4 superblocks, group descriptors and inodes, zlib and bzip2 streams with trailers), damage to the protected bytes makes the affected operation fail or an intact redundant copy be used. It never silently changes the data returned.",
 ["inputs","fault_sequences"],"every placement of stored-byte damage inside protected structures of a valid image, every read history",
 "The tests only read undamaged images.",
 [F+"ewf",F+"vhdx",F+"gpt",F+"ext","keramics-compression/src/zlib.rs","keramics-compression/src/bzip2.rs"],
 [("checksum verification",F+"**"),("redundant copies",F+"vhdx/file.rs, "+F+"gpt/volume_system.rs")],["open and read results"])
prop("C21","The virtual file system resolves nested storage to the right bytes",
 "Resolving a location through any nesting of storage layers (operating system file, image, partition, file system) reaches exactly the stored files and directories and their bytes, and scanning a source discovers exactly the layers present. The result does not depend on earlier lookups, and a failure of one lookup does not affect later ones.",
 ["inputs","configurations","histories","fault_sequences"],"every nesting of generated storage, every history of scans, lookups and reads, every splitting and transient failure of the underlying system calls",
 "The tests use fixed single-layer images, most of them missing from this repository.",
 ["keramics-vfs/src"],[("resolver and context","keramics-vfs/src/resolver.rs, keramics-vfs/src/context.rs"),("file systems","keramics-vfs/src/file_system.rs"),("scanner","keramics-vfs/src/scanner")],["VfsResolver, VfsScanner, VfsFinder, VfsFileEntry"])
prop("C22","The tools deliver complete and correct output or report failure",
 "Hashing a source gives the digest of exactly its bytes, and exporting a data stream writes exactly its bytes to the target, however the operating system splits or interrupts reads and writes. Listings (bodyfile, hierarchy, information) show exactly the entries, partitions and images present. When a read or write fails, or the disk is full, the tool reports a failure and does not report a wrong digest or a complete export; run again after the failure, or after being killed, it succeeds.",
 ["inputs","fault_sequences"],"every content and size, every splitting, interruption and failure of the reads and writes",
 "The tools have no tests of their read and write loops.",
 ["keramics-tools/src/hasher.rs","keramics-tools/src/writer.rs","keramics-tools/src/range_stream.rs","keramics-tools/src/hash_tool.rs","keramics-tools/src/export_tool.rs","keramics-tools/src/image_tool.rs","keramics-tools/src/info_tool.rs"],
 [("hash loop","keramics-tools/src/hasher.rs"),("export loop","keramics-tools/src/writer.rs")],["exit codes, standard output and exported files of keramicshash, keramicsexport, keramicsimage and keramicsinfo", "FileRangeDataStream"])
prop("N01","Date and time values convert exactly",
 "Every supported timestamp representation converts to the calendar date and time it denotes, and formatting is the inverse of parsing.",
 ["inputs"],"every representable timestamp","A handful of values are tested per type; the domain is 2^32 to 2^128 values.",
 ["keramics-datetime/src"],[("conversions","keramics-datetime/src/*.rs")],["to_iso8601_string, get_date_values"])
prop("N02","Character encodings round trip",
 "For every supported code page, decoding yields the character the code page's definition assigns to each byte sequence, encoding is its inverse, and sequences outside the definition are rejected.",
 ["inputs"],"every byte sequence and character of every code page","The tests cover a few strings per code page.",
 ["keramics-encodings/src"],[("tables","keramics-encodings/src/*.rs")],["CharacterDecoder, CharacterEncoder"])
prop("N03","Basic types parse and print consistently",
 "UUIDs, byte strings, UCS-2 and UTF-16 strings read from bytes print as their standard textual form, and parsing that text gives the same value.",
 ["inputs"],"every value","A few values per type are tested.",
 ["keramics-types/src"],[("types","keramics-types/src/*.rs")],["from_*_bytes, to_string, from_string"])
prop("N04","Compile-time layout macros reject inconsistent layouts",
 "A layout declaration that is inconsistent (overlapping, unsized or ill-typed fields) is rejected at compile time, and a consistent one compiles to code with the declared offsets.",
 ["programs"],"every layout declaration","Only some declarations are tested.",
 ["keramics-layout-map/src"],[("macro parsing","keramics-layout-map/src/macros.rs")],["compilation of deriving types"])
prop("N05","Documentation tables render what they describe",
 "The mdbook table preprocessor renders each table description into the equivalent HTML table.",
 ["inputs"],"every table description","Some descriptions are tested.",
 ["docs/mdbook-tables/src"],[("preprocessor","docs/mdbook-tables/src")],["rendered output"])
with open('/verif/properties.jsonl','w') as f:
    for p in P: f.write(json.dumps(p)+"\n")
print(len(P))
