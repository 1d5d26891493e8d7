#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state: d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    if observe: d["anchors"]["observe_at"] = observe
    d["anchors"]["hook_needed"] = hook
    P.append(d)

NOFIX = "The 125 reliable tests carry no camera RAW file: "

p("C01", "Lossless-JPEG raw data decodes to exactly the encoded samples",
  "For every image that lossless JPEG (ITU T.81 process 14, as camera raws use it) can represent - any sample values, precision, predictor, number of interleaved components, Huffman table, restart interval and point transform the decoder accepts - the decoded raw data is sample-for-sample the image that was encoded. The result does not depend on whether the stream is decoded alone or inside a raw file.",
  ["inputs"], "all images up to the enumerated sizes over boundary sample alphabets x precision 2..16 x predictors 1..7 x 1..4 components x restart intervals x Huffman table shapes",
  NOFIX + "one 2x2-component JPEG stream is decoded and compared with a stored size; predictors, precisions, restart intervals and difference categories are never varied.",
  ["src/decompress/ljpeg.rs", "src/decompress.rs", "src/decompress/tiled.rs", "src/dng.rs", "src/canon/cr2.rs"],
  [("LJpeg decoder", "src/decompress/ljpeg.rs"), ("bit buffer fill / marker handling", "src/decompress/ljpeg.rs fill_bit_buffer, process_restart"), ("predictors", "src/decompress/ljpeg.rs predict")],
  observe=["RawFile::raw_data(false)", "LJpeg::discard_decompress"])

p("C02", "Packed and plain sample storage is unpacked bit-exactly",
  "Uncompressed raw samples are returned exactly as stored, for every supported bit depth, byte order, packing layout and row padding, in row-major order of the sensor; a sample never depends on bits outside its own storage. For compressed data, asking for undecoded data returns the stored bytes themselves.",
  ["inputs", "configurations"], "every storage layout a format of this library uses (8/10/12/14/16 bit, big/little endian, packed, padded, interlaced) x every single-bit image and every pair of adjacent samples over a boundary alphabet",
  NOFIX + "the unpackers are tested on one ramp each; byte orders, odd tails and the container glue that selects the layout are not exercised.",
  ["src/decompress.rs", "src/tiff.rs", "src/olympus.rs", "src/minolta.rs", "src/fujifilm.rs", "src/panasonic.rs", "src/sony.rs", "src/nikon.rs", "src/epson.rs", "src/pentax.rs"],
  [("unpack_be14to16/12to16/10to16/le variants", "src/decompress.rs"), ("tiff_get_rawdata_with_endian", "src/tiff.rs"), ("vendor load_rawdata", "src/*.rs")],
  observe=["RawFile::raw_data(false)", "RawFile::raw_data(true)"])

p("C03", "Huffman-predictive vendor raws decode to the encoded samples",
  "For Nikon NEF, Pentax PEF and Canon CRW compressed raw data, decoding a stream produced by the format's own rules from any image gives back that image exactly (for lossy modes: the image after the file's own tone curve, in the alignment the library documents). This holds for every Huffman table and curve variant the file can select.",
  ["inputs", "configurations"], "all small images over difference-category boundary alphabets x every built-in or in-file Huffman table x every curve variant",
  NOFIX + "no Nikon, Pentax or CRW image data is ever decoded end to end; unit tests decode a handful of hand-written tokens.",
  ["src/nikon.rs", "src/nikon/diffiterator.rs", "src/nikon/huffman.rs", "src/pentax/decompress.rs", "src/pentax.rs", "src/canon/crw/decompress.rs", "src/canon/crw.rs", "src/decompress/bit_reader.rs"],
  [("Nikon DiffIterator + NikonDecoder", "src/nikon/diffiterator.rs"), ("Pentax decompressor", "src/pentax/decompress.rs"), ("CRW decompressor", "src/canon/crw/decompress.rs"), ("bit reader", "src/decompress/bit_reader.rs")],
  observe=["RawFile::raw_data(false)"])

p("C04", "Block-adaptive vendor raws decode to the encoded samples",
  "For Panasonic RW2, Olympus ORF and Fujifilm RAF compressed raw data, decoding a stream that follows the format's adaptive coding rules yields exactly the image that was encoded, for any image content, including content that drives every branch of the adaptive state. Every pixel of the declared sensor area is produced by its own block or strip.",
  ["inputs"], "all token sequences per block up to a bound (every branch of the adaptive state machine) x image geometries of one to three blocks/rows/strips, against independent reference codecs",
  NOFIX + "no Panasonic, Olympus or Fujifilm compressed image is decoded and compared; the adaptive state machines are not exercised.",
  ["src/panasonic/decompress.rs", "src/olympus/decompress.rs", "src/olympus.rs", "src/fujifilm/decompress.rs", "src/fujifilm.rs"],
  [("decompress_panasonic1", "src/panasonic/decompress.rs"), ("decompress_olympus", "src/olympus/decompress.rs"), ("fuji strip decoder", "src/fujifilm/decompress.rs")],
  observe=["RawFile::raw_data(false)", "decompress_olympus"])

p("C05", "Parallel decoding gives the same image under every schedule",
  "Wherever an image is decoded by several parallel tasks (tiles, row interlaces, strips), the decoded image is the same for every order in which the tasks run, each pixel is written by exactly one task, and no task reads what another one writes. An error in one task is reported the same way whatever the schedule.",
  ["schedules"], "every schedule of a fork-join thread pool of 1 to 4 threads (which job a thread takes or steals at each step, and up to two preemptions at allocation and log points) for images of up to 6 tasks, plus the set of bytes each task writes, under different initial contents",
  "The tests run whatever schedule the thread pool picks, on no multi-tile image at all.",
  ["src/decompress/tiled.rs", "src/olympus.rs", "src/fujifilm/decompress.rs"],
  [("par_iter over tiles", "src/decompress/tiled.rs"), ("par_chunks_mut over interlaced rows", "src/olympus.rs"), ("par_iter over strips writing a shared image", "src/fujifilm/decompress.rs")],
  observe=["RawFile::raw_data(false)"])

p("C06", "Tiles, slices and strips land at their place in the image",
  "An image stored in pieces - tiles or vertical slices of any size, including pieces that overhang the right or bottom edge, or strips stored one after the other - decodes to the same raw data as the same image stored in one piece: each piece contributes exactly its own rectangle, in the declared order. Bytes belonging to padding or to another piece never appear in the image.",
  ["inputs", "configurations"], "all partitions of images up to the enumerated size into tile grids, slice tables and strip lists",
  NOFIX + "slices are tested on one table; tiled images and multi-strip files are never decoded.",
  ["src/decompress/tiled.rs", "src/decompress/sliced_buffer.rs", "src/tiff.rs", "src/canon/cr2.rs", "src/dng.rs"],
  [("TiledLJpeg::combine_tiles", "src/decompress/tiled.rs"), ("SlicedBuffer/SliceIterator", "src/decompress/sliced_buffer.rs"), ("strip offsets/byte counts", "src/tiff.rs")],
  observe=["RawFile::raw_data(false)", "RawFile::raw_data(true)"])

p("C07", "A TIFF entry's value is what the file stores, in every encoding",
  "For every entry of a directory reached through the file (main, sub, Exif, GPS, maker note), the tag, type, count and value the API returns equal those stored, for every TIFF type, count, byte order and whether the value is stored inline or at an offset. Reading a value as a type it does not have, or at an index it does not have, is reported as absent and never as data.",
  ["inputs", "configurations"], "all TIFF types x counts 0..5 (and inline/offset boundary) x both byte orders x value alphabets x every accessor and index",
  "Tests look at one sample TIFF in one byte order and a few hand-built entries.",
  ["src/tiff/entry.rs", "src/tiff/dir.rs", "src/tiff/exif.rs", "src/tiff/container.rs", "src/tiff/iterator.rs"],
  [("Entry accessors", "src/tiff/entry.rs"), ("directory parser", "src/tiff/dir.rs"), ("ExifValue impls", "src/tiff/exif.rs")],
  observe=["RawFile::main_ifd/exif_ifd/maker_note_ifd", "Dir::entry/value/uint_value", "metadata::Iterator"])

p("C08", "The metadata iterator yields every top-level entry once, under its own key",
  "Iterating over a file's metadata yields every entry of every top-level (chained) directory exactly once, directories in chain order and entries by ascending tag within each, with a key naming its kind of directory and its tag, and the value stored; looking up a key of the main directory gives the same value as the iterator does, and a key that is not there is absent. Two iterators over one file, or an iterator interleaved with other calls, do not disturb each other.",
  ["inputs", "histories"], "all directory graphs up to the enumerated size (chains, sub-directories, Exif, GPS, maker note, empty directories) x interleavings of iterator steps with other calls",
  "One sample TIFF is iterated, once, alone.",
  ["src/metadata.rs", "src/tiff/iterator.rs", "src/tiff/dir.rs", "src/rawfile.rs", "src/capi/iterator.rs"],
  [("dir_iterator / metadata::Iterator", "src/tiff/iterator.rs, src/metadata.rs"), ("metadata_value", "src/rawfile.rs")],
  observe=["RawFile::metadata", "RawFile::metadata_value", "or_metadata_iterator_*"])

p("C09", "Format identification is consistent and content-driven",
  "A file is identified by its content when no hint is given, whatever it is called or through whichever entry point it is opened; opening from a path, from memory or from a stream with the same hint gives the same kind of file. The published extension and MIME tables, the file type and the MIME type reported for an open file agree with each other, and content matching no known format is refused as unrecognised rather than guessed or crashed on.",
  ["inputs", "configurations"], "every extension spelling (all letter cases) x every MIME type x every type hint x every signature and every one-byte change or truncation of a signature, through every entry point",
  "A few extensions and five signature files are tried; mutated or truncated signatures and cross-entry-point agreement are not.",
  ["src/identify.rs", "src/rawfile.rs", "src/factory.rs", "src/capi/mime.rs", "src/capi/rawfile.rs", "src/lib.rs"],
  [("type_for_content/type_for_extension/type_for_mime_type", "src/identify.rs"), ("factory table", "src/factory.rs"), ("identify_extension", "src/rawfile.rs")],
  observe=["rawfile_from_file/memory/io", "extensions()", "mime_types()", "RawFile::type_/mime_type"])

p("C10", "Every listed camera is recognised as itself",
  "A file whose make and model strings (or model number) are those of a supported camera reports that camera's published type identifier and vendor, in whichever format the camera writes, and gets that camera's own built-in calibration; an unlisted model reports its vendor (or unknown) and never another camera's identity. The identifiers agree with the published C header.",
  ["inputs"], "every make/model string and Canon model id in the library's camera tables x every byte-order and carrier format, plus each model name with one character removed or appended",
  "Only five Canon model names are tested.",
  ["src/camera_ids.rs", "src/canon.rs", "src/nikon.rs", "src/sony.rs", "src/panasonic.rs", "src/olympus.rs", "src/pentax.rs", "src/fujifilm.rs", "src/minolta.rs", "src/epson.rs", "src/dng.rs", "src/tiff.rs", "include/libopenraw/cameraids.h"],
  [("MAKE_TO_ID_MAP tables", "src/*.rs"), ("tiff::identify_with_exif", "src/tiff.rs"), ("builtin matrices", "src/*/matrices.rs")],
  observe=["RawFile::type_id/vendor_id", "RawFile::colour_matrix"])

p("C11", "What a call returns does not depend on the calls made before it",
  "On one open file, every query (type, identity, metadata, directories, thumbnails, raw data, rendering, colour data, dump) returns the same result whatever queries were made before it, in whatever order and however often, including after queries that failed. Repeating a query returns an equal result.",
  ["histories"], "all sequences of API calls up to depth 3 (quick) / 4 (thorough) over the full call alphabet, on one file of every format, each result compared with the first-call result on a fresh handle",
  "Each test opens a file and makes calls in one fixed order; lazily created state and the shared file cursor are never permuted.",
  ["src/rawfile.rs", "src/io.rs", "src/container.rs", "src/tiff/container.rs", "src/canon/crw.rs", "src/canon/cr3.rs", "src/fujifilm.rs", "src/minolta.rs", "src/mp4/container.rs"],
  [("OnceCell-cached container/thumbnails/ifds", "src/*.rs"), ("views sharing one file cursor", "src/io.rs"), ("lazy directory loading", "src/tiff/container.rs")],
  state=[("shared cursor", "position of the one underlying stream all views read from", "src/io.rs View"), ("lazy cells", "container, directories, thumbnails, type id computed on first use", "src/*.rs OnceCell")],
  observe=["every RawFile/RawFileImpl method"])

p("C12", "Open files are independent of each other and of threads",
  "Work on one open file never changes what another open file returns: for any interleaving of calls on several handles - in one thread or in several, including the very first calls of the process - each handle returns what it returns when used alone. Dropping one handle does not affect data obtained from, or calls on, another.",
  ["schedules", "histories"], "all interleavings of call sequences on 2 handles (and 3 thorough) across formats, each in a fresh process so process-wide lazy state starts cold, single-threaded and with one real thread per handle under a controlled scheduler",
  "No test opens two files at once or uses a second thread.",
  ["src/identify.rs", "src/canon.rs", "src/tiff/exif.rs", "src/fujifilm/decompress.rs", "src/rawfile.rs", "src/capi/rawfile.rs"],
  [("process-wide lazies", "lazy_static!/Lazy/thread_local tables in src/*.rs"), ("per-handle state", "src/*.rs")],
  observe=["every RawFile method"])

p("C13", "Results do not depend on how the stream delivers its bytes",
  "For any stream that returns the file's bytes correctly, every query gives the same result however the stream chops its reads: short reads of any size at any point, and interrupted reads that must be retried, are invisible.",
  ["fault_sequences"], "for one file of every format: every read call shortened to each of {1 byte, half, all-but-one}, or interrupted, one and two deviations at every point, plus always-1-byte streams",
  "Tests read from complete in-memory cursors that never return short.",
  ["src/io.rs", "src/container.rs", "src/identify.rs", "src/tiff/container.rs", "src/jpeg/container.rs", "src/fujifilm/raf.rs", "src/minolta.rs", "src/canon/crw/ciff/container.rs", "src/mp4/container.rs"],
  [("View::read passes short reads through", "src/io.rs"), ("load_buffer8/load_buffer16", "src/container.rs"), ("type_for_content", "src/identify.rs")],
  observe=["rawfile_from_io", "every RawFile method"], hook="the stream trait must be nameable outside the crate to plug in a fault-injecting stream")

p("C14", "A failing stream yields an error, never a crash or invented data",
  "If the stream fails a read or a seek at any point, every query either reports an error (or absence), or returns exactly what it returns without the failure; it never panics, hangs, or returns data that is not in the file. Once the stream works again, a new handle is unaffected.",
  ["fault_sequences"], "for one file of every format and every query: an I/O error at each single stream operation (and at every operation from that point on)",
  "No test injects an I/O failure.",
  ["src/io.rs", "src/container.rs", "src/tiff/container.rs", "src/mp4/container.rs", "src/canon/cr3.rs", "src/canon/crw/ciff/container.rs", "src/fujifilm/raf.rs", "src/minolta.rs", "src/sony.rs"],
  [("error propagation with ?", "src/*.rs"), ("partially read buffers", "src/container.rs load_buffer8/16")],
  observe=["rawfile_from_io", "every RawFile method"], hook="same as C13")

p("C15", "A truncated file never crashes the library or yields invented data",
  "For every prefix of a valid raw file, opening it and making any query terminates without panicking; a complete answer either is the one the whole file gives or is made only of bytes present in the prefix, and anything else is reported as an error or as absent.",
  ["crash_points", "inputs"], "every prefix length of one file of every format (each query on each)",
  "No truncated file is ever opened.",
  ["src/container.rs", "src/tiff/dir.rs", "src/tiff/container.rs", "src/decompress/ljpeg.rs", "src/decompress/bit_reader.rs", "src/mp4/container.rs", "src/canon/crw/decompress.rs", "src/fujifilm/raf.rs"],
  [("bounds handling in parsers and decoders", "src/*.rs")],
  observe=["rawfile_from_memory", "every RawFile method"])

p("C16", "A corrupted header field never crashes or hangs the library",
  "For a valid raw file in which any single header, directory or marker field has been replaced by any boundary value, opening it and making any query terminates promptly without panicking, aborting or exhausting memory; the worst outcome is an error or wrong picture content.",
  ["inputs"], "every 1-, 2- and 4-byte field of the non-image part of one file of every format x boundary values {0,1,0x7f..,0x80..,max,max-1, neighbours of the valid value}, each query",
  "Tests parse well-formed input only; the fuzz targets in the tree need AFL and are not part of the test suite.",
  ["src/tiff/dir.rs", "src/tiff/entry.rs", "src/tiff/container.rs", "src/tiff.rs", "src/mp4/parse/mod.rs", "src/mp4/container.rs", "src/canon/crw/ciff.rs", "src/fujifilm/raf.rs", "src/minolta.rs", "src/*/decompress.rs"],
  [("validation of offsets, counts, dimensions", "src/*.rs")],
  observe=["rawfile_from_memory", "every RawFile method"])

p("C17", "Any graph of pointers in a file is walked in finite time",
  "Whatever way the directory, sub-directory, heap or box pointers of a file refer to each other - including to themselves, to an ancestor, or in a cycle - every query terminates, using memory proportional to the file.",
  ["inputs"], "all pointer graphs on up to 3 directories (next, sub-IFD, Exif, maker-note edges to any node or nil) and all heap graphs on up to 3 CIFF heaps, and all box nestings up to depth 3 with every size relation",
  "No cyclic file is ever opened.",
  ["src/tiff/container.rs", "src/tiff/dir.rs", "src/tiff/iterator.rs", "src/canon/crw/ciff.rs", "src/canon/crw/ciff/container.rs", "src/mp4/parse/mod.rs"],
  [("next-IFD walk", "src/tiff/container.rs dirs()"), ("heap recursion", "src/canon/crw/ciff.rs")],
  observe=["every RawFile method"])

p("C18", "Results are a function of the file's bytes alone",
  "Everything returned for a file - including for truncated, corrupted or unreadable ones - is determined by the file's bytes: it never contains leftover memory, and two runs on the same bytes return the same results.",
  ["inputs", "fault_sequences"], "every file, prefix, I/O failure and single-field corruption of C14-C16's spaces, each evaluated under two different memory fill patterns and compared",
  "Tests cannot see uninitialised memory: it usually reads as zero in a fresh process.",
  ["src/utils.rs", "src/container.rs", "src/decompress/tiled.rs", "src/fujifilm/raf.rs", "src/fujifilm/decompress.rs", "src/rawimage.rs"],
  [("uninit_vec!", "src/utils.rs and its users")],
  observe=["every RawFile method"])

p("C19", "Thumbnails are the previews in the file, with the right size and selection",
  "The thumbnail list holds exactly the previews the file stores, each with the byte-exact content and dimensions stored; asking for a size gives the preview of that size if there is one, else the smallest larger one, else the largest, and size 0 is refused.",
  ["inputs", "configurations"], "every subset and order of preview sizes from an alphabet x every requested size around them, for every format's preview carriers",
  "The selection is tested on three sizes of a stub file; real preview extraction is never tested.",
  ["src/rawfile.rs", "src/thumbnail.rs", "src/container.rs", "src/tiff.rs", "src/canon/cr2.rs", "src/canon/cr3.rs", "src/canon/crw.rs", "src/fujifilm.rs", "src/minolta.rs", "src/panasonic.rs", "src/jpeg/container.rs", "src/capi/thumbnail.rs"],
  [("thumbnail()", "src/rawfile.rs"), ("tiff_thumbnails / add_thumbnail_from_entry", "src/tiff.rs"), ("make_thumbnail", "src/container.rs")],
  observe=["RawFile::thumbnail_sizes/thumbnail/thumbnail_for_size"])

p("C20", "Reported raw geometry, levels and colour data are the file's own",
  "Width, height, bit depth, active area, user crop, mosaic pattern, black and white levels, as-shot white balance and colour matrix reported for a raw image are the values the file declares (or the documented default when it declares none), for every combination of present and absent fields and both byte orders.",
  ["inputs", "configurations"], "every subset of the optional fields of each format x value alphabets x byte orders",
  NOFIX + "these attributes are only checked by an external suite over downloaded camera files.",
  ["src/rawimage.rs", "src/tiff.rs", "src/dng.rs", "src/canon/cr2.rs", "src/nikon.rs", "src/sony.rs", "src/panasonic.rs", "src/olympus.rs", "src/pentax.rs", "src/fujifilm.rs", "src/minolta.rs", "src/epson.rs"],
  [("load_rawdata of each format", "src/*.rs")],
  observe=["RawImage accessors"])

p("C21", "Geometry helpers: crops stay inside and keep their ratio",
  "Rectangles, sizes and aspect ratios convert and compose without loss, and cropping a rectangle to an aspect ratio yields the largest centred rectangle of that ratio (to integer rounding) inside it, for every rectangle and ratio.",
  ["inputs"], "all rectangles up to 24x24 at offsets 0..2 x all ratios a:b with a,b<=16",
  "Four examples are tested.",
  ["src/geometry.rs"],
  [("AspectRatio::crop", "src/geometry.rs"), ("Rect conversions", "src/geometry.rs")],
  observe=["AspectRatio", "Rect"])

p("C22", "Mosaic patterns describe the same colour at every site",
  "A colour-filter pattern parsed from any representation reports the same size and the same colour for each site in every view of it (string form, byte form, colour lookup, C API), and values that are not a valid pattern are rejected.",
  ["inputs"], "all 2x2 patterns over the 4 (and invalid) colours, all 6x6 patterns within one substitution of X-Trans, all lengths 0..40",
  "Two patterns are tested.",
  ["src/mosaic.rs", "src/capi/mosaic.rs", "src/tiff.rs"],
  [("Pattern TryFrom impls", "src/mosaic.rs"), ("convert_cfa_pattern", "src/tiff.rs")],
  observe=["CfaPattern", "or_mosaicinfo_*"])

p("C23", "Rendering follows its definition at every stage",
  "Rendering to a given stage is a pure function of the raw image and the options: linearisation maps each sample by the black and white levels or the file's linearisation table (saturating, monotone), interpolation keeps every sensor sample at its own site and colour and fills the others from neighbours of that colour, the colour stage applies the camera's matrix and the target space's curve, a stage the library does not implement is refused, and the output has the size and component count it reports. No stage reads outside the image or fails on an image of legal size.",
  ["inputs", "configurations"], "all 2x2 mosaic patterns x images up to 4x4 over a sample alphabet x black/white levels x stages x colour spaces, against a reference implementation",
  "No rendering is checked by the test suite.",
  ["src/rawimage.rs", "src/render.rs", "src/render/demosaic.rs", "src/render/grayscale.rs", "src/colour.rs", "src/colour/matrix.rs"],
  [("linearize", "src/rawimage.rs"), ("bimedian demosaic", "src/render/demosaic.rs"), ("rendered_image", "src/rawimage.rs")],
  observe=["RawImage::rendered_image", "RawFile::rendered_image"])

p("C24", "ISO-media (CR3) structure is read at any nesting, order and size form",
  "For a CR3 file, previews, metadata blocks and raw track are found and returned byte-exactly whatever the order of sibling boxes, the presence of unknown or empty boxes, and the form in which box sizes and offsets are written (32-bit, 64-bit, to end of file).",
  ["inputs", "configurations"], "all permutations of sibling boxes x size forms x interposed unknown boxes x offset table forms",
  "The MP4 parser is unit-tested box by box; no CR3 file is opened.",
  ["src/mp4/container.rs", "src/mp4/parse/mod.rs", "src/mp4/parse/craw.rs", "src/canon/cr3.rs"],
  [("read_mp4 / craw boxes", "src/mp4/parse"), ("track lookup", "src/mp4/container.rs")],
  observe=["Cr3 through RawFile"])

p("C25", "CIFF, MRW and RAF structures are read as stored",
  "For Canon CRW, Minolta MRW and Fujifilm RAF files, every record the library reports (dimensions, identity, times, exposure data, white balance, previews, raw data) equals what the container's tables store, wherever the container places it - inline or at an offset, in any record order, in either byte order the format allows.",
  ["inputs", "configurations"], "all record orders and placements of small containers x byte orders x value alphabets",
  "Record parsing is unit-tested on one record of each kind.",
  ["src/canon/crw.rs", "src/canon/crw/ciff.rs", "src/canon/crw/ciff/container.rs", "src/minolta.rs", "src/fujifilm/raf.rs", "src/fujifilm.rs"],
  [("CIFF heap/record tables", "src/canon/crw/ciff"), ("MRW blocks", "src/minolta.rs"), ("RAF meta container", "src/fujifilm/raf.rs")],
  observe=["RawFile methods on CRW, MRW, RAF"])

p("C26", "The C API is safe for every legal call sequence and for null handles",
  "Any sequence of C API calls that follows the documented ownership rules - in any order, repeated, with null objects where an object is expected, and with objects outliving the file they came from where the documentation allows - neither crashes nor corrupts memory, reports an error code consistent with success or failure, and releases everything once all objects are released.",
  ["histories"], "all C API call sequences up to depth 4 (quick) / 5 (thorough) over the full function alphabet with a model of live objects, under an allocator that detects leaks, double frees and foreign frees",
  "The C test programs make a dozen calls in a fixed order.",
  ["src/capi.rs", "src/capi/rawfile.rs", "src/capi/rawdata.rs", "src/capi/bitmap.rs", "src/capi/thumbnail.rs", "src/capi/ifd.rs", "src/capi/iterator.rs", "src/capi/metavalue.rs", "src/capi/mime.rs", "src/capi/mosaic.rs"],
  [("box into_raw/from_raw ownership", "src/capi/*.rs")],
  observe=["extern C functions"])

p("C27", "The C API and the Rust API give the same answers",
  "For every file, each C API query returns what the corresponding Rust query returns - same values, sizes, pixels, strings (null-terminated) and the matching error code when it fails - and never writes past the sizes the caller passed.",
  ["inputs", "configurations"], "every C query x every file of the corpus (all formats, plus unreadable, truncated and unsupported ones) x every legal buffer size",
  "The C layer is only tested for extension and MIME lists.",
  ["src/capi.rs", "src/capi/rawfile.rs", "src/capi/rawdata.rs", "src/capi/bitmap.rs", "src/capi/thumbnail.rs", "src/capi/ifd.rs", "src/capi/iterator.rs", "src/capi/metavalue.rs", "include/libopenraw/consts.h"],
  [("or_* wrappers", "src/capi/*.rs"), ("or_error mapping", "src/capi.rs")],
  observe=["extern C functions", "RawFile methods"])

p("C28", "The dump shows what the file stores",
  "Dumping a file shows, for the TIFF structure in it, every directory of the chain, and below each its Exif, maker note, GPS and sub-directories, exactly once per reference and nested where it is referred to, with its number of entries and the offset of the next one; and in each every entry once, by ascending tag, with its tag, published name, type, count and the value stored (lists cut after six values). In the same way it shows every heap and record of a CIFF file, every block and field of an MRW file, every offset and tag of a RAF file, every image and metadata block of a CR3 file. The same file gives the same dump each time.",
  ["inputs"], "all types x counts x values x places of an entry, all trees of directories up to a bound, all published names; all CIFF record kinds x places x nestings; MRW and RAF fields x values; every sample",
  "No test looks at the text of a dump.",
  ["src/dump.rs", "src/tiff/container.rs", "src/tiff/dir.rs", "src/tiff/entry.rs", "src/canon/crw/ciff.rs", "src/minolta.rs", "src/fujifilm/raf.rs", "src/mp4/container.rs"],
  [("Entry::write_dump_entry", "src/tiff/entry.rs"), ("Container::write_dump", "src/tiff/container.rs"), ("Heap::write_dump", "src/canon/crw/ciff.rs")],
  observe=["RawFileHandle::dump_file"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for d in P: f.write(json.dumps(d) + "\n")
print(len(P), "properties")
