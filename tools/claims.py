CLAIMS={'C01': ('exhaustive bounded enumeration of encoder/decoder executions against an independent reference codec model', 'images, tables, predictors, component counts, restarts within stated bounds'),
 'C02': ('explicit-state exhaustive enumeration of layouts x geometries x images, executed on the real decoder', 'every storage layout x geometry x byte order x single-bit images and boundary pairs'),
 'C03': ('explicit-state exhaustive enumeration of token sequences, executed on the real decoders', 'every table x every difference, curve variants, split rows, geometries'),
 'C04': ('exhaustive enumeration of compressed streams from encoders / a decoder model written from the published algorithms, decoded by the real code and compared sample by sample',
         'Olympus: all small images over alphabets, every pair of values; Panasonic: every (predicted value, shift, byte) step, every shift vector x first-nonzero pattern; Fujifilm: every isolated difference, product of modes, depths, layouts, strips'),
 'C05': ('stateless model checking of the parallel decoders on a controlled thread pool: depth-first enumeration of all schedules within thread and preemption bounds', 'Every schedule of 1-4 pool threads for images of up to 6 parallel tasks; ~170 thousand schedules in the quick tier.'),
 'C06': ('explicit-state exhaustive enumeration of partitions, executed on the real decoder', 'all tile grids, strip lists and slice tables within the bound'),
 'C07': ('exhaustive enumeration of TIFF entries (carrier directory x byte order x type x count x bytes x placement) executed on the real code against a reference reader', '39 carriers, 30 maker-note headers, all types, counts 0..1000, all pairs of small entries, all strings to length 6 (8)'),
 'C08': ('exhaustive enumeration of directory chains, tag numbers and interleavings of iterators with other calls, executed on the real code against a model of the directories', 'chains of <=3 (4) directories of 8 kinds x 11 file kinds x orders; all 65536 tags; all interleavings of 5 (6) steps'),
 'C09': ('explicit enumeration of signatures, TIFF headers, names, hints and entry points, each run on the real library and compared with the published identification rules', "every signature, one-byte change and truncation, all first four bytes over the signatures' alphabet, all TIFF header shapes, every extension in every case, every hint, every entry point"),
 'C10': ('explicit enumeration of camera names and numbers in every carrier format, each file opened by the real library and compared with the published camera table', 'every listed name and number in each format that uses it, every one-character edit, bit flip and neighbour; identity, vendor, built-in matrix; C header constants'),
 'C11': ('exhaustive exploration of call sequences on the real code up to a depth, each answer compared with the first-call answer', 'all sequences of depth 3 (quick) / 4 (thorough) over 29 calls, 20+ files and damaged variants'),
 'C12': ('exhaustive exploration of interleavings of calls on two handles and of two-thread schedules under a controlled scheduler, on the real code', 'all 70 interleavings of open/query/take/drop over file pairs; query pairs on kin files; process-first calls; one- and two-switch thread schedules'),
 'C13': ('exhaustive exploration of stream-read deviations under a controlled fault injector', 'every single (thorough: pair of) read deviation(s) per file and query'),
 'C14': ('exhaustive exploration of stream failure points under a controlled fault injector', 'every stream operation of every (file, query), failing once or from then on'),
 'C15': ('exhaustive enumeration of truncation points, each executed on the real code in an isolated process', 'every prefix of every sample file x 28 queries'),
 'C16': ('exhaustive enumeration of single-field corruptions, each executed on the real code in an isolated process', 'every field x boundary values x 27 queries'),
 'C17': ('explicit enumeration of pointer graphs (all edge assignments over small node sets), each laid out as a file and walked by the real code under a stream and allocation monitor', 'all graphs of 3 directories x 3 pointers and 2 x 6, 3 CIFF heaps x 3 records, fans, overlaps, re-aimed pointers of every sample'),
 'C18': ('exhaustive enumeration of files and damage, each executed twice on the real code under an allocator that fills new memory with different patterns', 'truncations, field corruptions and stream failure points x queries x two fill patterns'),
 'C19': ('exhaustive enumeration of preview sets laid out as real files, each list and size query compared with a model of the stored previews', '20 kinds of preview directory in every slot, all preview sets of the samples, every size around each dimension, 7 file kinds'),
 'C20': ('exhaustive enumeration of field subsets and of pairs (thorough: triples) of field values of each format laid out as real files, the reported attributes compared with a model of what was stored', '16 formats, all subsets of any 12 fields and all value/type choices of every two fields, byte orders, decoded and not'),
 'C21': ('exhaustive bounded enumeration against an exact integer model', 'all rectangle/ratio pairs of the bounded space'),
 'C22': ('exhaustive bounded enumeration of pattern representations against an explicit site model', 'all strings/byte patterns up to the bounds x all sites'),
 'C23': ('exhaustive enumeration of samples, levels, windows, sizes, stages and colour spaces, every rendering compared with an independent reference of the stages', 'all samples x level pairs, tables, all 3x3 windows over 4 (5) levels x patterns, all sizes up to 11x11, all colours of a grid x matrices'),
 'C24': ('exhaustive enumeration of ISO box trees (orders, size forms, unknown boxes, tables) of a CR3 file, each laid out as a real file and compared with the stored content and with the usual layout', 'every order of siblings in each container, every size form of every box or pair, every other box at every place, every sample table form'),
 'C25': ('exhaustive enumeration of record and block values, storage forms and orders of CIFF, MRW and RAF files, each laid out as a real file and compared with the stored values and with the usual layout', 'every value, absent record, storage choice, entry order and block order within the bound'),
 'C26': ('stateless exploration of all sequences of C API calls from each start state, under a checking allocator, against a model of the live objects', 'all sequences of 25 kinds of calls up to the depth, at most two live objects of a kind, all release orders, every format'),
 'C27': ('exhaustive enumeration of queries, files, buffer sizes and output arguments, C answer compared with the Rust answer', 'every query on every file x type hint x way of opening, damaged and cut files, all values, all buffer sizes, null arguments'),
 'C28': ('bounded-exhaustive enumeration of file structures; the dump of the real code is read back and compared with the structure written', 'All types, counts and places of entries, all trees of directories within bounds, CIFF, MRW, RAF and CR3 structures; ~520 thousand files in the quick tier.')}
NA={}
DESIGN={'C01': "An independent T.81 process-14 encoder (`codec/ljpeg.rs`) turns enumerated images (all small images over boundary sample alphabets, precisions 2..16, predictors 1..7, 1..4 components, restart intervals, several Huffman table shapes, point transforms) into streams; the decoder's output must be the image, for `LJpeg` alone and reused. Unit tests decode three fixed files.",
 'C02': 'Every layout the formats use (27: 8/10/12/14/16 bits, samples in 16-bit words, most/least significant first, 15+1\n'
        'byte blocks, interlaced fields, 32-bit words) is written by an independent packer inside a complete file of its format,\n'
        'for every width/height of a list (odd ones included) and both byte orders. Images: all zeros/ones, every single bit of\n'
        'every sample, every pair of neighbours over a boundary alphabet, patterns; each with several fillers of the padding\n'
        'bits and of the bytes around. `raw_data(false)` and `raw_data(true)` must return the image (undecoded data of\n'
        'compressed files: the stored bytes).',
 'C03': 'Reference encoders (harness/src/codec/{nikon,crw}.rs) are written from the published descriptions (dcraw tables as\n'
        "counts+values, not the library's trees). Spaces: every difference value of every table (Nikon 12/14 lossy, after-split\n"
        'quantized, 14 lossless; Pentax legacy and 100+ in-file tables incl. non canonical; CRW 3 table sets as first/other\n'
        'difference); every (zero run, category) of CRW; every row of four samples over an alphabet of category boundaries;\n'
        'products of header variants (0x44/20 interpolated, direct, 0x49/0x58 with the 2110 bytes skip, 0x46) x curves x\n'
        'predictors x split row x byte order x geometry x contents (including predictions going out of range), low bits of CRW.\n'
        'Quantized NEF samples are shifted left by 16-bpc (the alignment the library documents).',
 'C04': 'Three independent reference codecs (`codec/olympus.rs`, `codec/panasonic.rs`, `codec/fuji.rs`), written from the\n'
        'published algorithms (dcraw, LibRaw). Olympus: an encoder; *every* image of 1x1 .. 6x2 over value alphabets (up to 64\n'
        'values), every ordered pair of 12-bit values in both columns, odd widths, escapes with either ignored bit, both through\n'
        '`decompress_olympus` and through an ORF file. Panasonic: the decoder as a state machine; *every* transition\n'
        '(predicted value 16..4095) x (4 shifts) x (256 bytes) and every (shift vector) x (first nonzero position of both colours),\n'
        'groups laid out in rotated 16 KiB blocks, one or many blocks, full or partial, RW2 with raw offset and with strip.\n'
        'Fujifilm: an encoder for lossless and lossy streams, X-Trans and Bayer; every isolated difference of 12/14/16 bits on\n'
        'flat fields at rotating pattern positions, and the product of layout x depth x quantization (constant, changing per line\n'
        'and per strip) x geometry (partial last strip, >16 lines) x content. Defects found and repaired: the pattern was indexed\n'
        '(row, column) so red and blue were exchanged for X-Trans; the last Panasonic pixels dropped their low bits; an odd\n'
        'Olympus width lost its last column; padded Panasonic blocks gave more samples than the image has; strips ending at the\n'
        'end of the data failed; malformed headers and streams panicked.',
 'C05': "*What runs.* The real decoders (tiled lossless JPEG in DNG, interlaced rows in ORF, strips in RAF, Bayer and X-Trans) and the real `rayon` iterators, on a `rayon-core` of ours (`par/rayon-core`, put in place with `[patch.crates-io]` of the check's own crate). That pool has its threads pass a baton: at each step exactly one runs, and the explorer chooses what happens next - the current "
        'thread goes on, a waiting thread resumes, a thread takes its newest job or an idle one steals the oldest job of another. With a preemption bound above zero, allocations and log calls of a task are points at which it can be stopped in favour of another thread.\n'
        '\n'
        '*Enumeration.* Depth-first over the choice lists, until no list is left, for (threads, preemptions, tasks) up to (1,0,6), (2,0,5), (3,0,4), (4,0,3), (2,1,3), (3,1,2) in the quick tier and (2,0,6), (3,0,5), (4,0,4), (2,1,4), (3,1,3), (4,1,3), (2,2,3), (3,2,2) in the thorough one, for every combination of good and undecodable tiles or strips, short last rows, and every query of every '
        'format with two threads. A case that would exceed its cap of schedules is cut and the evidence then says `exhaustive: false`.\n'
        '\n'
        '*Oracle.* The pixels (or the error) under the one-thread schedule in order, themselves compared with the encoded image; equality for every other schedule. Footprints: the task alone under four initial contents of memory tells which bytes it writes, and no byte of the shared image may be written by two tasks or depend on the initial content.\n'
        '\n'
        '*Reach.* The pool the tests use picks one schedule; a decoder that relies on the order of tasks (unordered collection, a shared counter, state kept per thread) gives the right image nearly always.',
 'C06': 'Every tile size (0 < tw,th <= n) for every image size up to the bound, in every storage (LJPEG of 1, 2 components,\n'
        'half height..., plain 8/10/12/14/16 bits), order of the tiles in the file, SHORT or LONG tables, byte order, value of\n'
        'the samples of the overhang; strips of every height for six formats, contiguous, reversed, rotated or with gaps; CR2\n'
        'slice tables for 1, 2 and 4 components. The image must come back whatever the cut.',
 'C07': "A reference reader decodes (type, count, bytes) and predicts every typed read at every index, every array read, the string and the metadata iterator's triple; the library must agree for an added entry in each of 39 directories of 20 sample files, for 30 vendor maker-note headers (own byte-order mark, offset base), for all pairs of small entries with each one's data before/after/odd/at "
        'the end of the file, all short strings, and values that end past the end of the file (must be absent). Found and fixed: padding of inline data read as data, Minolta offset base, byte-order marks ignored.',
 'C08': 'The model is the list of directories written. All chains of up to 3 (thorough 4) directories from 8 entry sets (empty, unsorted, with sub-directories below, extreme tags) x 3 storage orders x byte orders x 11 kinds of file must be listed in chain order and by ascending tag with key, type and value; all 65536 tag numbers at each place of the chain against the published names; repeated '
        "tags once; every sequence of 5 (6) steps of two iterators, restarts and other calls over 20 sample files against the undisturbed listing; lookup of every key and of 13 near-misses of it. Found and fixed: a CR3's metadata could not be iterated; a JPEG's main directory was not its main directory.",
 'C09': "Reference: the published tables (extensions, MIME types, raw types) and a content rule written from the format descriptions. Enumerated: every signature with every byte changed to every value and cut at every length; all four-byte starts over the union of the signatures' bytes; TIFF headers (byte order x make x DNG version x directory place x preceding directories x CR2 mark); every "
        'file of the corpus x every type hint x every entry point (path, memory, stream, C API by path and by memory); every extension in every letter case (all 2^n spellings), also non-UTF-8 ones. Judged: type, MIME type, error kind and the agreement between entry points. Two published extensions are missing from the extension table and pinned so by the C++ tests: listed as findings.',
 'C10': "Reference: harness/src/cameras.rs (774 names, 245 numbers, 591 calibrations), extracted once by tools/snapshot.py and reviewed against the C header and dcraw's table (which showed seven defects, fixed). Enumerated: format x listed name or number x byte order x presence of an own matrix x a conflicting name; then every name with one character removed, changed, inserted, every prefix, and "
        'every number with one bit flipped or +-1. Judged: type_id, vendor_id, built-in matrix, colour matrix 1..3 with origin, the matrix and illuminant of raw_data. A C program compiled against /repo/include prints every published constant.',
 'C11': "Every sequence of 3 (thorough 4) calls over 29 calls on one handle of each of 20 files, intact and truncated in two places (so that some calls fail); each call's complete answer must equal the answer of the same call on a fresh handle. Plus long cyclic histories over the whole alphabet forwards and backwards from every start.",
 'C12': 'The reference is every query of every file alone in a process of its own. (1) Every pair of files (82: all kinds of\n'
        'sample plus twins of other camera, byte order, dimensions, compression parameters, or of equal length) x kept object\n'
        '(raw data, thumbnail, directory value): all 70 interleavings of open, query, take, drop. (2) Every query of a file,\n'
        'then every query of every kin file. (3) Every (file, query) as the first library call of a fresh process, followed by\n'
        'another file. (4) Two threads with a file each: both are held at stream operations and call boundaries by a controlled\n'
        'scheduler that lets one run at a time; every position of one switch (evenly thinned above a cap that is stated in the\n'
        'evidence) and a grid of two switches. Any answer differing from the reference, any kept object changing and any\n'
        'thread not finishing is a violation. Catches process-wide and per-thread caches keyed too coarsely, which no\n'
        'single-file test can reach.',
 'C13': 'The stream is the environment: for every file and query (opened by content and by hint) the undisturbed run is counted, then re-run with a deviation (1 byte, half, all but one byte, EINTR) at each single read, and at every read; thorough adds every pair of deviations. The answer must not change.',
 'C14': "As C13, but each stream operation (read or seek) of the undisturbed run fails in turn with an I/O error: once, or from then on. The answer is judged (`judge.rs`) against the undisturbed answers of the same file: error, absence, an entry flagged invalid, a subset of the file's entries, one of the file's previews, the same pixels, documented defaults. Afterwards a new handle over a "
        'working stream must answer as ever.',
 'C15': "Every prefix length of every sample file x 28 queries; same judge, where data may additionally be cut at its end or samples be 0. Exempt: pixels of the RW2 sample without a raw offset, whose packing is told by the file's length alone (any prefix is a legal reading of it).",
 'C16': 'Every header/directory/marker field recorded by the file builders (plus every JPEG marker byte) x boundary values (0..16, powers of two, neighbours of the valid value, file length and neighbours, sign boundaries) x 27 queries, in isolated workers under a 256 MiB allocator limit. Thorough: every byte x 256 values.',
 'C17': "A file's pointers are the edges of a graph over its structures; all graphs over small node sets are enumerated and laid out as real files: 3 directories x {next, SubIFD, Exif} (4^9 graphs) and 2 directories x 6 kinds of pointer (3^12) per file kind; 3 CIFF heaps x 3 heap records; fans of up to 4000 pointers; overlapping directories; and in each sample file every 32/64-bit field re-aimed "
        'at every structure of the file relative to every base, and pairs of structural pointers. Monitors: termination, stream operations and peak heap below a bound linear in the file size (quadratic only where directories overlap). Found and fixed: repeated SubIFD pointers, CIFF heap self-reference and values shared by many entries multiplied time or memory.',
 'C18': "The harness allocator fills every fresh block with a pattern; each (file, damage, query) is run with two different patterns (and with different heap histories) and the complete answers must be equal: what is not determined by the file's bytes differs. Spaces: truncations, single-field corruptions, stream failure points.",
 'C19': 'The model is the list of previews a file was built with (dimensions, format, bytes). Enumerated: every pair of 20 kinds of TIFF preview directory (RGB strips, several strips, SHORT tags, JPEG by strip or by interchange tags, with and without dimensions, wrongly marked, 16 bits...) in the slots of 7 file kinds; for each sample format its own preview carriers (main, SubIFD, maker note, '
        'Exif thumbnail of an embedded JPEG, CR3 boxes and tracks) with every combination of dimensions from a small set; the same files without each entry that leads to a preview. Judged: the list of sizes, and for every requested size around each listed dimension the preview returned (dimensions, format, bytes): the smallest that is large enough, else the largest. Found and fixed: Exif '
        'thumbnails located by a constant, SHORT strip tags, Leica maker-note preview, previews with no JPEG.',
 'C20': 'Sixteen formats (DNG, NEF, CR2, Canon TIF, CR3, CRW, ARW, A100, PEF, ORF, RW2, RAF new and old, MRW, ERF...) are each\n'
        'described by a list of "knobs": a field with its choices (absent, usual, other values, other TIFF types, short or long\n'
        'arrays). For each vector of knobs a complete file is built together with the attributes it declares: size, depth, active\n'
        'area, crop, aspect ratio, output size, pattern, black and white levels, white balance or its chromaticity, matrices,\n'
        'linearisation table, photometric interpretation. Enumerated: all subsets (present/absent) of the knobs (of any window of\n'
        '12 knobs where there are more), all choices of every pair of knobs (triples in the thorough run) with the others absent\n'
        'or usual, x byte orders x decoded or not. Found and fixed: panics on short Canon colour data, white points and A100 data,\n'
        'a double borrow when a CRW is asked its white balance first, absent Panasonic black levels given as white minus ..., CR2\n'
        'strips located by SHORT tags.',
 'C21': 'All rectangles up to 24x24 x all ratios up to 16:16 against exact integer arithmetic.',
 'C22': 'All pattern strings over the colour alphabet up to the bounds, all byte patterns, C getters; every view (string, bytes, colour at each site modulo the size, C API) against a site function; invalid values must be rejected.',
 'C23': 'The reference is written from the definition of the stages (DNG specification for linearisation, median of the neighbours\n'
        'of a colour for interpolation, D65 matrices and the sRGB and 2.2 curves). Enumerated: every 16-bit sample x black and\n'
        'white levels x depth; levels which differ by colour; linearisation tables (through DNG files: depth x shape x length x\n'
        'black x white x byte order); every 3x3 window over 4 (thorough 5) levels x all four patterns x both parities, packed\n'
        'de-Bruijn-like into images; all sizes 0..10 x 0..10 x 6 patterns x stages x colour spaces; buffers of other kinds (8 bits,\n'
        "tiled, compressed, wrong length); a 13^3 (33^3) grid of colours x matrices; the corpus' files, where the file's rendering\n"
        "must equal the raw image's, twice, before and after others. Each output must have the size, type and components it\n"
        'reports. Found and fixed: linearisation tables were ignored unless 2^bpc long and skipped the black level; the data type\n'
        'of a linearized image.',
 'C24': 'An own box-tree generator writes CR3 files from a tree description and resolves the absolute offsets (stco/co64, CTBO).\n'
        'Enumerated: all permutations of the siblings in each container (top level 4!, moov 720, Canon header 8! = 40320, and\n'
        'trak/mdia/minf/stbl/CRAW of each track), orders in all containers at once (17496; thorough 4 orders each); 64-bit sizes on\n'
        'each box, every pair (thorough every triple), all but one, by kind x last box x size-to-end-of-file (4096); another box of\n'
        '11 kinds, decoys included, at each of 108 places, and two of them; sample size list or constant x 32- or 64-bit\n'
        'offsets per track (256); 64-bit time versions (512); CTBO entry orders x absent or zero entries (1920); media data orders x\n'
        'gaps x a second mdat (3840); tables x track orders x top-level orders (36864). Oracle: the stored previews and raw bytes,\n'
        'and 26 queries answering as on the usual layout. Assumptions: ftyp is first with a 32-bit size; only the last box may\n'
        'have no size. Found and fixed: zero-sized last box refused, minf before hdlr lost, an absent CTBO entry or another order of\n'
        'entries hid the preview, the raw track was the third in the file and not by id, a 64-bit uuid header moved the preview.',
 'C25': 'An independent CIFF / MRW / RAF writer lays out the same content in every admissible way. CRW: values and absent records\n'
        '(1278 files), every choice of inline or heap storage of each record, every order of the entries of each heap (7! for\n'
        'the largest) combined with the layout (order of the data, place of the table, gaps, header length), unknown records\n'
        'and nested heaps in every position (64512 files). MRW: all 720 orders of the blocks, unknown blocks, all storage types,\n'
        'values of the white balance, dimensions and mosaic, absent blocks. RAF: section orders, gaps, extra tables, orders of\n'
        'the meta table, unknown tags. Oracle: the values that were stored (metadata listing, preview bytes, pixels), and all 26\n'
        'queries must answer as on the usual layout. Found and fixed: CRW orientation and inline strings, an inline decoder\n'
        'table, the order of the white balance of GBRG MRW files.',
 'C26': 'Depth-first enumeration of every sequence of C API calls (25 kinds; the arguments are the live objects) on the real `or_*`\n'
        'functions, from six start states (nothing, a file, a file and its iterator, an iterator whose file was released, one object\n'
        'of each kind, two files), at most two live objects of a kind. The model is the set of live objects and the borrowed pointers\n'
        'handed out. After every call: the answer is the one a fresh file gives; every live object and every borrowed view is read\n'
        'again and is as it was. At the end all is released: live bytes and blocks are back to the start (a second run discounts what\n'
        'is made once); double, foreign or overrun frees abort, freed memory is poisoned. Also all release orders per format, depth 2\n'
        '(3) over every format, and whole listings with the file released at each position. Bounds: depth 4 (5) from nothing and a\n'
        'file, 3 (4) from the others. A compressed tiled image has no contiguous data: its data pointer is null.',
 'C27': 'Each object is rendered as text twice, through the `or_*` functions (canaries around every output) and through the Rust API\n'
        '(`cobs.rs`); they must be equal. Spaces: every query on every corpus file opened by content, type and path; every type hint;\n'
        'files cut at every length (stride in quick) and with every field damaged; values of all TIFF types x counts x byte patterns;\n'
        'non-files, absent paths, null arguments, every null/non-null combination of outputs; colour matrix buffers of every size\n'
        '0..=40; all 64 rendering options; all 65536 names per directory. Errors must be the code of consts.h for the Rust error and\n'
        'always stored. Found and fixed: constants off the header (7 codes), errors not stored, a colour matrix copied past its\n'
        'length, strings and names without a final NUL, 8-bit bitmaps without data, null arguments dereferenced. Not decided:\n'
        'or_mosaicinfo_get_size/set_size, or_bitmapdata_bpc and or_rawdata_get_rendered_image, which the headers declare and nothing\n'
        "defines; enum arguments outside of the header's values; or_metavalue_get_as_string keeps its first conversion (a unit test\n"
        'says so); the code for an absent colour matrix (NotFound) where the header hints at another.',
 'C28': '*Enumerated.* Every type (existing or not) x 12 counts x 5 patterns x byte order x 3 tags x 6 places of an entry (main, Exif, maker note, GPS, sub-directory, next directory) x 9 kinds of files; all chains of up to two directories (three in one kind of file, or in all in the thorough tier) over 32 shapes of what a directory refers to; all published names; CIFF: 27 kinds of records x 12 '
        'sizes x nestings x layouts x byte orders; MRW: each field x 9 values x missing blocks x orders; RAF: each tag x 9 values x layouts; each sample of the corpus.\n'
        '\n'
        "*Oracle.* The text is parsed back into directories (nesting by indentation) and entries, and compared with what was written, values by C07's reference reader. The position the dump gives for a CIFF record or CR3 image must be where its bytes are."}
CAUGHT={}
