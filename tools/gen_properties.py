import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=hook)))
NT="The six existing tests only touch BIFF record dump/scan on one or two fixed records; nothing in the reader, chunk or series code is executed by any test. "
p("C01","BIFF12 records survive a write/scan round trip, byte-exact to the format",
"Any sequence of BIFF12 records (every one- and two-byte record id, payloads from 0 bytes across every multi-byte length boundary) that is dumped to a binary stream and scanned back yields exactly the same ids and payloads in the same order. The dumped bytes are the BIFF12 layout itself (id bytes, 7-bits-per-byte little-endian length, payload), so an independent encoder writes the same bytes and its streams are scanned correctly. A record created by name carries that name's id and reports that same name back.",
["inputs","histories"],"all sequences of records with any valid id (< 0x80, or low byte >= 0x80 and high byte < 0x80) and payload length below 2^28; all names in the record-name table",
NT+"They round-trip four hand-picked payloads (at most 1509 bytes, ids 0 and 0x381), so three- and four-byte lengths, the length boundaries and multi-record streams are never reached.",
["rxls/biff.py","rxls/biff_enum.py"],[("varint length encoder (two copies)","rxls/biff.py: dump_sz, record.as_binary"),("record-at-a-time scanner","rxls/biff.py: scan_biff"),("name table","rxls/biff_enum.py")],
observe=["rxls.biff.record.dump / as_binary / from_data","rxls.biff.dump_sz","rxls.biff.scan_biff"])
p("C02","Filtered or truncated BIFF12 scans yield exactly the complete matching records",
"A scan starts where the stream stands. Scanning a record stream with a non-empty set of wanted ids yields exactly the subsequence of the unfiltered scan that has those ids, with unchanged payloads. When the stream is cut at any byte, the scan terminates normally after the last complete wanted record: it never yields a partial payload, never invents a record, never raises and never hangs.",
["inputs","crash_points"],"all record streams, all non-empty id sets, every cut position",
NT+"They never pass an id filter and never scan a truncated stream.",
["rxls/biff.py"],[("skip of unwanted payloads by relative seek","rxls/biff.py: scan_biff"),("end-of-stream handling (IndexError / short read)","rxls/biff.py: scan_biff")],observe=["rxls.biff.scan_biff"])
p("C03","Length-prefixed strings, sheet-directory records and relationships round trip",
"A length-prefixed wide string written and read back is the same text for any Unicode text (empty, null, astral, starting with U+FEFF), and reading it consumes exactly its own bytes so consecutive strings parse correctly. A sheet-directory record decodes to the sheet state, id, relationship id and sheet name it was built from. A package relationship written as XML and scanned back keeps its id, its type's last path segment and its target, for any attribute text.",
["inputs"],"all Unicode strings without lone surrogates; all attribute texts legal in XML",
NT+"No test touches wide strings, sheet-directory records or relationships.",
["rxls/biff_recs.py","rxls/rels.py"],[("xstr load/dump/from_binary","rxls/biff_recs.py"),("BrtBundleSh.loadr","rxls/biff_recs.py"),("Relationship.scan_xml / dump_xml","rxls/rels.py")],observe=["rxls.biff_recs.xstr","rxls.biff_recs.BrtBundleSh","rxls.rels.Relationship"])
p("C04","RK numbers decode to the value the format assigns; encoders never change a value",
"Every 32-bit RK pattern decodes to exactly the double the XLSB format assigns it: a signed 30-bit integer or the top 30 bits of an IEEE double, divided by 100 when the cents flag is set. Encoding any number that is a 30-bit integer, a 30-bit integer number of hundredths, or a double whose low 34 bits are zero, and decoding the result, gives the same number back, negative values included.",
["inputs"],"all 2^32 RK patterns; all doubles and 64-bit integers with an exact RK form, in arrays of any length",
NT+"No test touches the numeric conversions, and 2^32 patterns cannot be sampled by hand.",
["rxls/chunk/casts.py","rxls/chunk/chunk.py"],[("rk_to_f8 / f8_to_rk / i8_to_rk","rxls/chunk/casts.py")],observe=["rxls.chunk.casts.rk_to_f8, f8_to_rk, i8_to_rk","rxls.reader.read on XLSB RK cells"])
p("C05","Excel serial dates convert to the right instant, to the nearest millisecond",
"Every serial number from 0 up to 9999-12-31 converts to the UNIX-millisecond timestamp nearest to the instant it denotes: fractions in [0,1) are a time of day on 1970-01-01, serials in [1,60) count days from 1900-01-01 = 1, and serials from 60 up count days from 1899-12-30. The conversion is monotone within each of these ranges, and the opposite conversion restores the serial to within a millisecond for every timestamp outside the two ambiguous days (1900-02-28 and 1970-01-01).",
["inputs"],"all doubles in [0, 2958466), in arrays of any length, and all millisecond timestamps in the corresponding range",
NT+"No test touches date conversion; errors of one millisecond or at the 1900 leap-day boundary show only on particular values.",
["rxls/chunk/casts.py"],[("f8_to_ms_win / ms_to_f8_win","rxls/chunk/casts.py")],observe=["rxls.chunk.casts.f8_to_ms_win, ms_to_f8_win","rxls.reader.read on date-formatted cells of both containers"])
p("C06","Reading an XLSX sheet returns every stored cell, unaltered, in its place",
"For every XLSX worksheet, each non-empty cell appears in the result at its own column and row position with its stored value: text verbatim apart from surrounding whitespace (shared, rich-text, inline or formula text, of any length, phonetic guides excluded), numbers under a numeric format as the same double, numbers under other non-date formats as their literal text, booleans as 1/0. Cells without a value, and error cells, are null, and no value appears that is not in the sheet. This holds however the file spells it: part order, compression, relative or absolute part paths, optional parts left out, formulas, rich text, entities, CDATA, `_xHHHH_` escapes, indentation, prefixed element names, cells and rows without references and unrelated elements.",
["inputs","programs"],"all worksheets in the generator's XLSX dialect (cells carry their reference; numbers are plain decimal literals), any column up to XFD",
NT+"No test reads a workbook.",
["rxls/reader/xlsx.py","rxls/reader/common.py","rxls/series.py","rxls/chunk/chunk.py"],[("expat handlers for sheet and shared strings","rxls/reader/xlsx.py"),("column letters to index","rxls/reader/xlsx.py: col_idx"),("column store","rxls/series.py")],
state=[("row counter / empty-row flag","current output row","rxls/reader/xlsx.py: worker"),("pending null offset, open run","nulls to insert before the next run","rxls/series.py")],observe=["rxls.reader.read"])
p("C07","Reading an XLSB sheet returns every stored cell, unaltered, in its place",
"For every XLSB worksheet, each non-empty cell appears in the result at its own column and row position with its stored value: text exactly (shared, inline or formula text, rich and phonetic decorations ignored), numbers as the same double whichever record stores them (RK, real or formula result, with a column of its own or next to the cell before), booleans as 1/0. Blank and error cells are null, no value appears that is not in the sheet, and unrelated records in the stream are ignored. Optional parts that are absent, part names and their letter case, part order, compression and relative or absolute part paths do not change the result.",
["inputs","programs"],"all worksheets in the generator's XLSB dialect (rows in order, one row header per row), any column up to XFD",
NT+"No test reads a workbook.",
["rxls/reader/xlsb.py","rxls/biff.py","rxls/reader/common.py","rxls/series.py","rxls/chunk/chunk.py"],[("cell record dispatch","rxls/reader/xlsb.py: iter_worksheet"),("shared strings","rxls/reader/xlsb.py: shared"),("column store","rxls/series.py")],observe=["rxls.reader.read"])
p("C08","The XLSX and XLSB renderings of one workbook read as the same table",
"For any logical workbook whose cells are text, booleans or numbers under formats that fix their type (numeric or date/time), and for any reading options, reading its XLSX rendering and its XLSB rendering gives tables with the same column names, types, row count and values, or both reads fail.",
["inputs","programs","configurations"],"all logical workbooks in the common dialect (text without surrounding whitespace, boolean cells under a numeric format) crossed with all option combinations of the read function",
NT+"No test reads a workbook, let alone the same one in two containers.",
["rxls/reader/xlsx.py","rxls/reader/xlsb.py","rxls/reader/common.py"],[("two container readers behind one interface","rxls/reader/common.py: read")],observe=["rxls.reader.read on both files"])
p("C09","A number reads as a timestamp exactly when its format displays a date or time",
"A numeric cell is returned as a timestamp if and only if the first section of its number format displays date or time parts (built-in date formats 14-22 and 45-47, or a custom code with d, m, y, h or s outside quoted text, escaped, padding and fill characters and colour/locale/condition brackets, elapsed-time brackets included). This holds for every format code, format id, number of formats and cell styles, whatever the letters, length or quoted text of the code, in both containers, and text or boolean cells never become timestamps because of their style.",
["inputs","configurations"],"all style tables built from the generator's date, number and general format grammar, ids 0-49 and 164-1000; both containers",
NT+"No test reads styles.",
["rxls/reader/xlsx.py","rxls/reader/xlsb.py"],[("style scan","rxls/reader/xlsx.py: styles; rxls/reader/xlsb.py: styles"),("format regexes","re_dt, re_xt in both")],observe=["rxls.reader.read: column types and values"])
p("C10","Row and column windows select exactly the requested part of the sheet",
"Skipping n rows drops exactly the first n rows of the sheet, a row limit of k > 0 keeps exactly the first k+1 of the remaining rows (dropped rows not counted; k = 0 keeps all), and skipped columns vanish while all others keep their values. Rows without any value are dropped by default and kept in place as null rows (up to the last row with a value) when empty rows are requested; rows the file leaves out count as empty rows; rows skipped after the header are removed from the data only. All of this composes, and every row before the last valued row is present even when no single column spans all rows.",
["inputs","configurations"],"all sheets (ragged, leading/interior/trailing empty rows) crossed with all values of the window options, both containers; a row is empty when it has no value left in the kept columns",
NT+"No test reads a workbook.",
["rxls/reader/xlsx.py","rxls/reader/xlsb.py","rxls/reader/common.py","rxls/series.py"],[("row counters in both readers","iter_worksheet"),("offset/length arithmetic","rxls/reader/common.py: read"),("series length","rxls/series.py: __len__")],observe=["rxls.reader.read"])
p("C11","Column names come from the header rows, in order, complete and unique",
"With a header of height h, the column names are the texts of the first h rows: one row gives the cell text or 'Unnamed', several rows give the non-empty texts from top to bottom joined by ', ' after filling each column's topmost empty cells from its left neighbour. Repeated names are made unique by numeric suffixes '.1', '.2', ..., a given list of names is used as is (and rejected if its length is wrong), and no header gives numbered placeholders. The header rows never appear among the data and no data row is lost, even when the sheet has nothing but a header.",
["inputs","configurations"],"all sheets and header arguments (False, True, 0..h, name lists), both containers",
NT+"No test reads a workbook.",
["rxls/reader/common.py"],[("header assembly","rxls/reader/common.py: __make_header"),("data offset","rxls/reader/common.py: read")],observe=["rxls.reader.read: column names and rows"])
p("C12","Header lookup starts the table at the matching row, or fails loudly",
"When a header pattern is given and, within the lookup window, only one column's text matches it, the table starts at that column's first matching row (matching anywhere in the text unless anchored); when a column number is given it starts at that column's first non-empty cell. Everything from that row on is read exactly as if the sheet began there, nothing above it appears in names or data, and if no cell within the window matches, an error is raised instead of a table.",
["inputs","configurations"],"all sheets with preamble rows, all patterns and window sizes, combined with header heights and rows skipped after the header, both containers",
NT+"No test reads a workbook.",
["rxls/reader/common.py"],[("header search","rxls/reader/common.py: __find_header"),("row offset arithmetic","rxls/reader/common.py: read")],observe=["rxls.reader.read"])
p("C13","Row filters keep exactly the rows whose filter columns say so",
"With row filters, the result contains exactly the data rows for which the chosen combination (all 'or', all 'and', or a left-to-right operator list) of 'this filter column is non-null (and not NaN)' holds, in their original order, with all columns still aligned row by row. Filter columns are those whose name matches a given pattern from its start, or whose position among the table's columns is listed; an empty result, a wrong operator count or an unknown operator raises an error instead of returning a table.",
["inputs","configurations"],"all sheets with gaps, runs of different types and columns of different heights; all filter sets and strategies; both containers",
NT+"No test reads a workbook.",
["rxls/reader/common.py","rxls/chunk/chunk.py"],[("boolean filter combination","rxls/reader/common.py: read"),("mask applied across runs","rxls/chunk/chunk.py: take_over")],observe=["rxls.reader.read"])
p("C14","Column types follow the values and never change a value",
"A column holding only numbers is int64 when every value is integral at the given precision (and fits), otherwise float64; only dates gives timestamp[ms]; only text, or nothing at all, gives text; and nulls never change the type. With no conflict resolution a column mixing these kinds is text, in which each text cell is verbatim and each number or date is written so that it reads back as the same number or instant. Integers of any magnitude, and doubles with any fraction, keep their value.",
["inputs","configurations"],"all columns of numbers, dates, texts and nulls in any order and run structure, all float_precision values, both containers and the column store directly",
NT+"No test builds a column.",
["rxls/chunk/chunk.py","rxls/chunk/casts.py","rxls/series.py"],[("type resolution","rxls/chunk/chunk.py: concatenate"),("integer test","rxls/chunk/casts.py: f8_is_i8")],observe=["rxls.reader.read","rxls.series.xl_series.to_arrow"])
p("C15","Conflict resolution converts a mixed column entirely, or leaves it text",
"With 'numeric' resolution a column of numbers and texts becomes numeric when every text is a number; with 'temporal' a column with dates becomes timestamps when every number is taken as a serial and every text is a date/time in a given or default format (in the first of the given ones that it fits); 'all' does both, also reading numeric texts as serials. Each converted value equals the number or instant the text denotes (midnight, 1970-01-01, earlier dates from 1900 and bare times included). Adjacent texts are read together, all as dates or all as numbers. If any text cannot be converted, or a number in a column with dates is no instant (NaN, infinite, or 1e11 days and more), the whole column is text in which every cell still denotes its original value, and columns without mixed kinds are unaffected.",
["inputs","configurations"],"all mixed columns whose text runs are homogeneous (all date/time texts, all numeric texts, or containing an unconvertible text), default and custom formats, all strategies, both containers",
NT+"No test builds a column.",
["rxls/chunk/chunk.py","rxls/chunk/casts.py"],[("conversion attempts and fallback","rxls/chunk/chunk.py: concatenate, as_numeric, as_temporal"),("multi-format date parsing","rxls/chunk/casts.py: mf_strptime")],observe=["rxls.reader.read","rxls.series.xl_series.to_arrow"])
p("C16","Requested column types are honoured exactly or refused",
"When target types are given (one for all, by column name, or one per column) every addressed column of the result has exactly that type, time unit and zone included, with the values that a checked conversion of the untyped result gives; columns not addressed are untouched. A conversion that cannot represent the values, or a type list of the wrong length, raises ValueError.",
["inputs","configurations"],"all tables crossed with all three forms of the type argument over numeric, text, timestamp, date and time types, both containers",
NT+"No test reads a workbook.",
["rxls/reader/common.py"],[("dtype application","rxls/reader/common.py: read")],observe=["rxls.reader.read with and without dtypes"])
p("C17","Exactly the error texts and user-declared null texts become null",
"A text cell whose text is an Excel error text, is in the given list of null texts, or satisfies the given predicate is null in the result, wherever it sits (first cell of the sheet, header, shared or inline), and counts as absent for empty-row, header and filter decisions and for column typing. No other text cell is nulled: in particular the declared texts are compared with the cell's text and never with internal references to it, and values equal in both containers are treated alike.",
["inputs","configurations"],"all sheets and null lists/predicates (including ones that look like small integers), both containers, all conflict strategies",
NT+"No test reads a workbook.",
["rxls/reader/xlsx.py","rxls/reader/xlsb.py"],[("null predicate","rxls/reader/xlsx.py, rxls/reader/xlsb.py: __init__"),("null shared-string set","shared / iter_worksheet in both")],observe=["rxls.reader.read"])
p("C18","The requested sheet, and only it, is read",
"Selecting a sheet by name or by its position among the workbook's worksheets reads exactly that sheet's part, whatever the relationship ids, target spelling, file naming, sheet order, hidden state, special characters in names or other sheet kinds present. An unknown name raises KeyError and a position out of range raises IndexError; other sheets' content never leaks in, and a file that is not a workbook is rejected.",
["inputs","configurations"],"all workbooks of 1-8 sheets including chart sheets, all selectors, both containers",
NT+"No test opens a workbook.",
["rxls/reader/xlsx.py","rxls/reader/xlsb.py","rxls/rels.py","rxls/biff_recs.py"],[("sheet directory","sheets in both readers"),("relationship scan","rxls/rels.py")],observe=["rxls.reader.read"])
p("C19","A damaged sheet or failing callback raises; it never yields a partial table",
"When a full read meets damage in the sheet data or shared strings (part cut at any byte, bytes altered so that the container checksum fails), an I/O error (OSError) from the underlying stream at any call, or an exception from the caller's null predicate or row callback, the read raises, unless the damage lies beyond everything it needs. It never returns a table that is shorter than, or different from, the undamaged one, and it never hangs.",
["crash_points","fault_sequences","inputs"],"every cut position and byte alteration of the sheet and shared-string parts, an I/O error at every read call, an exception at every callback invocation, both containers",
NT+"No test injects a fault; the XLSX parser runs on its own thread, where an exception is invisible to a caller unless carried over.",
["rxls/reader/xlsx.py","rxls/reader/xlsb.py","rxls/reader/common.py"],[("worker thread and its queue","rxls/reader/xlsx.py: iter_worksheet"),("record loop end","rxls/reader/xlsb.py: iter_worksheet")],observe=["rxls.reader.read outcome, thread excepthook"])
p("C20","No file content can make the reader touch memory outside its buffers",
"For any file content, including shared-string references beyond the table, truncated or oversized cell records and short numeric payloads, a read either raises an exception or returns a structurally valid table all of whose values come from the file. The process never crashes, no table is longer than a sheet can be, no value is read from outside the file's own data, and a shared-string reference outside the table never becomes a value.",
["inputs"],"all corruptions of otherwise valid workbooks: out-of-range references, cell records cut or padded to any length, mutated bytes with a recomputed checksum, both containers",
NT+"No test reads a malformed file; an out-of-bounds read may go unnoticed without a monitor.",
["rxls/chunk/arrow.py","rxls/chunk/casts.py","rxls/chunk/chunk.py","rxls/reader/xlsb.py"],[("take by index","rxls/chunk/arrow.py: take"),("buffers reinterpreted without copy","rxls/chunk/casts.py: _unsafe_*")],observe=["process exit status in an isolated child with a debugging allocator","every returned array validated in full"])
p("C21","Reads release everything they open and leave the caller's stream usable",
"After a read returns or raises, for whatever reason (an exception that interrupts it at any moment included), every file it opened is closed, no helper thread keeps running, and a caller-supplied stream is still open and can be read again with the same result. This also holds over long sequences of successful, failing and early-stopped reads.",
["histories","fault_sequences"],"all sequences of reads (paths, path objects and streams; successful, failing at any stage, row-limited), both containers",
NT+"No test opens a workbook.",
["rxls/reader/common.py","rxls/reader/xlsx.py","rxls/reader/xlsb.py"],[("context managers around the archive","__enter__/__exit__ in both readers"),("worker thread lifetime","rxls/reader/xlsx.py: iter_worksheet")],observe=["/proc/self/fd, threading.enumerate, an instrumented stream"])
p("C22","A read depends only on the file and the arguments, under any schedule or history",
"The table returned by a read is a function of the file's current bytes and the arguments: it is the same when repeated, when many reads of different or the same files run in parallel threads, when the parser thread and the consumer are delayed arbitrarily, and after the same path was rewritten with new content.",
["schedules","histories"],"all interleavings of concurrent reads and of the internal producer/consumer pair, all histories of earlier reads in the process",
NT+"No test reads a workbook, and the only concurrency in the package (XLSX parser thread) is never exercised.",
["rxls/reader/xlsx.py","rxls/reader/common.py","rxls/series.py","rxls/chunk/chunk.py"],[("per-call queue, sentinel and reader object","rxls/reader/xlsx.py: iter_worksheet"),("per-column store","rxls/series.py")],observe=["rxls.reader.read results across threads, delays injected in caller callbacks and streams"])
p("C23","Slicing and filtering the column store is list slicing, and never disturbs it",
"A column built by adding cells in row order behaves like a plain list with nulls in the gaps: its length is the last row plus one, a cell for a row already passed is ignored, and any extraction by offset and length (0 meaning the rest), or by offset and boolean mask, as typed values or as text, gives exactly the corresponding slice padded with nulls to the requested length. Extractions may be repeated and interleaved with additions and with each other in any order without changing any later result, and slicing a single run by position, slice or mask behaves like slicing a list.",
["histories","inputs"],"all histories of add / extract / length operations over all cell kinds, both container encodings, all strategies; all non-negative positions, slices with positive step and masks of equal length",
NT+"No test builds a column.",
["rxls/series.py","rxls/chunk/chunk.py"],[("run list with pending null offset","rxls/series.py"),("take_over / take / null_slice","rxls/chunk/chunk.py")],
state=[("runs","list of typed runs; prepared in place on first use","rxls/series.py, rxls/chunk/chunk.py")],observe=["rxls.series.xl_series.add/to_arrow/to_utf8/__len__","rxls.chunk.chunk.take"])
p("C24","The row callback reports every row and cannot influence the table",
"On a full read the row callback is called without arguments once per row record of the sheet plus one boundary event, the same number for both containers; a row limit bounds the calls to the rows read plus at most two, and every row record of the window is still reported. Passing a callback, however slow, never changes the returned table.",
["inputs","schedules","configurations"],"all sheets (empty rows included) and window options, callbacks of any duration, both containers",
NT+"No test passes a callback.",
["rxls/reader/xlsx.py","rxls/reader/xlsb.py"],[("callback calls at row events","iter_worksheet in both readers")],observe=["rxls.reader.read with a counting, delaying callback"])
p("C25","Accelerated code paths give the same results as the plain ones",
"With the compiling accelerator present (numba, with or without TBB) the package takes other code paths for scanning records, for RK, serial and integer conversions, and for column letters. On those paths every scan (filtered, cut at any byte, over any block boundary of the stream), every conversion and every read of an intact or damaged workbook gives the same result as on the plain paths, and ends.",
["configurations","inputs","crash_points"],"all inputs of the plain properties, on the accelerated source paths, with and without TBB",
NT+"The optional package is not installed where the tests run, so the alternative branches are never executed.",
["rxls/core.py","rxls/biff.py","rxls/chunk/casts.py","rxls/reader/xlsx.py"],[("import-time switches","rxls/core.py"),("block-wise scanner","rxls/biff.py: scan_chunk, scan_biff"),("ufunc bodies","rxls/chunk/casts.py: __gu_*")],observe=["rxls.biff.scan_biff, rxls.chunk.casts and rxls.reader.read of a copy imported with a stand-in numba"])
p("C26","Meaningless arguments are refused, inert ones change nothing, none crashes",
"An argument that cannot mean anything makes the read raise instead of returning a table: a negative header height, row skip or row limit, a non-integer count, a name list of the wrong length, an unknown sheet, a column or pattern to look for that is not there or not valid, filters that are not a pattern or a list of one kind, an invalid operator list, target types that are not types or of the wrong number, a null list or callback of a wrong kind, a stream that is no archive. An option that addresses nothing (columns, names or null texts that do not occur, a row limit beyond the end, operators without filters, a lookup window without lookup, date formats without date conflicts) leaves the table exactly as it is without it. Whatever objects are passed, date formats included, the process does not crash, and a table that is returned is structurally valid, has no more rows than the sheet, and is the same for both containers.",
["inputs","configurations"],"all sheets crossed with meaningless, inert and arbitrary values for every option of the reader, both containers",
NT+"No test reads a workbook.",
["rxls/reader/common.py","rxls/reader/xlsx.py","rxls/reader/xlsb.py","rxls/chunk/casts.py"],[("argument checks","rxls/reader/common.py: read; iter_worksheet in both readers"),("formats handed to the date parser","rxls/chunk/casts.py: _strptime")],observe=["rxls.reader.read","process exit status"])
p("C27","With polars present, texts are read as the same instants, and more formats",
"When polars is installed, default and custom formats that the plain date parser reads give the same instants with polars, and the additional default formats (AM/PM and fractions of a second) are read as the instants they denote.",
["configurations","inputs"],"all date and time texts and formats of the conflict-resolution property, with polars",
NT+"polars is not installed where the tests run.",
["rxls/chunk/casts.py"],[("polars date parser","rxls/chunk/casts.py: _strptime")],observe=["rxls.chunk.casts.mf_strptime"])
p("C28","The work of a read is in proportion to what it reads, and nothing is retained",
"The time and memory of a read grow in proportion to what it reads: rows, columns, texts, styles, sheets, text length, repeated header names, runs of alternating kinds; a file of twice the size never costs much more than twice as much. A row limit bounds the work done on the sheet whatever follows the window, an iteration over cells that is given up does not go on reading the sheet, and nothing is retained by the process after a read (successful, failed or stopped early) whose result is dropped.",
["inputs","configurations","histories"],"all sheet shapes and options scaled up along each dimension, all row limits, all histories of reads, both containers",
NT+"No test reads a workbook, and tests of fixed small inputs cannot see how cost grows.",
["rxls/reader/common.py","rxls/reader/xlsx.py","rxls/reader/xlsb.py","rxls/series.py","rxls/chunk/chunk.py","rxls/core.py"],[("header name deduplication","rxls/reader/common.py: read"),("early end of a limited read","iter_worksheet in both readers"),("run list of a column","rxls/series.py")],observe=["executed lines, CPU time, allocator peaks and bytes taken from the stream during rxls.reader.read"])
p("C29","A read touches nothing but its file and its result",
"A read opens nothing but the given file, for reading only; it writes, prints, spawns and connects to nothing; it leaves process-wide settings, the file, its directory and the caller's argument objects unchanged. Content outside the workbook (external entities, external or escaping relationship targets) never enters the result. The returned table stays the same after the file or the argument objects change.",
["inputs","configurations"],"all workbooks, including ones naming outside content, crossed with all options, successful and failing reads, both containers",
NT+"No test reads a workbook or watches its side effects.",
["rxls/reader/common.py","rxls/reader/xlsx.py","rxls/reader/xlsb.py","rxls/rels.py"],[("opening the archive","__enter__ in both readers"),("XML parsing of untrusted parts","rxls/reader/xlsx.py, rxls/rels.py"),("argument handling","rxls/reader/common.py: read")],observe=["interpreter audit events, file descriptors 1 and 2, process-wide settings, directory listing and file bytes, argument objects around rxls.reader.read"])
p("C30","Iterations over an open workbook are complete, exact and independent",
"An open workbook lists its worksheets in order with their parts, and every iteration over a sheet yields exactly its non-null cells in row-major order at their zero-based place after the window, whatever other iterations over the same workbook ran before, run interleaved or in other threads, were abandoned or failed; the row callback of each is called for its own rows only. Using a workbook that is not open, asking for an absent sheet or opening a file of the other kind raises and leaves nothing open; a workbook may be closed and opened again, and then shows the file as it is now.",
["histories","schedules","inputs"],"all sequences and interleavings of iterations, abandonments, failures, closings, reopenings and replacements of the file over the sheets of one workbook, all windows, both containers",
NT+"No test opens a workbook.",
["rxls/reader/xlsx.py","rxls/reader/xlsb.py"],[("state shared by the iterations of one workbook","iter_worksheet, shared, styles in both readers"),("open and close","__enter__/__exit__ in both readers")],observe=["rxls.reader.xlsx.XlsxWorkbook and rxls.reader.xlsb.XlsbWorkbook: sheets, iter_worksheet"])
p("C31","What lies between bytes, numpy and Arrow is exact",
"Each zero-copy conversion between bytes, numpy and Arrow yields exactly the elements it was given, for whole arrays and slices of any offset and length, stays valid after everything else is dropped, and refuses data whose size does not fit. Each wrapper of an Arrow function gives, element by element with nulls propagated, what its name says: cast by truncation, and/or/not, regex match with or without case, nonzero positions, take with out-of-range indices refused, date parsing. The tests for integer, date-part and time-part values answer exactly whether all values are integers to the given digits, and whether any has a date or a time. A text parsed as a date gives the instant of the first format that fits it, and otherwise raises.",
["inputs","histories"],"all numeric types, booleans and texts, all lengths and slices, with and without nulls, all byte payload sizes, all date formats",
NT+"No test slices an array, drops a source or reaches these functions with more than a few values.",
["rxls/chunk/casts.py","rxls/chunk/arrow.py"],[("conversions without copying and without length bookkeeping of their own","rxls/chunk/casts.py: _unsafe_*"),("wrappers that skip Arrow's checks","rxls/chunk/arrow.py"),("value tests","rxls/chunk/casts.py: dt_has_d, dt_has_t, f8_is_i8, mf_strptime")],observe=["return values of the named functions, at once and after their sources are gone"])
open('/verif/properties.jsonl','w').write("".join(json.dumps(x,ensure_ascii=False)+"\n" for x in P))
