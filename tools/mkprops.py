"""Writes /verif/properties.jsonl (the list of properties) from the table below."""
import json, os
P = []

def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            mechanism=[dict(name=n, where=w) for n, w in mech],
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            observe_at=list(observe), hook_needed=hook)))

prop("C01", "Serial numbers decode to the right Gregorian date and time",
 "For every number and either date system, xldate_as_tuple returns the proleptic-Gregorian date that many days after the system's epoch together with the time of day rounded to the nearest second (carrying into the next day), numbers in [0,1) giving a bare time with year, month and day zero. Numbers it cannot represent are always refused with the documented error: negative, ambiguous (1900 system, days 1-60), year 10000 or later, unknown date system.",
 ["inputs"], "every serial day 0..2958466 and beyond both ends, every time of day, both date systems and invalid ones",
 "the tests sample a handful of serial numbers; nearly three million days times 86400 seconds in two systems cannot be sampled",
 ["xlrd/xldate.py"], [("julian-day conversion and rounding", "xlrd/xldate.py xldate_as_tuple")],
 observe=["xlrd.xldate.xldate_as_tuple"])

prop("C02", "Date and time encoding inverts decoding, and bad tuples are refused",
 "Every valid calendar date representable in the chosen date system is encoded to the serial number whose decoding is that same date, and every valid time of day to the fraction whose decoding is that same hour, minute and second, also when combined as a datetime. Tuples with an out-of-range or non-existent year, month, day, hour, minute or second, and dates before the system's usable range, are always refused with the documented error instead of being encoded.",
 ["inputs"], "every (year, month, day), every (hour, minute, second), in and out of range, both date systems",
 "the tests try a few tuples; leap-year and range boundaries across 8100 years are not enumerated",
 ["xlrd/xldate.py"], [("calendar validation and julian-day formula", "xlrd/xldate.py xldate_from_date_tuple, xldate_from_time_tuple, xldate_from_datetime_tuple")],
 observe=["xlrd.xldate.xldate_from_date_tuple", "xlrd.xldate.xldate_from_time_tuple", "xlrd.xldate.xldate_from_datetime_tuple"])

prop("C03", "xldate_as_datetime gives the exact calendar instant to the millisecond",
 "For every representable serial number in either date system, xldate_as_datetime returns the datetime that lies that many whole days after the system's epoch plus the fraction of a day rounded to the nearest millisecond, with the 1900 system's fictitious 29 February 1900 accounted for (serials below 60 count from 31 December 1899, later ones from 30 December 1899). On every serial number both functions accept, it falls on the same day as xldate_as_tuple, up to rounding of the time of day.",
 ["inputs"], "every serial day in range, every fraction of a day, both date systems",
 "the tests compare a dozen values",
 ["xlrd/xldate.py"], [("epoch choice, millisecond rounding", "xlrd/xldate.py xldate_as_datetime")],
 observe=["xlrd.xldate_as_datetime"])

prop("C04", "Every compressed (RK) number decodes to the value it encodes",
 "A numeric cell stored in compressed form, alone or in a multi-cell row run, yields for each of the 2**32 bit patterns exactly the IEEE double it stands for: signed 30-bit integer or truncated double, divided by 100 when so flagged. In a row run every listed column, and no other, receives its own value and format index.",
 ["inputs"], "all 2**32 encodings; every row, column span and format index",
 "the sample files contain a few hundred RK values, mostly small positive integers",
 ["xlrd/sheet.py"], [("RK unpacking", "xlrd/sheet.py unpack_RK"), ("MULRK loop", "xlrd/sheet.py Sheet.read")],
 observe=["Sheet.cell_value", "Sheet.cell_type"])

prop("C05", "Each cell record puts exactly its own value, type and format at its address",
 "For worksheets in the current (BIFF8) and previous (BIFF5/7) formats, reading a number, boolean, error, shared-string, inline-string, rich-string or formula-result record (numeric, string, boolean, error or empty-string result) makes the cell at the row and column named in the record hold exactly that record's value, documented cell type and format index. No other cell changes.",
 ["inputs"], "every row, column, format index and payload of each cell record type",
 "the tests check specific cells of a few workbooks; each record type is seen with few payloads and small addresses",
 ["xlrd/sheet.py"], [("record dispatch", "xlrd/sheet.py Sheet.read"), ("cell storage", "xlrd/sheet.py put_cell_*")],
 observe=["Sheet.cell", "Sheet.cell_value", "Sheet.cell_type", "Sheet.cell_xf_index"])

prop("C06", "The grid is the last write to each cell, padded to its true dimensions",
 "Whatever sequence of cell records a sheet contains, in any order and with repeated addresses, every cell holds the value of the last record for its address and every other cell is empty; the row and column counts are one more than the largest row and column written. With padding (the default) every row has exactly the column count; with ragged rows each row ends at its last written cell; addresses beyond the format's limits are refused.",
 ["histories", "configurations"], "every sequence of cell writes (bounded length), any order, overlaps and gaps; padded and ragged; with and without formatting info",
 "the storage code optimises for in-order writes; sample files are written in order by Excel, so out-of-order histories are untested",
 ["xlrd/sheet.py"], [("cell storage and row extension", "xlrd/sheet.py put_cell_ragged, put_cell_unragged, tidy_dimensions")],
 state=[("_first_full_rowx", "first row known to be padded already", "xlrd/sheet.py")],
 observe=["Sheet.nrows", "Sheet.ncols", "Sheet.row_len", "Sheet.cell"])

prop("C07", "All sheet accessors agree and slice the way Python sequences do",
 "For every row and column index valid for a sheet (negative ones included), cell, cell_value, cell_type, indexing, row, col, row and column slices, row_values, row_types, col_values, col_types, row_len and iteration all report the same cells. Slice start and end positions, negative, omitted or beyond the edge, select exactly the cells that the same slice of a Python list of that row or column would select.",
 ["inputs"], "every index and slice bound for grids of bounded size, padded and ragged",
 "the tests use a few fixed slices of one sheet",
 ["xlrd/sheet.py"], [("accessors", "xlrd/sheet.py Sheet.cell ... col_types")],
 observe=["Sheet.row_slice", "Sheet.col_slice", "Sheet.row_values", "Sheet.row_types", "Sheet.col_values", "Sheet.col_types", "Sheet.row", "Sheet.__getitem__", "Sheet.get_rows"])

prop("C08", "Unicode strings decode exactly, whatever options they carry",
 "A BIFF8 string, 8-bit compressed or 16-bit, with any combination of rich-text and phonetic data, decodes to exactly its characters wherever it occurs, and what follows the string is read from exactly the end of the string, its formatting runs and its phonetic block. A zero-length string is the empty string whether or not its options byte is present.",
 ["inputs"], "every content and option combination of bounded length strings, both length-prefix sizes",
 "the samples contain hardly any rich-text or phonetic strings",
 ["xlrd/biffh.py"], [("string unpacking", "xlrd/biffh.py unpack_unicode, unpack_unicode_update_pos")],
 observe=["xlrd.biffh.unpack_unicode", "xlrd.biffh.unpack_unicode_update_pos"])

prop("C09", "Shared strings survive any legal split across continuation records",
 "Text cells that refer to the shared string table always show the referenced string, and its rich-text runs, no matter where the table is split into continuation records: inside the characters (with a possible change of compression at the split), before or between the formatting runs, inside the phonetic block, or exactly between strings. The decoded strings are independent of the split.",
 ["inputs"], "every table of a bounded number of short strings with every content, every option combination and every legal split point",
 "split points only occur in files with more than 8 KB of strings; the sample files exercise none or one",
 ["xlrd/book.py"], [("shared string table decoding", "xlrd/book.py unpack_SST_table, handle_sst")],
 observe=["Sheet.cell_value", "Sheet.rich_text_runlist_map"])

prop("C10", "String results of formulas decode exactly, continued or not",
 "The string result of a formula decodes to exactly the stored characters, in compressed or 16-bit form (or the workbook's legacy encoding), also when the string is spread over continuation records each with its own compression. A string with more characters than announced, or missing continuation records, is refused with an error rather than truncated or merged with following data.",
 ["inputs"], "every content of bounded length, every split, Excel 5 to 97 formats",
 "only short uncontinued results occur in the sample files",
 ["xlrd/sheet.py"], [("string result reader", "xlrd/sheet.py string_record_contents")],
 observe=["Sheet.cell_value"])

prop("C11", "Compound-file streams are reassembled from exactly their own sectors",
 "For every compound document whose allocation chain for the workbook stream is well formed, the stream returned is the concatenation, in chain order, of the chain's sectors, cut to the recorded size, whether the sectors are contiguous, scattered or in short (mini) sectors. A stream not present is reported as absent.",
 ["inputs"], "every sector chain over a bounded number of sectors, every content, big and short streams, every stream size",
 "the sample files are written sequentially, so the fragment path is practically untested",
 ["xlrd/compdoc.py"], [("stream assembly", "xlrd/compdoc.py _get_stream, _locate_stream, locate_named_stream, get_named_stream")],
 observe=["xlrd.compdoc.CompDoc.locate_named_stream", "xlrd.compdoc.CompDoc.get_named_stream"])

prop("C12", "Corrupt sector chains never hang and are never silently read",
 "For every allocation table content, opening a compound document and locating the workbook stream terminates after a number of steps bounded by the file size. Unless corruption is explicitly ignored, a chain that loops, reuses a sector already claimed by another stream or table, runs past the file or, in standard sectors, is longer than the recorded size ends in an error and is never returned as data.",
 ["inputs", "fault_sequences"], "every allocation-table, header and directory content over a bounded number of sectors",
 "one corrupted sample file exists; cyclic and cross-linked chains are not sampled",
 ["xlrd/compdoc.py"], [("sector ownership tracking", "xlrd/compdoc.py CompDoc.__init__, _get_stream, _locate_stream, _build_family_tree")],
 state=[("seen", "which structure claimed each sector", "xlrd/compdoc.py")],
 observe=["xlrd.compdoc.CompDoc"])

prop("C13", "Numeric cells are dates exactly when their number format is a date format",
 "A numeric cell is reported as a date if and only if its format is a date format: for built-in format numbers without a stored format string, by the documented built-in ranges; for stored format strings, if after dropping quoted text, escaped or padding characters and bracketed sections, the date letters (y m d h s, either case) outnumber the digit placeholders (0 # ?), the general and text formats never being dates.",
 ["inputs"], "every format string up to a bounded length over all characters; every built-in format number; every format index",
 "the tests check a few real-life formats; quoting, escaping and bracket combinations are unbounded",
 ["xlrd/formatting.py", "xlrd/sheet.py"], [("format classification", "xlrd/formatting.py is_date_format_string, handle_format, xf_epilogue"), ("cell type lookup", "xlrd/sheet.py put_cell_*")],
 observe=["Sheet.cell_type", "Book.format_map"])

prop("C14", "Extended-format records decode field by field in every file version",
 "Each extended-format (XF) record yields, for the file's version (BIFF 2.1, 3, 4, 5/7 and 8), exactly the font, number format, alignment, border, background, protection, style flag, parent and attribute-validity fields that the record's bits encode, and the formats appear in record order under their own index.",
 ["inputs"], "every bit pattern of the record, every supported version",
 "one sample workbook checks a few XF fields; 20-byte records have 2**160 patterns with version-specific layouts",
 ["xlrd/formatting.py"], [("bit-field manifests", "xlrd/formatting.py handle_xf"), ("bit unpacking", "xlrd/biffh.py upkbits")],
 observe=["Book.xf_list"])

prop("C15", "Fonts, palette and colour lookup reflect the file",
 "Font records decode to exactly the stored height, options, colour, weight, escapement, underline and name, and font indexes skip the never-stored index 4. A palette record redefines exactly colour indexes 8 upward with its red, green and blue components, leaving the fixed and special colours alone, and looking up the nearest colour always returns an index whose colour is at minimum distance.",
 ["inputs"], "every font and palette record content, every RGB triple and bounded colour map",
 "the tests never look at palettes or nearest colours",
 ["xlrd/formatting.py"], [("font and palette handlers", "xlrd/formatting.py handle_font, handle_palette, nearest_colour_index")],
 observe=["Book.font_list", "Book.colour_map", "Book.palette_record", "xlrd.formatting.nearest_colour_index"])

prop("C16", "Format index, row and column attributes follow the documented hierarchy",
 "With formatting info, a cell's format index is its own, else its row's explicit default, else its column's, else 15; a column's width comes from the source prescribed for the file version (column info, standard width, default width, or 8 characters). Row and column records decode to exactly the height, width, visibility, outline and default-format fields that their bits encode, for exactly the rows and columns they name.",
 ["inputs", "configurations"], "every presence/absence combination and content of row, column, width and cell records, BIFF3 to BIFF8",
 "the tests look at a few cells; the fallback lattice is not covered",
 ["xlrd/sheet.py"], [("fallback lookup", "xlrd/sheet.py cell_xf_index, computed_column_width"), ("ROW/COLINFO decoding", "xlrd/sheet.py Sheet.read")],
 observe=["Sheet.cell_xf_index", "Sheet.computed_column_width", "Sheet.rowinfo_map", "Sheet.colinfo_map"])

prop("C17", "Cell range lists and page breaks decode exactly",
 "Merged-cell and label-range records yield one half-open (row-low, row-high, column-low, column-high) rectangle per stored range, in order, covering exactly the stored inclusive range, accumulated over several records; page-break records yield exactly the stored breaks. Merged ranges extend the sheet's dimensions to include them.",
 ["inputs"], "every range content, every bounded count of ranges and records",
 "the tests check one merged sheet",
 ["xlrd/biffh.py", "xlrd/sheet.py"], [("range list unpacking", "xlrd/biffh.py unpack_cell_range_address_list_update_pos"), ("dimension growth", "xlrd/sheet.py tidy_dimensions")],
 observe=["Sheet.merged_cells", "Sheet.row_label_ranges", "Sheet.col_label_ranges", "Sheet.horizontal_page_breaks", "Sheet.vertical_page_breaks", "Sheet.nrows", "Sheet.ncols"])

prop("C18", "Hyperlinks decode fully and cover exactly their cells",
 "Every hyperlink record yields a hyperlink with exactly its type, address, description, target frame and text mark, and quick tips attach to the preceding link. The per-cell map covers exactly the cells of each link's rectangle, the last link winning where links overlap.",
 ["inputs"], "every option combination, bounded text content and rectangles, up to two overlapping links",
 "no test looks at hyperlinks",
 ["xlrd/sheet.py"], [("hyperlink parsing", "xlrd/sheet.py handle_hlink, handle_quicktip")],
 observe=["Sheet.hyperlink_list", "Sheet.hyperlink_map"])

prop("C19", "Cell comments are attached to their cell with full text and author",
 "A cell comment appears in the note map at exactly its row and column, with its author, visibility flags, complete text (also when split over continuation records of either compression) and formatting runs; a comment's text object is matched by object identifier, never mixed up with another comment's.",
 ["inputs", "histories"], "every text content and split, identifiers and orders of a bounded number of comments",
 "no test looks at comments",
 ["xlrd/sheet.py"], [("text object and note matching", "xlrd/sheet.py handle_obj, handle_txo, handle_note, Sheet.read")],
 observe=["Sheet.cell_note_map"])

prop("C20", "The file version is recognised exactly, and unsupported input refused",
 "For every beginning-of-file record, the reported file version is the one its opcode, version, build and year denote, short records being padded; anything that is not a supported workbook or worksheet start (other opcode, bad length, truncated, workspace file, unknown version, wrong stream type) is refused with XLRDError.",
 ["inputs"], "every content of the first record",
 "the tests open a dozen valid files and two invalid ones",
 ["xlrd/book.py"], [("BOF parsing", "xlrd/book.py getbof, open_workbook_xls")],
 observe=["xlrd.open_workbook", "Book.biff_version"])

prop("C21", "Text encoding follows override, then codepage, then the documented default",
 "For every codepage number and file version, legacy 8-bit text is decoded with the caller's override if given, else the encoding documented for the codepage, else ISO-8859-1; an encoding Python does not know is reported as an error rather than guessed. In BIFF8 files text is always Unicode regardless of codepage.",
 ["inputs", "configurations"], "all 65536 codepage values, present or absent, override or none, each version; every byte content of bounded strings",
 "the samples use cp1252 and UTF-16 only",
 ["xlrd/book.py", "xlrd/biffh.py"], [("encoding derivation", "xlrd/book.py derive_encoding, handle_codepage"), ("codepage table", "xlrd/biffh.py encoding_from_codepage")],
 observe=["Book.encoding", "Book.codepage", "Book.user_name", "Sheet.cell_value"])

prop("C22", "Sheets are listed completely, in order, with their own name and content",
 "The workbook lists exactly its worksheets, in directory order, skipping charts, macro and Visual Basic sheets, each with its stored name and visibility; looking a sheet up by index, by name, by indexing or by iteration gives the sheet whose data lies at that directory entry's position. Unknown names are refused with XLRDError.",
 ["inputs", "histories"], "every sequence of directory entries (bounded), types, visibilities, names and positions",
 "the samples have worksheets only, stored in directory order",
 ["xlrd/book.py"], [("directory handling", "xlrd/book.py handle_boundsheet, get_sheet, sheet_by_name")],
 observe=["Book.nsheets", "Book.sheet_names", "Book.sheet_by_index", "Book.sheet_by_name", "Book.sheets", "Book.__getitem__", "Sheet.visibility"])

prop("C23", "Defined names are catalogued under the right name, scope and order",
 "Every defined-name record produces one name object carrying exactly the record's flags, (built-in or literal) name and scope, where scope is -1 for global, the worksheet index for a local name, or the documented negative code otherwise. The name-and-scope map finds the last name with that lower-cased name and scope, and the name map lists every name under its lower-cased name sorted by scope.",
 ["inputs", "histories"], "every flags, name, sheet index content, a bounded number of names, with non-worksheet entries in the directory",
 "one sample workbook has names, without macro sheets or duplicates",
 ["xlrd/book.py"], [("name records", "xlrd/book.py handle_name, names_epilogue")],
 observe=["Book.name_obj_list", "Book.name_and_scope_map", "Book.name_map"])

prop("C24", "Names that refer to cells resolve to exactly the referenced cells",
 "A name defined as an absolute three-dimensional cell or area reference evaluates to a reference with exactly the stored sheet, row and column bounds (half-open), with relative components reported as such; references to deleted, external, macro or invalid sheets never resolve to a worksheet. Name.cell returns exactly that cell, and Name.area2d the area clipped to the sheet with 0 <= low <= high <= extent, or the unclipped bounds on request; other names are refused with XLRDError.",
 ["inputs"], "every reference token content, sheet mapping and sheet extent (bounded), BIFF5/7 and BIFF8",
 "the tests check a few names in two files",
 ["xlrd/formula.py", "xlrd/book.py"], [("reference decoding", "xlrd/formula.py get_cell_addr, get_cell_range_addr, get_externsheet_local_range, evaluate_name_formula"), ("clipping", "xlrd/book.py Name.area2d, Name.cell")],
 observe=["Name.result", "Name.cell", "Name.area2d"])

prop("C25", "Constant name formulas evaluate like Excel and never block opening",
 "A name formula made of constants and arithmetic, comparison, concatenation, percent and sign operators, IF and CHOOSE evaluates to the value Excel's operator semantics give, or to an unknown value where that is an error or unsupported, and a result is never a wrong constant. No such formula, whatever its operand types and values, makes opening the workbook fail.",
 ["inputs", "programs"], "every operator sequence of bounded depth over every number, string, boolean, error and missing operand",
 "the tests evaluate a handful of formulas from one workbook",
 ["xlrd/formula.py"], [("stack evaluator", "xlrd/formula.py evaluate_name_formula, binop_rules, unop_rules")],
 observe=["Name.result"])

prop("C26", "Formula text keeps the meaning of the formula",
 "The text reconstructed for a name formula, read back with Excel's operator precedence and left association, denotes the same expression tree as the stored formula: parentheses are present wherever the tree needs them, string constants are quoted with embedded quotes doubled, and every operator and operand appears in order.",
 ["inputs", "programs"], "every operator tree of bounded depth over numeric, string, boolean and reference leaves",
 "the tests compare a few texts in which no parentheses matter",
 ["xlrd/formula.py"], [("operator ranks", "xlrd/formula.py do_binop, do_unaryop, binop_rules")],
 observe=["Name.result.text"])

prop("C27", "Cell and range names are exact and unambiguous",
 "For every row and column, the A1-style and R1C1-style names produced for a cell, relative cell, range or three-dimensional range denote exactly that cell or range: column letters count A..Z, AA.. in bijective base 26 and rows count from 1, absolute parts are marked, relative parts are taken modulo the sheet size from the base cell, half-open upper bounds are shown inclusively, and a sheet name containing a blank or an apostrophe is quoted with its apostrophes doubled.",
 ["inputs"], "every row 0..65535, every column 0..255 (any non-negative column for the general column-name function), every offset and base cell",
 "the tests check a few names",
 ["xlrd/formula.py", "xlrd/book.py"], [("name builders", "xlrd/formula.py cellname ... rangename3drel; xlrd/book.py colname")],
 observe=["xlrd.cellname", "xlrd.cellnameabs", "xlrd.colname", "xlrd.rangename3d", "xlrd.rangename3drel"])

prop("C28", "On-demand loading and unloading never change what a sheet contains",
 "Under on-demand opening, every history of loading, unloading and reloading sheets by index or name leaves sheet count, names and the content of every sheet obtained equal to what opening everything at once gives, with sheet_loaded telling the truth at every step. After resources are released, loaded sheets stay readable, loading another sheet is refused with XLRDError, and releasing again has no effect.",
 ["histories", "configurations"], "every sequence (bounded) of load, unload, query, release operations over every sheet",
 "no test uses on-demand loading",
 ["xlrd/book.py"], [("lazy loading", "xlrd/book.py sheet_by_index, get_sheet, unload_sheet, sheet_loaded, release_resources")],
 state=[("_sheet_list", "loaded sheets or None", "xlrd/book.py"), ("_resources_released", "released flag", "xlrd/book.py")],
 observe=["Book.sheet_by_index", "Book.sheet_loaded", "Book.unload_sheet", "Book.release_resources"])

prop("C29", "Files and memory maps are always closed",
 "Whatever goes wrong while opening a workbook, and whenever opening finishes without on-demand loading, every file handle and memory map opened for it is closed; with on-demand loading they stay open exactly until the resources are released or the with-block ends. A caller's own in-memory content is never modified.",
 ["fault_sequences", "configurations"], "a failure injected at every operation on the file or its content, mmap or not, on-demand or not",
 "no test injects failures or observes handles",
 ["xlrd/book.py"], [("cleanup", "xlrd/book.py open_workbook_xls, biff2_8_load, release_resources")],
 observe=["xlrd.open_workbook", "Book.release_resources"])

prop("C30", "File types are told apart by content, and non-XLS types refused",
 "For every content, the detected type is xls exactly when the content starts with the OLE2 signature, one of xlsx, xlsb, ods or zip exactly when it is a zip archive with (or without) the identifying member, compared without regard to case or slash direction, and unknown otherwise, the same for a path as for bytes. Opening xlsx, xlsb, ods or other zip content is always refused with an XLRDError naming the type, never parsed.",
 ["inputs"], "every content of the first bytes and every list (bounded) of archive member names",
 "the tests use one file per type",
 ["xlrd/__init__.py"], [("signature checks", "xlrd/__init__.py inspect_format, open_workbook")],
 observe=["xlrd.inspect_format", "xlrd.open_workbook"])

prop("C31", "Encrypted workbooks are always refused",
 "A workbook whose global part (or, in Excel 4 and earlier files, worksheet stream) carries an encryption record is refused with XLRDError, whatever the record's content, wherever it stands among the other global records, whatever the file version and options; no data of an encrypted workbook is ever returned.",
 ["inputs", "configurations"], "every encryption-record content and position, each version, each verbosity",
 "no sample file is encrypted",
 ["xlrd/book.py", "xlrd/sheet.py"], [("FILEPASS handling", "xlrd/book.py handle_filepass, parse_globals; xlrd/sheet.py Sheet.read")],
 observe=["xlrd.open_workbook"])

prop("C32", "Unknown records are skipped without any effect",
 "A record of a type the reader does not know, with any content, inserted between the records of a workbook's global part or of a worksheet, changes nothing in what is read. An embedded chart's records inside a worksheet likewise never affect the worksheet's cells.",
 ["inputs"], "every record type outside the documented set, every bounded content, at every record boundary of a small workbook",
 "the sample files contain the records that one version of Excel writes",
 ["xlrd/sheet.py", "xlrd/book.py"], [("record framing", "xlrd/book.py get_record_parts, parse_globals; xlrd/sheet.py Sheet.read")],
 observe=["Sheet.cell_value", "Sheet.nrows", "Sheet.ncols"])

prop("C33", "Presentation options never change the data read",
 "Opening the same content with or without formatting info, ragged rows, verbose logging, memory mapping, on-demand loading or as an OLE2 container versus a bare stream yields the same text, numbers, dates, booleans and errors at the same addresses. Formatting info only adds blank cells and format indexes, and ragged rows only drop trailing empty cells.",
 ["configurations", "inputs"], "all option combinations over worksheets of a bounded number of symbolic cell records",
 "each sample file is opened with one option set",
 ["xlrd/sheet.py", "xlrd/book.py", "xlrd/__init__.py"], [("option handling", "xlrd/sheet.py Sheet.read, put_cell_*; xlrd/book.py biff2_8_load")],
 observe=["Sheet.cell_value", "Sheet.cell_type"])

prop("C34", "View settings and zoom follow the stored records",
 "Window, zoom and pane records yield exactly the stored option flags, first visible row and column, split positions and active pane. The effective zoom factors are the stored ones when they lie in 10..400, and otherwise the documented defaults and fallbacks, for both normal and page-break view.",
 ["inputs"], "every content and presence/absence of the records",
 "no test looks at view settings",
 ["xlrd/sheet.py"], [("WINDOW2/SCL/PANE decoding", "xlrd/sheet.py Sheet.read, update_cooked_mag_factors")],
 observe=["Sheet.show_grid_lines", "Sheet.cooked_normal_view_mag_factor", "Sheet.cooked_page_break_preview_mag_factor", "Sheet.vert_split_pos"])

prop("C35", "Worksheets of Excel 2, 3 and 4 read as faithfully as later ones",
 "In single-sheet files of BIFF versions 2, 3 and 4, every number, integer, label, boolean, error and formula-result record yields the value, type and format at its address, with BIFF2 cell attributes mapped to a format index whose font, number format, protection, alignment and borders are the ones the attribute bytes encode. The workbook reports one sheet and the right version.",
 ["inputs"], "every address, attribute and payload of each record type of the old formats",
 "one BIFF4 sample file exists",
 ["xlrd/sheet.py", "xlrd/book.py"], [("old-format records", "xlrd/sheet.py Sheet.read, fixed_BIFF2_xfindex, fake_XF_from_BIFF20_cell_attr; xlrd/book.py fake_globals_get_sheet")],
 observe=["Sheet.cell", "Book.xf_list", "Book.biff_version"])

prop("C36", "Record dump and record count account for every byte of the stream",
 "The diagnostic dump lists every record of the stream with its offset, type, length and content, in order, and reports skipped zero bytes and trailing bytes, so that every byte is accounted for exactly once; the record counter's tallies equal the number of records of each type. Both end after finitely many steps on any content.",
 ["inputs"], "every stream content of bounded length",
 "the tests dump a few bytes only",
 ["xlrd/biffh.py", "xlrd/__init__.py"], [("dump loops", "xlrd/biffh.py biff_dump, hex_char_dump, biff_count_records")],
 observe=["xlrd.dump", "xlrd.count_records"])

prop("C37", "The date system and country codes are the file's own",
 "For every file version, the workbook's datemode is 1 exactly when its DATEMODE record says 1904, wherever among the other records it stands, and 0 when it says 1900 or is absent; its countries are the two codes of its COUNTRY record, whether stored in the globals or in a worksheet, and (0, 0) when there is none. Loading sheets on demand or with formatting information changes neither.",
 ["inputs"], "every value, position and presence of the records in every file version",
 "the sample files all use the 1900 system and are not checked for it",
 ["xlrd/book.py", "xlrd/sheet.py"], [("settings records", "xlrd/book.py handle_datemode, handle_country, parse_globals; xlrd/sheet.py Sheet.read")],
 observe=["Book.datemode", "Book.countries"])

prop("C38", "Named cell styles are exactly those stored in the file",
 "With formatting info, style_name_map of a file of Excel 3 or later has one entry for each distinct name among its STYLE records and no other: a user-defined style under its stored name, a built-in style under its documented English name (followed by the one-based outline level for row and column levels), each with the flag that says whether it is built-in and the 12-bit index of its XF. When a name occurs more than once the last record decides. A record of four zero bytes stands for the built-in style Normal with XF 0. Without formatting info the map is empty.",
 ["inputs"], "every flag, XF index, built-in kind, outline level and name, and every coincidence of names among several records, in each file version",
 "the tests look up no style by name",
 ["xlrd/formatting.py", "xlrd/book.py", "xlrd/sheet.py"], [("STYLE records", "xlrd/formatting.py handle_style; xlrd/book.py parse_globals; xlrd/sheet.py Sheet.read")],
 observe=["Book.style_name_map"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
