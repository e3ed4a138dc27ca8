"""Which harness entries decide which property, with their bounds."""
def E(e, bounds, dl=200, tdl=1800, covers=("end",), thorough=False, **kw):
    return dict(e=e, bounds=bounds, dl=dl, tdl=tdl, covers=list(covers), thorough=thorough, **kw)
CHECKS = {}
T = lambda q, t: "%s (quick); %s (thorough)" % (q, t)
CHECKS["C23"] = dict(harness="c23.c", entries=[
    E("h_ymd_julian", "every year/month/day in the library's supported year range"),
    E("h_next_day", "every pair of successive days"), E("h_julian_ymd", "every day number"),
    E("h_weekday", "every day number"),
    E("h_text_full", "every date 1000-9999, full-month text styles"), E("h_text_era", "every date, era-marked text styles"),
    E("h_text_part", "every date, month/year and partial text styles"), E("h_julian_text", "every day number, text and back")])
CHECKS["C25"] = dict(harness="c25.c", assumptions=["day 0 second 0 is the library's documented 'undefined' time and is excluded as a start or an end"], entries=[
    E("h_fixed", "29 fixed-length intervals, |day|<=700000, any second, any step count keeping the result in range"),
    E("h_fixed_count", "29 fixed-length intervals, any two times within the same range"),
    E("h_trimonth", "7 start years (4 quick), |n|<=40 (130 thorough)"), E("h_semimonth", "as h_trimonth"), E("h_month", "as h_trimonth"), E("h_year", "as h_trimonth"),
    E("h_month_offset", "day 1-27, any second, n in -3..3 (14 thorough)"), E("h_year_offset", "as h_month_offset, n in -2..2 (5)"), E("h_year_march1", "1 March starts"),
    E("h_year_count", "any two days (day of month<=27) up to 4 years apart from 1999-2001"),
    E("h_reg_blocks", "8 interval classes, every day of 10 years"), E("h_irreg_blocks", "5 block sizes, every day of 10 years")])

HB = "concrete operation choices forked exhaustively, record words symbolic; every reclaim setting 1-3"
CHECKS["C01"] = dict(harness="c01.c", assumptions=["a user header of odd length holding only text is padded to an even length on purpose and is excluded"], entries=[
    E("h_content", "one record, 6 parts of 0-3 words each, all words and the type symbolic"), E("h_words", "each part alone with 1, 40, 257 or 1500 symbolic words, before and after reopen"),
    E("h_rewrite3", "3 writes of one record in every order of 11 size classes; " + HB), E("h_rewrite_two", "two records, 4 writes in every order of 4-11 size classes, reclaim 1-2"),
    E("h_sizes", "23 sizes up to 32000 words in each of 6 parts, shrunk and regrown"), E("h_paths", "pathnames of 7 to 367 characters"), E("h_supplied", "caller arrays of 2-6 words, parts of 0-5 words"),
    E("h_rewrite4", "4 writes in every order of 11 size classes", thorough=True)])
CHECKS["C02"] = dict(harness="c02.c", entries=[
    E("h_resize", "two records, the first written three times in every order of 9 part-size patterns, reclaim 1-3"), E("h_reclaim", "a record of 700-2000 ints freed (deleted or moved by growing), its space reused for 3-5 records of 4 sizes, with or without reopening, reclaim 2-3"), E("h_two", "3 records, every pair of operations (8 sizes of write, delete, undelete, rename); " + HB), E("h_three", "every three operations (4 sizes), reclaim 2"),
    E("h_three_all", "every three operations (4 sizes); " + HB, thorough=True), E("h_four", "every four operations (2 sizes), reclaim 2", thorough=True)])
CHECKS["C03"] = dict(harness="c03.c", assumptions=["more records per slot than fit in a bin are produced with the library's own 'detune' test setting, which gives every pathname the same hashes"], entries=[
    E("h_case", "3 pathnames, every position, every pair of letter cases there, rest upper/lower/mixed"), E("h_char", "every position, every other printable character"),
    E("h_collide", "4 colliding names, every 4 operations; " + HB), E("h_slot_long", "6-10 names of 130-391 characters in one slot, every 2 (3) operations; " + HB), E("h_slot_short", "13-16 names of 20-77 characters, every 2 operations"),
    E("h_slot_new", "7-12 names of 60-304 characters, every 2 (3) operations"), E("h_slot_fit", "9-13 names of 112-180 characters, every 2 (3) operations"), E("h_collide5", "every 5 operations", thorough=True)])
CHECKS["C04"] = dict(harness="c04.c", entries=[
    E("h_del4", "2 records, every 4 operations (2 sizes, delete, undelete), reclaim 1-3", covers=("end", "undeleted")), E("h_del3", "3 records, every 3 operations (4 sizes, delete, undelete, rename), reclaim 1-3", covers=("end", "undeleted")),
    E("h_reuse", "6 sizes deleted, 0-2 writes of 6 sizes, with and without reopen, undelete, 2 more writes; reclaim 1-3", covers=("end", "undeleted")), E("h_undelete_all", "every subset of 4 records deleted, one rewritten"),
    E("h_del5", "2 records, every 5 operations", thorough=True), E("h_del4b", "3 records, every 4 operations with rename", thorough=True)])
CHECKS["C05"] = dict(harness="c05.c", entries=[
    E("h_ren2", "5 names, every 2 operations (rename to any name, delete, 4 sizes of write), reclaim 1-3"), E("h_ren3", "4 names, every 3 operations, reclaim 1-3"),
    E("h_case", "11 record sizes, record live or missing, reclaim 1-3"), E("h_length", "every pair of name lengths 8-25, then 5 further operations, reclaim 1-3"), E("h_ren4", "4 names, every 4 operations, reclaim 2", thorough=True)])
CHECKS["C06"] = dict(harness="c06.c", entries=[
    E("h_hist3", "3 records, every 3 operations, reclaim 1-3; counts and catalogs after every step"), E("h_sorted4", "2 records, every 4 operations including sorted catalogs, then reopen"), E("h_filter", "one part filter (exact, prefix, suffix, contains) of 0-2 (3) characters in each of the 6 parts against every name of 0-2 (4) symbolic characters", covers=("end",)),
    E("h_catalog_filter", "17 x 6 filters in every two parts over a catalog of 6 names, sorted and not"), E("h_many", "20-300 records, every second to fourth deleted, spread and in one slot (names of 17-57 characters there)"), E("h_select", "every deleted subset of 4 records, every type range, sorted and not"), E("h_select_sorted", "every 3 of 9 operations mixing sorted selections with changes"),
    E("h_sorted5", "every 5 operations", thorough=True), E("h_hist4", "every 4 operations with sorted catalogs", thorough=True)])
CHECKS["C07"] = dict(harness="c07.c", entries=[
    E("h_hist3", "2 records, every 3 operations (4 sizes of write, delete, undelete, rename), reclaim 1-3, two ways of opening"), E("h_each3", "as h_hist3 with a close and reopen after every operation"), E("h_many", "1-400 records of 1-600 words, spread and in one slot"),
    E("h_each4", "every 4 operations", thorough=True), E("h_hist4", "every 4 operations (3 sizes)", thorough=True)])
RS = "float or double symbolic values, %s"
CHECKS["C09"] = dict(harness="c09.c", assumptions=["a failing call moves no data or, cut short, a part of it; it fails once or from then on", "a rename that fails midway reports an error, but the record may be left under neither name: not part of this property"], entries=[
    E("h_write", "4-record file, records spread or in one slot; write of 4 sizes, delete, undelete, rename; any one of the first 12 reads or writes fails or is cut short, once or for good; the file handle warm or fresh", covers=("failed", "reported", "end")),
    E("h_read", "zread, zcheck, zdataType, zcatalog, record basics, record size on present, deleted and absent records; any of the first 12 reads fails", covers=("failed", "end")),
    E("h_open", "opening an existing or creating a new file; any of the first 12 reads or writes fails", covers=("failed", "reported", "end")),
    E("h_store", "storing regular and irregular series, paired data, text, arrays, location, duplicating, new or replacing; any of the first 24 reads or writes fails", dl=300, covers=("failed", "reported", "end")),
    E("h_fetch", "retrieving the same; any of the first 24 reads fails", covers=("failed", "reported", "end"))])
CHECKS["C10"] = dict(harness="c10.c", assumptions=["opening in exclusive mode writes the lock words of a version-7 file", "an empty file becomes a new DSS file", "damage to header words other than the signature, version, header size, end flag and bin size cannot be told from valid content when opening"], entries=[
    E("h_sign", "any 4 signature and 8 version bytes; opened in 6 ways (every access mode, both interfaces)", covers=("opened", "refused", "end")), E("h_word", "any one byte of the end flag, the bin size, the last reserved word and word 3 changed to any value", covers=("opened", "refused", "end")),
    E("h_size", "20 header sizes from -100 to 2^62", covers=("opened", "refused", "end")), E("h_short", "64 lengths from 0 to the end of the header", covers=("refused", "end")),
    E("h_other", "15 lengths of 1-2000 bytes, zeros, text or noise, with any first 4 bytes and version byte and a plausible or implausible header size", covers=("refused", "end")), E("h_new", "no file there, every access mode", covers=("end",))])
CHECKS["C11"] = dict(harness="c11.c", assumptions=["a sorted catalog may save its sort order in a file that is open for writing", "storing values for missing ones only, where none is missing, is no storing", "the lock bytes taken while open are not content"], entries=[
    E("h_read", "17-record file with records of all kinds, spread or in one slot, open for writing; 26 reading or querying operations on present, deleted, absent records and series of other kinds", covers=("end",)), E("h_read_ro", "the same on a file open for reading", covers=("end",)),
    E("h_sorted", "sorted catalogs, once or twice, open for reading or writing", covers=("end",)), E("h_write_ro", "21 storing, deleting, renaming, copying operations on a file opened for reading, set to read only in two modes or without write permission", covers=("end",)), E("h_api_ro", "the public interface on a file without write permission", covers=("end",))])
T12 = "two processes with a handle each, 2 existing and 3 new names (two of them in one slot), 7 (thorough: 10) operations (write, rewrite longer, delete, rename), 1-3 layouts; both handles, the remaining handle, a third process and zcheckFile agree after them"
CHECKS["C12"] = dict(harness="c12.c", assumptions=["the two processes share the static variables of the library in the model (which hold no state of a file)", "processes are interleaved at whole operations and where one sleeps waiting for a lock; byte-range locks as POSIX defines them", "in the default advisory mode a process may be refused while another holds the lock: it must then change nothing"], entries=[
    E("h_multi", "2 operations in any order of processes, both in multi-user access, none may be refused; " + T12, covers=("end",)), E("h_default", "as h_multi in the default access", covers=("end", "refused")), E("h_mixed", "one in default, one in multi-user access", covers=("end", "refused")),
    E("h_three", "3 operations; " + T12, covers=("end",)), E("h_crash", "as h_multi, the processes ending without closing the file", covers=("end",)), E("h_waits", "the second process waits for the lock while the first performs any operation, then another", covers=("end", "waited")),
    E("h_kinds", "6 kinds of records stored by one process, read and replaced by the other, twice; 2 access modes", covers=("kinds", "refused"))])
CHECKS["C19"] = dict(harness="c19.c", assumptions=["a user header of an odd number of words that may be text gains a zero word on purpose", "text records of rows and columns as stored by ztextStore; ztextStoreFromFile/RetrieveToFile are not modelled"], entries=[
    E("h_text", "14 (thorough: 17) lengths of 1-801 (4000) characters, first, middle and last symbolic; buffers from 2 too small to 3 larger; reopened or not", covers=("end",)), E("h_chars", "1-4 (thorough: 6) characters, each any byte, terminated or not", covers=("end",)),
    E("h_text_again", "a text replaced by one of another of 16 lengths, reclaim 1-3", covers=("end",)), E("h_struct", "string, table and labels of 0-30 characters (ends symbolic), user header of 0-3 words, any rows and columns", covers=("end",)), E("h_struct_again", "such a record replaced", covers=("end",)), E("h_none", "6 records without content, and absent ones", covers=("end",)),
    E("h_array", "0-300 ints, floats and doubles together, ends symbolic, exact and larger buffers", covers=("end",)), E("h_array_again", "arrays replaced by others of 0-600 numbers, reclaim 1-3", covers=("end",))])
CHECKS["C22"] = dict(harness="c22.c", assumptions=["the float and double forms of one kind of time series replace each other, as do those of paired data", "time series stored under a pathname of the other family (regular/irregular) are rejected by the pathname"], entries=[
    E(e, "12 kinds of data in 2 sizes stored over " + b + ", whole record, catalog entry, write time, count and another record compared, before and after reopening", covers=("refused", "replaced")) for e, b in [("h_over_ts", "regular series"), ("h_over_its", "irregular series"), ("h_over_pd", "paired data"), ("h_over_text", "text and text tables"), ("h_over_array", "arrays and grids"), ("h_over_other", "TINs and records of an unknown type")]] + [
    E("h_types", "any two symbolic type numbers 1-999, 2x2 (thorough: 3x4) sizes", covers=("refused", "replaced", "end")), E("h_as", "16 retrieval functions x 12 kinds, regular pathname", covers=("refused", "retrieved", "end")), E("h_as_irr", "16 retrieval functions x 12 kinds, irregular pathname", covers=("refused", "retrieved", "end")),
    E("h_location", "a location over 8 other kinds and they over it", covers=("end",)), E("h_as_type", "16 retrieval functions on a record of any symbolic type number of another family", covers=("end",))])
CHECKS["C20"] = dict(harness="c20.c", assumptions=["texts end in a printable character (the library removes trailing blanks)", "zlib is replaced by a lossless stand-in whose output length modulo 4 is varied", "float grids (the only kind the library stores)", "a location without coordinates, datums or texts is nothing to store; a location stored with a data set does not replace an existing one unless vertical datum overwriting is on", "not-a-number coordinates excluded"], entries=[
    E("h_grid_fields", "2 (3) shapes x 0-4 ranges x 8 types, all 7 whole-number fields, 7 floats, first and last range limits and counts symbolic (32 bits), with and without data", covers=("end",)), E("h_grid_cells", "7 shapes up to 20x15, first, middle and last cell symbolic", covers=("end",)), E("h_grid_texts", "5 texts of 0-9 (40) characters, last symbolic, exact buffers", covers=("end",)), E("h_grid_again", "three grids in turn, 7 shapes, reclaim 1-3", covers=("end",)), E("h_grid_struct", "structures: with and without zlib, data or metadata only, version number, absent texts", covers=("end",)),
    E("h_location", "three pathnames, three symbolic doubles and 5 symbolic codes, texts of 0-12 (80) characters, beside a data set", covers=("end",)), E("h_location_texts", "13x13 lengths of 0-200 characters", covers=("end",)), E("h_location_with", "stored with time series or paired data, then replaced or not, deleted, the data set deleted; three places, reclaim 1-3", covers=("end",)), E("h_location_long", "A and B parts of 32-128 characters", covers=("end",))])
CHECKS["C28"] = dict(harness="c28.c", assumptions=["float copies of elevation series and their vertical datum belong to C31", "data holding a complete record header with the right pathname hash: known finding h_sq_image", "an I/O error in the last, in-place step of a squeeze: known finding h_fault_squeeze"], entries=[
    E("h_sq_two", "3 records (one in six parts), every 2 operations (3 (7) sizes of write, delete, rename), reclaim 2 (1-3), squeezed; first and last words symbolic"), E("h_sq_three", "as h_sq_two, every 3 operations of 1 (2) sizes, reclaim 2"), E("h_sq_data", "1-2 symbolic 64-bit data words; or a record flag, a symbolic status and 5 (8) lengths"), E("h_sq_image", "the first 1-60 words from a record header of another file as data"),
    E("h_kind_ts", "4 kinds of series x 2 sizes x rewritten or not: squeezed, copied with the file, copied alone under the same or another name, duplicated"), E("h_kind_other", "8 other kinds of data, as h_kind_ts"), E("h_copy_over", "11 sizes over nothing or 11 sizes, whole file and one record"), E("h_dup_over", "as h_copy_over within one file, source then deleted or not"), E("h_copy_long", "series copied to a pathname in another style: 3 intervals x precision x 0-2 (3) quality words x notes x user header; a value and a quality symbolic"), E("h_location", "6 kinds x 6 ways of copying x location at source x location at destination"),
    E("h_fault_squeeze", "any one of the reads and writes of a squeeze fails", covers=("refused, the original is good",)), E("h_fault_copy", "any one of the reads and writes of a file copy fails", covers=("refused",))])
CHECKS["C30"] = dict(harness="c30.c", assumptions=["writing or deleting through an alias acts on the primary (deleting removes its aliases, too); an alias cannot be renamed and a record is not renamed to an alias"], entries=[
    E("h_add_remove", "1 record, 3 aliases, every history of 3 (4) additions and removals, removal of all included; reclaim 1-3, with and without all names in one hash slot"), E("h_two", "2 records, 2 aliases, every history of 3"), E("h_write", "1 record, 2 aliases, every 3 of add, remove, remove all, write larger, delete, write smaller"),
    E("h_through", "2 records, 1-3 aliases of either, one of: write, delete or remove all through each alias, alias over a record or itself, alias of nothing, removing a record as alias, another write; file check"), E("h_through2", "as h_through, every two operations (2 aliases, reclaim 2, one slot)"),
    E("h_rename", "1-3 aliases; record renamed to a name that fits or not, other record to an alias, alias renamed"), E("h_dup", "1-3 aliases; duplicated or copied from and to aliases"), E("h_undelete", "1-3 aliases; record deleted, undeleted, aliased again"), E("h_squeeze", "1-3 aliases over 2 records, squeezed"), E("h_length", "18 x 18 lengths of pathname up to 391"), E("h_collide", "4 names with one hash, every history of 4 (5)"), E("h_case", "letter case")])
CHECKS["C32"] = dict(harness="c32.c", assumptions=["the clock advances between the operations (times are in milliseconds)", "a copy of a record keeps the original's write time and program; a catalog may report the time the copy was made", "renaming, undeleting and adding aliases may or may not touch the file's write time", "a user header that is text up to a zero byte is cleaned after it on purpose"], entries=[
    E("h_history", "3 records, every history of 2 (3) operations out of: write in 3 sizes, delete, rename, refused write of another type, reads and delete of a missing record, undelete; reclaim 1-3; basics, sizes, read, catalog; reopened", dl=120, tdl=600), E("h_program", "program names of 1-17 characters, then none, a shorter or a full one; reopened"),
    E("h_search", "4 records, 5 comparisons with each write time -1, 0, +1 ms, sorted or not, filtered or not"), E("h_changed", "3 records and a new one, every history of 2 operations (write, rewrite as it was, change of the last byte, delete, read) since the start; own struct or handle's; filter"), E("h_changed_crc", "the same by checksum"),
    E("h_crc_step", "one step of the checksum: all 32-bit values so far, all bytes"), E("h_crc_byte", "every byte of each of the parts a checksum covers, 7 sets of sizes, 2 bits"), E("h_kinds", "12 kinds of records stored 3 times, 2 sizes"), E("h_part", "paired data (float, double), any of 3 ordinates of 2 curves stored alone"),
    E("h_two", "two handles of a file: write in place, expanded, delete, second handle fresh or warm"), E("h_copy", "record copy, duplicate, file copy, squeeze; onto an existing record or not"), E("h_alias", "3 sizes written through an alias, both ways of change tracking")])
CHECKS["C21"] = dict(harness="c21.c", assumptions=["lengths passed are those of the buffers and not negative (the number of values of a series may be)", "paired data are retrieved with the exact sizes (other sizes are refused)", "quality of more than one word per value is read through other functions"], entries=[
    E("h_copy", "the bounded copy: every source of 0-6 symbolic bytes, destinations of 0-6 bytes, 0-8 asked"), E("h_catalog", "3 records, 0-4 pathnames of 0-26 bytes each, filtered or not"), E("h_ts_values", "6 values, regular or irregular, float or double, quality or none, buffers of -1 to 8 values, whole record or window"), E("h_ts_window", "a window of 120 values, buffers of 119-121"),
    E("h_ts_texts", "units, type and time zone of 0-9 (20) bytes, buffers of 0-11 (22) bytes; last byte symbolic; also tsRetrieveInfo"), E("h_pd_sizes", "1-3 ordinates, 1-3 curves, buffers of 0-4 and 0-10 values, labels or not"), E("h_pd_texts", "units, types, time zone and labels of 0-7 (20) bytes, buffers of 0-9 (22) bytes; also pdRetrieveInfo"), E("h_location", "time zone and supplemental text of 0-9 (30) bytes, buffers of 0-11 (32) bytes"),
    E("h_grid_sizes", "grids of 1-6 cells, 0-3 ranges, buffers of 0-7 cells and 0-4 ranges"), E("h_grid_texts", "5 texts of 0-7 (20) bytes, buffers of 0-9 (22) bytes"), E("h_array", "0, 1 or 3 ints, floats, doubles, buffers of 0-4"), E("h_text", "texts of 1-18 (40) bytes, buffers of 0-20 (42) bytes"), E("h_wrong", "each retrieval function on no record and on records of each other kind, buffers of 0-3")])
CHECKS["C31"] = dict(harness="c31.c", assumptions=["offsets are numbers a double holds, names of datums are at most 16 bytes; an elevation that is a missing-value code in the native datum is missing", "compressed texts: deflate is replaced by an exact stand-in, so base-64, headers, lengths and buffers are the library's and compression itself is not examined", "an unknown name of a tag, and text after the information, are ignored as the library documents"], entries=[
    E("h_b64", "1-6 (10) bytes, one of the last three any byte"), E("h_b64_bad", "6 codes, one character of them anything but base-64, or cut or lengthened"), E("h_delimited", "0-3 parameters in any order, 5 values, room short by 1 to exact, overwritten or kept, removed"), E("h_header", "texts of 0-13 bytes, one of them any"), E("h_find", "5 texts"),
    E("h_info", "6 native datums, 7 x 7 offsets, estimates, 2 units, plain and compressed, alone and within a user header", dl=120), E("h_text", "3 datum texts"), E("h_any0", "a datum text of 400 bytes, every third (every) byte of it replaced by any byte", dl=120, tdl=600), E("h_any1", "a datum text of 220 bytes, every byte of it replaced by any byte", dl=120), E("h_any2", "a datum text of 370 bytes, every byte of it replaced by any byte", dl=120), E("h_malformed", "29 malformed texts"), E("h_offset", "6 x 9 units, 7 offsets"),
    E("h_regular", "regular series of 5 values with missing ones: float or double, 6 sets of information (3), given in 4 ways, 4 datums given in 3 ways, 3 units; read in 4 datums; a second store in another datum", dl=120, tdl=400), E("h_irregular", "as h_regular, irregular", dl=120, tdl=400), E("h_conflict", "6 x 6 sets of information, given in 4 ways, overwritten or not"), E("h_none", "series without information or absent, 4 datums"),
    E("h_double", "one elevation any double in -30000..30000, 3 x 3 datums, regular or irregular"), E("h_float", "one elevation any float in -30000..30000, 3 x 3 datums, regular or irregular; back in its own datum within 0.01"), E("h_paired", "elevations among ordinates, values or both; 3 ordinates, 2 curves with missing values; information, datums and units as h_regular; whole and part read in 4 datums", dl=120, tdl=400), E("h_paired_part", "as h_paired, part of a curve stored in another datum", dl=120, tdl=400)])
CHECKS["C13"] = dict(harness="c13.c", assumptions=["-901, -902 and -FLT_MAX are the library's missing-value codes; a stored value equal to one of them is a missing value", "sub-minute series are stored and retrieved with timeGranularitySeconds = 1"],
  note="bounded symbolic execution: every assertion is decided by the solver for all stored values and qualities; windows, start times and lengths are forked exhaustively within the bounds listed per entry", entries=[
    E(e, b) for e, b in [("h_15min", "15-minute series around block ends"), ("h_1hour", "hourly series around block ends"), ("h_6hour", "6-hourly series around block ends"), ("h_1day", "daily series around block ends"), ("h_1week", "weekly series inside a decade"), ("h_week_decade", "weekly series around the start of a decade"), ("h_trimonth", "third-of-month series"), ("h_semimonth", "half-month series"), ("h_1month", "monthly series"), ("h_1year", "yearly series"), ("h_1sec", "1-second series"), ("h_1min", "1-minute series"), ("h_intervals", "every regular interval"), ("h_years", "start years over the supported range"), ("h_months", "every month"), ("h_quality_day", "values with quality, daily"), ("h_quality_month", "values with quality, monthly"), ("h_gap", "series with gaps between stored windows"), ("h_long", "series over several blocks"), ("h_some_quality", "daily, hourly, monthly: 1-2 values stored with quality, notes or text notes and 1-2 without, in one block or two, in either order"), ("h_some_notes", "a window over four decade blocks, each absent, without text notes or with them; one symbolic character"), ("h_buffer", "hourly values in one block, every length from 170 to 250 (doubles) and 340 to 500 (floats), then two values replaced"), ("h_api", "daily and monthly series stored and read through the C interface with quality, units, type, time zone, as floats or doubles; a symbolic value or quality")]])
CHECKS["C14"] = dict(harness="c14.c", assumptions=["-901, -902 and -FLT_MAX are the library's missing-value codes"], entries=[
    E(e, "two stores, 4 (6) old windows x 3 (6) patterns of missing, 10 new windows x 4 patterns, 5 flags, around a block end; one old and one new value symbolic; " + b) for e, b in [("h_merge_year", "yearly"), ("h_merge_month", "monthly"), ("h_merge_day", "daily"), ("h_merge_hour", "hourly"), ("h_merge_tri", "third of month")]] + [
    E("h_any", "two stores of 3 values, every pattern of missing, all values symbolic, 5 flags"), E("h_repeat", "13, 20 and 33 steps of repeated symbolic values (stored compressed), second store of 5 values inside, 5 flags"),
    E("h_blocks", "three blocks, the middle one filled, thinned or emptied, 5 flags"), E("h_partial", "three daily blocks of 10 minute values, a second store over parts of the first and the last, 4 starts x 4 ends, 5 flags, two symbolic values"), E("h_empty", "blocks left without valid values, 5 flags"), E("h_quality", "values with quality of 1-2 words, 5 flags"), E("h_mixed", "floats into double series and doubles into float series, 5 flags")])
TB = "9 times around two block boundaries (at, one unit before and after), 4-8 (16) old subsets x every third to fifth (every) new subset, merge and replace, one old and one new value symbolic; whole range and one window read"
CHECKS["C15"] = dict(harness="c15.c", assumptions=["times within one stored series are distinct (the property asks for strictly increasing times)", "series at second granularity are retrieved with timeGranularitySeconds = 1"], entries=[
    E(e, b + ": " + TB) for e, b in [("h_day", "day blocks"), ("h_month", "month blocks"), ("h_year", "year blocks"), ("h_decade", "decade blocks"), ("h_century", "century blocks")]] + [
    E("h_extra_month", "month blocks with quality of 1-3 words, notes of 1 or 3 words or text notes, one word symbolic"), E("h_extra_century", "as h_extra_month in century blocks"),
    E("h_extra_some", "month and century blocks, only the first or only the second store with quality, notes or text notes, merge and replace"), E("h_windows", "every window between 9 times, 5 block sizes, 4 stored subsets"), E("h_neighbours", "every window with the previous and/or following value"), E("h_anytime", "one value at a symbolic second near each of 5 places in a month"), E("h_mixed", "floats into double series and doubles into float series"), E("h_orders", "1-2 (3) values at symbolic times merged with or replaced by 1-2 (3) values at symbolic times, all orders and coincidences"), E("h_api", "series stored and read through the C interface with quality, units, type, time zone, as floats or doubles; a symbolic value or quality")])
RB = "1-5 values at 7 places around a block boundary, 6 patterns of missing, one symbolic value, with and without offset%s"
CHECKS["C16"] = dict(harness="c16.c", assumptions=["the first and last blocks hold at least one valid value (otherwise: known finding h_range_empty)", "for irregular series the reported number is the room needed, not less than the number of values"], entries=[
    E("h_range_" + e, b) for e, b in [("day", "daily: " + RB % ", one or two stores"), ("15min", "15-minute: " + RB % ", one or two stores"), ("month", "monthly: " + RB % ", one or two stores"), ("year", "yearly: " + RB % ", one or two stores"), ("tri", "third of month: " + RB % ", one or two stores"), ("week", "weekly: " + RB % ", one or two stores"), ("sec", "1-second: " + RB % ", one store")]] + [
    E("h_range_empty", "an all-missing block at either end", covers=())] + [
    E("h_irr_" + e, e + " blocks: 8 first and 4 second sets of 8 times around two block boundaries, with and without quality") for e in ("day", "month", "year", "decade", "century")] + [
    E("h_sizes_" + e, e + ": 5 starts x 1-4 values x 0-2 quality words, every window of 1-9 steps; symbolic units and type characters") for e in ("day", "month", "15min")])
CHECKS["C18"] = dict(harness="c18.c", assumptions=["pathnames without an elevation parameter (those are converted by vertical datum, C31)", "not-a-number values excluded"], entries=[
    E("h_whole", "1-4 ordinates x 1-3 curves x labels x precision fields x both precisions x 3 storage flags, retrieved in every precision; one ordinate and one value symbolic"), E("h_whole_big", "7 ordinates x 5-6 curves, as above"),
    E("h_replace", "every pair of 8 shapes and precisions with and without labels"), E("h_part", "every rectangle of 3 ordinates x 3 curves stored over a record of either precision from values of either precision"), E("h_part_even", "every rectangle of 4 ordinates x 2 curves, with labels"),
    E("h_read", "every rectangle of 4 or 5 ordinates x 3 curves, open-ended ones included"), E("h_labels", "labels of every range of 4 curves replaced: 6 texts x 4 kinds of reserved room"), E("h_reserve", "reserved space filled one curve at a time in every order"), E("h_api", "hec_dss_pdStore/pdRetrieveInfo/pdRetrieve: 1-4 ordinates x 1-3 curves")])
CHECKS["C17"] = dict(harness="c17.c", assumptions=["not-a-number values excluded", "a double whose nearest float is a missing code is missing when it is asked for as a float", "paired data and arrays: see C18 and C19"], entries=[
    E("h_convert", "the conversion helpers on 1-3 symbolic doubles and floats, in place and not"), E("h_missing", "the missing-value tests for every double and float, through both conversions")] + [
    E("h_reg_" + e, e + ": 5 values then 3 of the other or the same precision at 5 positions over a block boundary, 4 patterns of missing codes, 3 retrieval precisions, then trimmed; one symbolic value in each store") for e in ("day", "hour", "month")] + [
    E("h_irr_" + e, e + " blocks: 4 values then 5 sets of further times in either precision, merged or replacing, 3 patterns of missing codes, 3 retrieval precisions; one symbolic value in each store") for e in ("day", "month", "year")])
CHECKS["C26"] = dict(harness="c26.c", assumptions=["a name may be shortened (15MIN): it stands for a standard interval it is the start of", "version 7 names"], entries=[
    E("h_names", "39 names, every letter case symbolic, any bytes after the name, both directions"), E("h_seconds", "any 32-bit number of seconds"), E("h_reject4", "every 4-character name, all bytes symbolic"), E("h_reject7", "every 7-character name (thorough: 9), all bytes symbolic"), E("h_path", "pathnames with each name in 3 letter cases, pseudo-regular or not; block sizes"), E("h_list", "the enumeration")])
CHECKS["C24"] = dict(harness="c24.c", assumptions=["timeStringToSecondsMills returns a float: 1/128 s is its resolution", "days -700 to 73049 from 31Dec1899 where dates are involved (dates themselves: C23)"], entries=[
    E("h_text", "every second of the day, every millisecond, 4 styles"), E("h_sizes", "every second of the day, 4 styles, buffers of 0 to 14 bytes"), E("h_invalid", "any 32-bit seconds and style -2 to 5"), E("h_parse", "7 spellings of the time, 8 hours, every minute, second and millisecond", dl=300),
    E("h_mills", "every millisecond of 9 seconds"), E("h_bad", "every text of 0-4 (thorough: 6) characters of digits, '.', ':', 'x'"), E("h_clean_sec", "any day within 1000000 and time within 20000 days, in seconds"), E("h_clean_min", "in minutes"), E("h_clean_hour", "in hours"), E("h_clean_day", "in days"),
    E("h_compare", "times around two bases in 3 granularities each"), E("h_offset", "6 (thorough: 10) base dates x 4 granularities x 5 days x 5 (24) hours, every time within the hour"), E("h_minutes", "every minute of 10 days, before 1900 included"), E("h_millis", "10 days, 5 (24) hours, every second or millisecond"), E("h_spatial", "date and time of a grid: every second of 10 days")])
CHECKS["C27"] = dict(harness="c27.c", assumptions=["buffers of at least one byte", "parts shorter than the 128 characters a part may have"], entries=[
    E("h_form", "one part of 0-3 (thorough: 4) symbolic characters between parts of 0-64 characters, trimmed, formed, measured and extracted"), E("h_form_size", "pathnames of 7-51 characters into buffers of 0-60 bytes"),
    E("h_set", "every part of 5 old and 7 new lengths (new text symbolic), buffers that are too small by one, exact, and larger"), E("h_invalid", "any part number"),
    E("h_any", "any text of 0-8 (thorough: 11) bytes as a pathname, every part, 3 buffer sizes"), E("h_any_set", "any text of 0-8 (10) bytes, every part, 3 new texts"), E("h_any_loc", "location pathname of any text of 0-6 bytes"), E("h_clean", "any text of 0-8 (9) bytes into buffers of 1-10 bytes"),
    E("h_compare", "any byte at any position"), E("h_collection", "any character at any position of a collection member"), E("h_sequence", "every sequence number, 6 F parts"), E("h_fpart", "every order of 3 of 6 tagged texts, one symbolic character"), E("h_window", "date ranges of 0-32 characters on either side, one symbolic character")])
CHECKS["C29"] = dict(harness="c29.c", assumptions=["little-endian words", "buffers of at least one byte (two for numbers as text)", "texts to be measured are terminated", "mallocAndCopy of texts in ASCII (it stops after the first other byte)"], entries=[
    E("h_copy", "0-6 symbolic characters, terminated or not, 9 lengths, sizes 1-8"), E("h_cat", "0-4 characters in place, 0-5 appended, 6 lengths, sizes 1-9"), E("h_trim", "every text of 0-5 (thorough: 7) bytes"), E("h_copytrim", "every text of 0-5 bytes, 8 lengths, sizes 1-7"), E("h_fort", "every unterminated text of 0-5 (7) bytes"), E("h_case", "every text of 0-6 bytes; every fill character"), E("h_lines", "every text of 0-6 (8) bytes, 1-4 lines, sizes 1-7"),
    E("h_itoa", "numbers of 7 ranges (the extremes included) into 2-13 bytes"), E("h_base16", "256 numbers around each of 5 bases"), E("h_commas", "10 numbers around each of 11 bases into 1-28 bytes"), E("h_int24", "every number of 4 digits"), E("h_find", "every text of 0-6 (7) bytes"), E("h_fields", "3 fields, all columns within 3 (4), sizes 1-13"),
    E("h_pack", "1-20 symbolic bytes, 3 fills, both directions"), E("h_pack_max", "0-12 bytes asked, 1-9 there, room for 1-12"), E("h_words", "any two ints, any two floats, any count"), E("h_swap", "any 1-3 longs"), E("h_arrays", "0-4 elements of 1-4 symbolic words"), E("h_intarray", "0-4 elements of 1-3 words to 1-3 words, in place and not"), E("h_table", "tables of 1-2 rows and columns of texts of 0-2 bytes"), E("h_header", "two header texts of 0-9 characters"), E("h_string", "texts of 1-3 bytes in texts of 0-4 (5)")])
CR = "; killed before each of its file writes and after the last, reopened by another process, read, cataloged and written further"
CHECKS["C08"] = dict(harness="c08.c", assumptions=["a write reaches the file whole or not at all, in the order issued", "the file is open in the default multi-user mode (in exclusive mode the header is written at close)", "squeezing replaces the file by renaming: not covered"], entries=[
    E("h_one", "4 records spread or in one slot, every operation (4 sizes of write, delete, rename) on an existing or new name, reclaim 1-3" + CR, covers=("crashed", "end")), E("h_after", "as h_one after one of 4 earlier operations, undelete too" + CR, covers=("crashed", "end")),
    E("h_slot_long", "3-9 names of 130-391 characters in one slot: new record, delete, rename" + CR, covers=("crashed", "end")), E("h_slot_short", "8-22 names of 14-70 characters in one slot" + CR, covers=("crashed", "end")), E("h_bins", "28-36 slots in use (a block holds 32 bins)" + CR, covers=("crashed", "end")),
    E("h_api", "storing series over several blocks, paired data, text, arrays, duplicating, sorted catalog, deleting; new or replacing" + CR, covers=("crashed", "end")), E("h_kinds", "a series or paired data must survive any of 9 operations" + CR, covers=("crashed", "end")),
    E("h_after2", "as h_one after two earlier operations" + CR, covers=("crashed", "end"), thorough=True)])
