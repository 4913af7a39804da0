#!/usr/bin/env python3
# Writes /verif/properties.jsonl (kept as a generator so the entries stay readable and diffable).
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
      "anchors": {"files": files,
        "state": [dict(name=n, meaning=m, where=w) for n, m, w in state],
        "mechanism": [dict(name=n, where=w) for n, w in mech],
        "observe_at": list(observe), "hook_needed": hook}})

p("C01", "One output row per input line, in input order",
  "For every input line inside the selected window the tabular output contains exactly one row, and rows appear in input order (file by file, line by line), whatever the number of concurrent readers and however their work is scheduled. No line is dropped, duplicated or reordered, including blank lines, lines without JSON and lines that arrive while other lines are still being processed.",
  ["schedules", "inputs", "configurations"],
  "every interleaving of the line workers and the in-order emitter, every concurrency level, every mix of good/blank/malformed lines, one or several input files",
  "TestNewProcessor_concurrency runs one fixture under whatever schedule the Go runtime picks; it cannot steer a worker between completing a line and handing it to the ordered emitter.",
  ["flatjsonl/processor.go", "flatjsonl/reader.go"],
  [("in-order emission by expected sequence number", "processor.go: lineFinished, checkCompleted, complete"), ("final drain", "processor.go: waitPending"), ("worker semaphore", "reader.go: Read")],
  [("pending/finished line buffers", "lines being flattened / flattened but not yet emitted", "processor.go: writeIterator"), ("expected sequence", "next row to emit", "processor.go: writeIterator.seqExpected")],
  ["rows of the CSV/RAW/SQLite/PG output files after exit status 0"])
p("C02", "Every cell holds the value its own line had for that key",
  "In every output row, each column holds exactly the value the corresponding input line has at that key (the first occurrence when several keys share a column, or all of them joined when a concatenation delimiter is configured), and is empty when the line has no such key. Values never leak from another line, from a previous user of a reused buffer or parser, or from another column, whatever the schedule.",
  ["schedules", "inputs", "configurations"],
  "every interleaving of workers that reuse parsers, line buffers and row buffers, every set of lines with overlapping and sparse keys",
  "Unit tests compare a few fixed files; leakage through recycled buffers needs sparse lines to be processed by recycled workers in a particular order.",
  ["flatjsonl/processor.go", "flatjsonl/reader.go", "flatjsonl/flattener.go", "flatjsonl/writer.go"],
  [("row buffers recycled through a pool and cleared before reuse", "processor.go: complete, lineBufPool"), ("per-worker parser, line copy, hasher", "reader.go: syncWorker, doLine"), ("first value wins / concatenation", "processor.go: setValue")],
  [("row buffer", "values of one line by column index", "processor.go: lineBuf")],
  ["cells of CSV/RAW/SQLite/PG outputs"])
p("C03", "Columns and column types do not depend on scheduling",
  "The set of columns and the reported type of each column are a function of the input and options only: every scalar key present in the scanned lines becomes a column (up to key case merging and configured include/exclude/zero-column skipping), and its type is the least general type covering all values seen, regardless of the order or interleaving in which lines were scanned. Two runs over the same input never disagree on either.",
  ["schedules", "inputs", "configurations"],
  "every interleaving of the key-scanning workers, every order in which values of different kinds reach the same key (scalar, null, container), mixed-case spellings of a key",
  "Tests check fixtures whose keys have one kind each, so type merging races and order-dependent merges are never exercised.",
  ["flatjsonl/keys.go", "flatjsonl/type.go", "flatjsonl/processor.go"],
  [("key registration under lock with double check", "keys.go: initKey, scanKey"), ("type lattice", "type.go: Type.Update"), ("case-insensitive merge", "keys.go: flKeysInit, prepareKeys")],
  [("key table", "hash of key path to key descriptor", "processor.go: flKeys, canonicalKeys, flKeysList")],
  ["CSV header, -show-keys-info, SQL column types"])
p("C04", "Output failures are never silent",
  "If any part of an output file cannot be created, written, committed or closed (disk full, I/O error, short write, failed commit), the run ends with a failure exit status and a message; a run that reports success has fully written every requested output, including its transposed companions.",
  ["fault_sequences", "inputs", "configurations", "schedules"],
  "every output kind, every byte position or statement at which a create/write/commit/close fails, sticky or transient failures, at any point of the run",
  "No existing test injects a failing write; a failure during the final flush or close happens after the last row was accepted.",
  ["flatjsonl/writer.go", "flatjsonl/csv_writer.go", "flatjsonl/raw_writer.go", "flatjsonl/sqlite_writer.go", "flatjsonl/pg_dump_writer.go", "flatjsonl/processor.go"],
  [("errors propagated from receivers", "writer.go: ReceiveRow, Close"), ("close on exit is fatal on error", "processor.go: WriteOutput")],
  (), ["exit status", "output files"])
p("C05", "Input failures are never silent and chunking never matters",
  "If an input cannot be opened or a read fails, a compressed input is truncated or damaged, or a line does not fit the configured buffer, the run ends with a failure exit status instead of presenting a partial result as complete. How the operating system chops the stream into reads never influences the result.",
  ["fault_sequences", "inputs", "schedules"],
  "every byte offset and either pass at which a read error occurs, every chunking of reads, every truncation point of a compressed input, every over-long line position",
  "Tests read intact local fixtures with whatever chunking the OS gives; a read error in the middle of the second pass is never produced.",
  ["flatjsonl/reader.go", "flatjsonl/processor.go", "flatjsonl/keys.go"],
  [("scanner error returned after workers drained", "reader.go: Read"), ("session setup errors", "reader.go: session")],
  (), ["exit status", "output files"])
p("C06", "Every run terminates, whatever the schedule, memory or failure",
  "Given finite inputs every run ends in bounded time with either success or a reported error: it never deadlocks, spins for ever or crashes, under any scheduling of its workers, under memory pressure (including a heap that never drops below the configured limit), with any concurrency setting, and when an output fails midway.",
  ["schedules", "fault_sequences", "configurations", "inputs"],
  "every interleaving, every memory usage history, failure of any output at any row, concurrency from 1 up",
  "Tests run with ample memory and no failing outputs, so neither the throttle nor the error drain path is reached.",
  ["flatjsonl/reader.go", "flatjsonl/processor.go"],
  [("worker semaphore and drain", "reader.go: Read"), ("memory throttle", "processor.go: watchMemUsage; reader.go: Read"), ("bounded wait for pending rows", "processor.go: waitPending")],
  [("throttle flag", "set by the memory watcher, cleared by the reader", "processor.go: Processor.throttle")],
  ["process end and exit status"])
p("C07", "An interrupted run leaves a clean prefix",
  "When the process is killed or fails at any instant, an uncompressed CSV or RAW output file contains a byte-exact prefix of a correct complete output: a header followed by the rows of lines 1..k in order with the right values, with at most the last record cut short. Nothing interleaved, out of order, repeated or belonging to another line ever reaches the file. An SQLite database holds in each of its tables complete rows of the first lines, and the parts of a table that is split hold rows of the same lines (a row whose insertion failed may lack parts).",
  ["crash_points", "schedules", "fault_sequences"],
  "every step at which the process is killed and every failing write, over every interleaving",
  "Tests only inspect files of completed runs.",
  ["flatjsonl/csv_writer.go", "flatjsonl/raw_writer.go", "flatjsonl/sqlite_writer.go", "flatjsonl/processor.go"],
  [("transactions end between rows", "sqlite_writer.go: ReceiveRow"), ("single emitter appends rows in sequence order", "processor.go: checkCompleted"), ("buffered append-only writer", "csv_writer.go, raw_writer.go")],
  (), ["output file content at the instant of the kill"])
p("C08", "All outputs of one run carry the same table",
  "CSV, RAW, SQLite and PostgreSQL dump outputs produced by one run contain the same rows, in the same order where the format has an order, with the same values, also when columns are split over several part tables or rows are flushed in several batches or transactions. The PostgreSQL dump is well formed: every COPY block names existing columns of a created table, every data row has as many fields as named columns, and numbers and booleans fit the declared types. Columns of numbers are declared to hold numbers, in SQLite as well.",
  ["inputs", "configurations", "schedules"],
  "every combination of outputs, every number of columns relative to the per-table maximum, every number of rows relative to the batch size, any schedule",
  "Fixtures have a handful of rows and columns, so column splitting, batch flushes and transaction turnover are not reached.",
  ["flatjsonl/sqlite_writer.go", "flatjsonl/pg_dump_writer.go", "flatjsonl/csv_writer.go", "flatjsonl/raw_writer.go", "flatjsonl/writer.go"],
  [("row fan-out", "writer.go: ReceiveRow"), ("column splitting into part tables", "sqlite_writer.go, pg_dump_writer.go: createTable, insert"), ("batching", "sqlite_writer.go: commitTx; pg_dump_writer.go: flush")],
  (), ["all output files of one run"])
p("C09", "Transposed tables conserve every value",
  "With transposition configured, each array element or object property under a transposed prefix yields exactly one row in that prefix's table, tagged with the sequence number of its line and its index or property name, holding exactly that element's values; keys outside the prefixes stay in the main table. No value is lost, duplicated or attributed to another line or element, in any output format.",
  ["inputs", "schedules", "configurations"],
  "every shape of arrays/objects below transposed prefixes (absent, sparse, different element fields), several prefixes, every schedule and output format",
  "Two small fixtures; element order, sparse elements and sequence attribution under concurrency are not varied.",
  ["flatjsonl/writer.go", "flatjsonl/keys.go", "flatjsonl/csv_writer.go", "flatjsonl/sqlite_writer.go", "flatjsonl/pg_dump_writer.go", "flatjsonl/raw_writer.go"],
  [("key split into table, row index and trimmed name", "keys.go: scanTransposedKey"), ("row assembly per element", "writer.go: receiveRow, receiveTransposedRowValues")],
  (), ["main and transposed output tables"])
p("C10", "High-cardinality collapse is exact",
  "A container key becomes a single JSON column exactly when the scanned lines hold more distinct direct children under it than the children limit and it is not explicitly allowed; then each row holds that line's complete JSON value of the container and no column below it exists. Containers at or below the limit, and unrelated keys that merely share a textual prefix, stay flattened and lose nothing; none of this depends on the order or interleaving in which lines were scanned.",
  ["schedules", "inputs", "configurations"],
  "every order in which children are discovered concurrently, nested and sibling containers with names that are prefixes of one another, every limit",
  "One fixture with one big object; discovery races around the limit and sibling names are not exercised.",
  ["flatjsonl/keys.go", "flatjsonl/flattener.go"],
  [("cardinality counting under lock", "keys.go: collectKeyCardinality"), ("subtree removal after the scan", "keys.go: prepareScannedKeys"), ("JSON kept in the second pass", "flattener.go: KeepJSON")],
  [("parent cardinality", "number of distinct children per parent", "processor.go: parentCardinality, parentHighCardinality")],
  ["CSV header and cells, key reports"])
p("C11", "Line window and sequence numbers are exact",
  "With an offset and/or maximum number of lines, exactly the lines of that window of the input file produce rows, however lines are scheduled and whether or not the key scanning pass runs; limiting only the key scan never changes which lines produce rows. Sequence numbers are 1..n in row order, identical in every output, and exact for any n.",
  ["inputs", "configurations", "schedules"],
  "every offset/limit combination, with and without configured keys, sequence numbers beyond any formatting precision",
  "No test combines offset with preset keys, and no test has more than a few dozen rows.",
  ["flatjsonl/reader.go", "flatjsonl/keys.go", "flatjsonl/processor.go"],
  [("window counters", "reader.go: Read"), ("sequence assignment at read time", "reader.go: Read, doLine")],
  [("Sequence", "last assigned row number", "reader.go: Reader.Sequence")],
  ["rows and ._sequence/_seq_id values of all outputs"])
p("C12", "Key reports are complete and schedule-independent",
  "The flat list, the hierarchy, the keys info and the JSON schema each describe exactly the keys present in the scanned lines: every scalar key appears, none is invented, listed types cover exactly the kinds of values seen, and the keys info agrees with the columns of the output. The content (up to ordering) is the same for every schedule.",
  ["schedules", "inputs"],
  "every interleaving of scanning workers racing to register and retype the same keys",
  "Tests compare reports of fixed files with keys of one kind; racing registrations are left to chance.",
  ["flatjsonl/processor.go", "flatjsonl/keys.go", "flatjsonl/flattener.go"],
  [("report rendering", "processor.go: maybeShowKeys, showKeysInfo"), ("hierarchy and schema built from the key table", "keys.go: prepareScannedKeys; flattener.go: jsonSchema, KeyHierarchy")],
  (), ["standard output"])
p("C13", "Selecting a single key equals that column of the full run",
  "Extracting one key with the single-key option yields, row by row, the same values as the corresponding column of a full run over the same input, for every schedule and output.",
  ["inputs", "schedules", "configurations"],
  "every key of every document shape (nested, array elements, repeated keys, differing types), any schedule",
  "No test compares the single-key fast path with the general path.",
  ["flatjsonl/reader.go", "flatjsonl/flattener.go", "flatjsonl/processor.go"],
  [("single key fast path", "reader.go: Read; flattener.go: GetKey"), ("single key hash filter", "processor.go: newWriteIterator, setValue")],
  (), ["output column"])
p("C14", "Compression never changes content",
  "Reading gzip or zstd compressed inputs gives the same result as reading the uncompressed bytes, and gzip or zstd outputs decompress to exactly what the uncompressed output would contain, for every schedule of the compression helpers and every chunking of the streams. A run that reports success leaves a complete compressed stream with its trailer.",
  ["schedules", "inputs", "fault_sequences"],
  "every interleaving of the parallel gzip helpers with the row writer, multi-member inputs, every read chunking",
  "Tests cover one compressed fixture with one schedule.",
  ["flatjsonl/reader.go", "flatjsonl/writer.go", "flatjsonl/pg_dump_writer.go"],
  [("decompression in session setup", "reader.go: session"), ("compressing file writer", "writer.go: newFileWriter; pg_dump_writer.go: NewPGDumpWriter")],
  (), ["decompressed output files"])
p("C15", "A bad line harms only itself",
  "A line that is malformed, contains no JSON, or is otherwise unusable costs at most its own data: it still takes its row, it is counted as an error, and all rows, columns and types contributed by the other lines are exactly those of a run in which the bad line contributes nothing. It never stops the run or alters neighbouring rows, wherever it is placed and whichever worker handles it.",
  ["inputs", "schedules"],
  "every position and kind of bad line (truncated JSON, binary garbage, non-object JSON, unparsable numbers, empty keys), every worker schedule",
  "Tests do not mix malformed lines with concurrency and compare against the same input without them.",
  ["flatjsonl/reader.go", "flatjsonl/flattener.go", "flatjsonl/processor.go"],
  [("per-line error isolation", "reader.go: doLine (parse error and recover)"), ("row emitted for unusable lines", "reader.go: doLine -> lineFinished")],
  (), ["output rows", "exit status", "error count"])
p("C16", "Every opened file is closed when a run ends",
  "When processing finishes, successfully or with a reported error, every input and output file it opened has been closed, so that long lists of inputs never exhaust descriptors and errors surfacing at close are seen.",
  ["histories", "fault_sequences", "configurations"],
  "every number of input files, passes, output kinds and compression, with and without failures",
  "Tests never count descriptors; a leak of two descriptors per input passes every fixture.",
  ["flatjsonl/reader.go", "flatjsonl/writer.go", "flatjsonl/pg_dump_writer.go", "flatjsonl/csv_writer.go", "flatjsonl/raw_writer.go"],
  [("read session close", "reader.go: readSession.Close"), ("writer close", "writer.go: Writer.Close")],
  (), ["open file handles at process end"])
p("C17", "csvequals gives the right verdict or an error",
  "The CSV comparison tool reports equality exactly when both files have the same number of records and every record maps the same column names to the same values, regardless of column order and of how reads are chunked; any read failure or structural mismatch ends with a failure status, never with a claim of equality.",
  ["inputs", "fault_sequences"],
  "every pair of files, every position of a difference, every read failure position and chunking",
  "The tool has no tests.",
  ["cmd/csvequals/main.go"],
  [("record by record comparison by column name", "cmd/csvequals/main.go: main, mapDiff")],
  (), ["exit status and message"])
p("C18", "String extraction loses nothing under concurrency",
  "With string extraction enabled, each JSON or URL embedded in a string value (at any nesting depth) is expanded into columns whose cells hold exactly the embedded values of their own line, next to the original string, and strings that are not JSON or URL are left alone. Reuse of nested parsers between workers never mixes or loses values.",
  ["schedules", "inputs", "configurations"],
  "every interleaving of workers that borrow nested parsers while walking embedded documents, every nesting of JSON in strings and URLs",
  "Two fixtures processed by few workers; parser reuse between workers at the wrong moment is left to chance.",
  ["flatjsonl/flattener.go", "flatjsonl/extract.go", "flatjsonl/url.go"],
  [("nested parser pool", "flattener.go: parserPool, walkFastJSONString"), ("extraction rules", "keys.go: extractRegex; extract.go")],
  (), ["output columns and cells, JSON schema"])
p("C19", "Columns have exactly the configured names",
  "Names of columns follow the configuration alone: a key that is renamed by a map or matched by a replacement pattern gets exactly that name, keys mapped to one name share one column, and shortened or made-up names (unique tails, key length limit) are legal, within the limit and never shared by columns of different keys. Names do not depend on the order in which keys or rules are visited, so two runs over the same input always agree, and renaming never moves a value into another column.",
  ["configurations", "inputs", "schedules"],
  "every set of rules (map, patterns with captures, unique tails, length limit, combinations), every set of keys with common tails or prefixes, every order in which keys are scanned and maps are iterated",
  "Fixtures rename a few keys with one rule each in one run; collisions and the order of maps and of racing scanners are not varied.",
  ["flatjsonl/keys.go", "flatjsonl/regex.go", "flatjsonl/processor.go"],
  [("names of keys and collisions", "keys.go: prepareKeys, prepareKey, limitKey, toSnakeCase"), ("pattern rules", "regex.go: regex")],
  [("names given so far", "used to tell shortened names apart", "processor.go: replaceKeys, replaceByKey, limitedKeys")],
  ["header and cells of outputs, -show-keys-info"])
p("C20", "Configured conversions apply to exactly their cells",
  "Conversions configured for values (time layouts and output zone, concatenation of keys that share a column, constant columns, field length limit) give the documented result in every row and in every output: each value of a configured key is converted, a value that can not be converted is reported in its own cell, joined values keep their order and delimiter, constants fill every row, and no other cell is changed. The schedule never influences any of it, and converted values fit the declared types of their columns.",
  ["inputs", "configurations", "schedules"],
  "every mix of converted and other keys, times with and without zones, invalid times, keys repeated in a line, every combination of conversions and outputs, every schedule of workers that reuse row buffers",
  "One time layout, one delimiter, one schedule are tested.",
  ["flatjsonl/processor.go", "flatjsonl/writer.go", "flatjsonl/flattener.go", "flatjsonl/pg_dump_writer.go", "flatjsonl/sqlite_writer.go"],
  [("time conversion and concatenation", "processor.go: setValue"), ("constant columns", "processor.go: complete; keys.go: prepareKeys"), ("field length limit", "flattener.go: walkFastJSONString")],
  [("conversion tables", "time layouts and columns by key", "processor.go: pkTimeFmt, constVals")],
  ["cells of CSV/RAW/SQLite/PG outputs"])
p("C21", "Running again after an interruption gives a clean result",
  "After any number of runs that were killed at an arbitrary moment, failed or completed (also over other inputs), running the command again in the same place gives exactly the outputs of a run in a clean directory: nothing of an earlier run's files shows up in, after or between the new rows. An existing SQLite database may be refused with an error, but is never silently extended or mixed.",
  ["crash_points", "histories", "fault_sequences", "schedules"],
  "every sequence of earlier runs, every step at which they were killed, every operation that failed in them, every size of left-over files",
  "Tests always start in a clean directory.",
  ["flatjsonl/writer.go", "flatjsonl/csv_writer.go", "flatjsonl/raw_writer.go", "flatjsonl/sqlite_writer.go", "flatjsonl/pg_dump_writer.go"],
  [("outputs are created anew", "writer.go: newFileWriter; pg_dump_writer.go: NewPGDumpWriter"), ("tables are created, never reused", "sqlite_writer.go: createTable")],
  [("output files", "only state that survives a run", "file system")],
  ["all output files after the last run"])
p("C22", "Diagnostics never influence results",
  "Verbosity, progress reporting and its interval, and the requested key reports have no influence on outputs: rows, columns and types are those of a silent run for every setting and schedule, standard output holds exactly the requested reports (and nothing when none is requested), and the reports themselves do not depend on verbosity and progress.",
  ["configurations", "schedules", "inputs"],
  "every verbosity and progress interval, every set of reports, every moment at which a progress tick meets the workers",
  "Progress ticks every 5 seconds, fixtures take milliseconds: no test sees a tick while lines are processed.",
  ["flatjsonl/processor.go", "flatjsonl/reader.go", "flatjsonl/keys.go", "flatjsonl/flags.go"],
  [("progress and its metrics", "processor.go: NewProcessor, PrepareKeys, newWriteIterator; reader.go: session"), ("reports", "processor.go: maybeShowKeys, showKeysInfo")],
  (), ["output files, standard output"])
p("C23", "Only the outputs are written",
  "A run never modifies, truncates or removes its inputs, its configuration or any other file next to them, whether it succeeds, fails or is killed, and a successful run leaves no files behind but its outputs and their transposed companions.",
  ["inputs", "configurations", "fault_sequences", "crash_points"],
  "every set of input, output and neighbouring file names, every failure and kill, every combination of outputs and compression",
  "Tests look at the files they expect, never at the others, and never after a failure.",
  ["flatjsonl/writer.go", "flatjsonl/flags.go", "flatjsonl/pg_dump_writer.go", "flatjsonl/sqlite_writer.go", "flatjsonl/csv_writer.go", "flatjsonl/raw_writer.go", "flatjsonl/reader.go"],
  [("names of outputs", "flags.go: PrepareOutput; csv_writer.go, raw_writer.go: transposed file names"), ("files are opened for reading only", "reader.go: session")],
  (), ["the whole file system after the run"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x) + "\n")
