#!/usr/bin/env python3
"""Single source for /verif/properties.jsonl (run: python3 tools/props.py)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=hook)))

# ---------------------------------------------------------------- iterator
p("C01", "Log splitting is exact and independent of how the input arrives",
  "For every byte stream and every way a reader may deliver it (any sequence of read sizes), the line iterator yields, in order and byte for byte, exactly the non-empty pieces between separators: a newline, a literal backslash-n, and in JSON mode the characters , [ ] { } outside double-quoted strings. "
  "A backslash makes the next character ordinary (an escaped backslash followed by n does not split, an escaped quote does not open or close a string) but never hides a real newline. "
  "A piece longer than 6000 bytes is dropped as a whole; nothing else is lost, merged, duplicated, altered or invented, and no input makes the iterator crash or hang.",
  ["inputs", "schedules"], "all byte strings (over an alphabet with every separator, quote, escape and filler) times all ways to cut them into reads, including pieces and reads around the 6000 and 8192 byte limits",
  "The two unit tests read five short lines from one in-memory cursor that always returns everything in one read: no read boundary, no escape, no over-long line is ever exercised.",
  ["iterator/src/iterator.rs"],
  [("separator scan", "iterator/src/iterator.rs BytesLines::find_next_line"), ("buffer refill", "iterator/src/iterator.rs BytesLines::read_slice/get_slice"), ("long line drop", "iterator/src/iterator.rs BytesLines::drop_until_next_line")],
  [("buf", "unconsumed bytes", "BytesLines"), ("escaped", "previous byte was an active backslash", "BytesLines"), ("in_string", "inside a JSON string", "JsonState")],
  ["BytesLines::new(reader, split_json) as Iterator"])
p("C02", "Every piece carries the number of the physical line it comes from",
  "For every byte stream and every read pattern, each piece yielded by the line iterator is numbered 1 + the number of real newlines that precede it in the stream. "
  "Sub-lines (literal backslash-n), JSON separators, blank lines, escaped characters, dropped over-long lines and read boundaries never shift the numbers of that line or of any later one.",
  ["inputs", "schedules"], "all byte strings over the separator alphabet times all read patterns, plus over-long lines at the size limits",
  "Tests check numbers for two tiny inputs; a number that drifts after a blank line, an over-long line, a backslash at end of line or a read boundary is not visible there.",
  ["iterator/src/iterator.rs", "model/src/process.rs"],
  [("line counter", "iterator/src/iterator.rs BytesLines::update_line_counter")],
  [("line_count", "current physical line", "BytesLines"), ("state", "last separator seen", "BytesLines")],
  ["(Bytes, usize) items of the iterator"])
p("C03", "A failing read surfaces once, in place, and corrupts nothing",
  "If a read fails at any point of any stream, the iterator first yields every piece completed by the bytes received so far, then reports that error as an item (it is never turned into an end of input). "
  "If the caller keeps iterating and later reads succeed, the remaining pieces are exactly those of the uninterrupted stream, with the right line numbers: no bytes are lost, repeated or made up.",
  ["fault_sequences", "inputs"], "all positions and combinations of up to three failing reads of any error kind, in all streams of the alphabet including over-long lines being skipped",
  "No test uses a reader that fails.",
  ["iterator/src/iterator.rs"],
  [("error arm of the reads", "iterator/src/iterator.rs BytesLines::read_slice, drop_until_next_line")],
  (), ["items of the iterator over a fault-injecting reader"])
p("C04", "Reading a log needs constant memory and stack whatever its shape",
  "While lines are consumed and dropped one by one, the heap held by the line iterator stays under a fixed bound (256 KiB) and its stack use under a fixed bound (256 KiB), for streams of any length: one endless line, endless blank lines, endless sub-lines or JSON separators, or any repetition of these.",
  ["inputs", "schedules"], "all periodic streams built from short periods over the separator alphabet, long enough to expose growth, with several read sizes",
  "Tests feed at most 40 bytes.",
  ["iterator/src/iterator.rs"],
  [("buffer reclaim and length limit", "iterator/src/iterator.rs BytesLines::get_slice"), ("no recursion per line", "iterator/src/iterator.rs")],
  (), ["counting allocator and bounded thread stack around the iterator"])
# ---------------------------------------------------------------- tokenizer
p("C05", "Tokenizing is total, deterministic and blind to numbers",
  "Tokenizing any text line of up to 6000 bytes terminates without crashing and always gives the same result, whatever was tokenized before. "
  "The result contains no decimal digit of the line (only the fixed placeholder %BASE64 has digits), no tab or newline and no leading or trailing space, and it does not change when the decimal digits of the line are replaced one for one by other digits (except in the access-log line that is filtered as a literal text).",
  ["inputs", "histories"], "all short lines over an alphabet covering each character class the tokenizer distinguishes, all deep separator nestings up to the line limit, and all digit substitutions of them",
  "Unit tests are some sixty hand-picked lines; a crash on one character combination, a digit that leaks through one branch or a stack overflow on a deeply separated word needs the whole input space.",
  ["tokenizer/src/tokenizer.rs"],
  [("recursive word processing", "tokenizer/src/tokenizer.rs do_process"), ("number removal", "tokenizer/src/tokenizer.rs remove_numbers")],
  (), ["logreduce_tokenizer::process"])
p("C06", "Volatile values are masked wherever they appear in a line",
  "Two lines that differ only in the value of volatile fields of the same kind give the same tokens, in every position of the line and inside any surrounding quotes, brackets, commas or semicolons. "
  "Kinds: weekday and month names in any letter case, decimal numbers and timestamps, hexadecimal ids, MAC and IP addresses, UUIDs, URLs, hash/sha/md digests, request and cookie tokens, temporary paths, git refs and ranges, base64 blobs (over 24 characters or ending in ==), process ids in brackets, and the value (letters and digits, same length) after a key naming an id, key, ref, region, token, secret or password.",
  ["inputs"], "all pairs of values of each kind from an enumerated set, times all line templates, positions and wrappers up to two volatile fields per line",
  "Tests compare single pairs of lines; they do not vary position, wrapping or the value's shape.",
  ["tokenizer/src/tokenizer.rs"],
  [("literal recognizers", "tokenizer/src/tokenizer.rs parse_literal and is_*"), ("composite words", "tokenizer/src/tokenizer.rs do_process")],
  (), ["logreduce_tokenizer::process"])
p("C07", "Error words are never masked and always weigh more",
  "In every line that is not filtered as a whole, each standalone error word (error, fatal, failure, failed, warning, err, fail, warn, denied, assert, assertion, non-zero, exception, traceback, in any letter case) appears in the result as itself plus its four emphasised variants, whatever its position, its neighbours and the quotes, brackets, comma, semicolon or colon around it. "
  "Removing it or replacing it by another word always changes the tokens of the line.",
  ["inputs"], "all error words and letter-case patterns times positions, wrappers and neighbour words",
  "Tests cover five of the words, each in one line.",
  ["tokenizer/src/tokenizer.rs"],
  [("error words", "tokenizer/src/tokenizer.rs is_error, push_error, do_process order")],
  (), ["logreduce_tokenizer::process"])
p("C08", "The tokens of a line are the tokens of its words, in order",
  "For every line that is not filtered as a whole, the result is the concatenation, in order and separated by single spaces, of the results of its words taken alone; words that give nothing leave no trace. "
  "Surrounding white space and the amount or kind of blanks (spaces, tabs, literal backslash-n or backslash-r) between words have no effect. "
  "The lines filtered as a whole, to one fixed token, are those without white space and those matching a known noise pattern (GET / probe, yum mirror, ovs-ofctl or iptables dump, chrony, memcached, shell echo, key randomart); no other line is.",
  ["inputs", "histories"], "all lines of up to four words from a vocabulary with one word per tokenizer branch, times all separators between and around them",
  "Tests only use fixed lines; no test relates a line to its parts.",
  ["tokenizer/src/tokenizer.rs"],
  [("word split and accumulation", "tokenizer/src/tokenizer.rs words, process")],
  (), ["logreduce_tokenizer::process"])
# ---------------------------------------------------------------- index
p("C09", "Distance is the exact cosine distance to the nearest baseline line",
  "For every baseline and target, the distance returned for a target line is 1 - max over baseline lines of |A and B| / sqrt(|A|*|B|), where A and B are the sets of space separated words of the two lines, up to float rounding and rare hash collisions between words; it is 1 for an empty baseline and always lies in [0, 1]. "
  "In particular it is 0 for a line of the baseline, and word order and repetition do not matter. The line, matrix and chunked searches all return that number.",
  ["inputs"], "all baselines of up to three lines and all targets over a small vocabulary, all batch sizes",
  "Tests compare three hand computed distances.",
  ["index/src/index.rs"],
  [("hashing vectorizer", "index/src/index.rs vectorize"), ("similarity", "index/src/index.rs similarity, cosine_distance, cosine_distance_chunk"), ("normalisation", "index/src/index.rs create_mat")],
  (), ["index/search, index_mat/search_mat, search_mat_chunk"])
p("C10", "Searching does not depend on batching, chunking or storage of the index",
  "The distance of a target line is the same whichever other targets are searched with it and in which order, however the baseline lines are ordered, repeated or cut into chunks (including empty ones), and whether or not the index was saved and loaded in between. "
  "Adding baseline lines never increases a distance.",
  ["inputs", "histories"], "all permutations, partitions, repetitions and batchings of small baselines and targets",
  "Tests use a single chunk and one batch.",
  ["index/src/index.rs"],
  [("chunked product", "index/src/index.rs cosine_distance_chunk"), ("serialisation", "index/src/index.rs save_mat, load_mat")],
  (), ["search_mat, search_mat_chunk, save_mat, load_mat"])
# ---------------------------------------------------------------- process
p("C11", "Exactly the novel lines are reported, once, in order, with their position",
  "Inspecting a log against a trained index reports a line if and only if its tokens are further than 0.3 from every baseline line and no earlier line of the same group of logs had the same tokens; each report carries the exact text of the line, its line number and its distance, in file order. "
  "The outcome does not depend on how many lines are buffered or where internal batches start and end, for logs and baselines of any length; nothing after a line that starts the analysis task itself is inspected.",
  ["inputs", "histories"], "all sequences of known, novel and repeated lines around every internal batch boundary (512 distinct lines, thousands of repeated lines), all baselines sizes around the training batch size, all reader chunkings",
  "The only test inspects six lines with two anomalies; internal batches hold 512 distinct lines, so no test crosses a boundary.",
  ["model/src/process.rs", "model/src/model.rs"],
  [("batching", "model/src/process.rs ChunkProcessor::read_anomalies, do_search_anomalies"), ("training batches", "model/src/process.rs ChunkTrainer::add/complete")],
  [("buffer/targets", "raw lines and distinct token lines of the current batch", "ChunkProcessor"), ("skip_lines", "token lines already searched", "ChunkProcessor/ChunkTrainer")],
  ["ChunkProcessor iterator items"])
p("C12", "Context around an anomaly is the adjacent lines, never repeated or lost",
  "Each reported anomaly comes with the lines that directly follow it, up to three, stopping before the next reported anomaly or at the end of input, and the lines that directly precede it, up to three, not reaching back over the previous anomaly or the lines already given as its following context. "
  "So consecutive reports never share a line and never leave out an adjacent one, and this holds wherever internal batches start and end.",
  ["inputs", "histories"], "all placements of anomalies, known and repeated lines in a window around every internal batch boundary and around both ends of the log",
  "One test has contexts inside a single batch, another calls an internal helper.",
  ["model/src/process.rs"],
  [("context collection", "model/src/process.rs do_search_anomalies, collect_before, reset")],
  [("current_anomaly", "anomaly still collecting following lines", "ChunkProcessor"), ("left_overs", "last lines of the previous batch", "ChunkProcessor")],
  ["AnomalyContext before/after"])
p("C13", "Comparing anything with itself or a superset reports nothing",
  "Training on any set of readable logs and reporting on logs whose lines all occur in the training logs of the same group yields no anomaly and no error, for plain, JSON and compressed files, single files and directories, whatever the order, repetition or number of lines. "
  "Adding more baselines never creates new anomalies in logs that already have a baseline of their own name, even when an added baseline turns out to be damaged or unreadable.",
  ["inputs", "configurations"], "all small directory trees of log files built from an alphabet of line kinds, compared with themselves and with supersets, plus sizes around the training batch size",
  "No test trains and reports on real files at all.",
  ["model/src/model.rs", "model/src/process.rs", "model/src/reader.rs"],
  [("train/report symmetry", "model/src/model.rs Index::train, Model::train, Model::report")],
  (), ["Model::train, Model::report"])
# ---------------------------------------------------------------- report accounting
p("C14", "A report accounts for every log of the target, whatever fails",
  "For every model and target, each log of the target appears in exactly one way: it was inspected against the index of its group, or it is listed among the logs without baseline, or it is listed with its read error; a log that cannot be opened or decoded never hides another log, and anomalies found before a read error are kept. "
  "The totals equal the sums over the inspected logs, and every anomaly entry refers to a log and an index that the report describes.",
  ["configurations", "fault_sequences", "inputs"], "all assignments of a state (clean, anomalous, empty, undecodable, unreadable, missing, unknown group, gzip damaged) to the files of a small target tree",
  "No test builds a report.",
  ["model/src/model.rs", "cli/src/main.rs"],
  [("report loop", "model/src/model.rs Model::report"), ("index lookup", "model/src/model.rs lookup_or_single")],
  (), ["Model::report -> Report fields"])
p("C15", "Source discovery lists exactly the analysable files of a directory",
  "For every directory tree, the sources of a directory are exactly its regular files at any depth, each once, except symbolic links and the files excluded by the documented suffix and /etc/ rules; each source knows its path relative to the directory. "
  "No file name (empty extension, spaces, multi-byte or undecodable) makes discovery, grouping or display crash; an empty selection is an error, not an empty success.",
  ["inputs", "configurations"], "all small trees over an alphabet of file kinds, names, nestings and root spellings (trailing slash, dot segments)",
  "The only grouping test lists paths from a text file and never touches a file system.",
  ["model/src/files.rs", "model/src/model.rs"],
  [("walk and filter", "model/src/files.rs Source::dir_iter, keep_path; model/src/model.rs Source::is_valid"), ("relative name", "model/src/model.rs Source::get_relative")],
  (), ["Content::from_input, get_sources, Source::get_relative, group_sources"])
p("C16", "Rotated, dated, compressed or renamed runs of a log share one index",
  "The index name of a log does not change when digits, a numeric or dated rotation suffix, and/or a .gz suffix are added to its file name, when its 7 character hexadecimal build directory or numeric directory changes, or when the instance, pod or volume id of a qemu, pod, k8s_ or pvc- log changes. "
  "Logs whose alphabetic file or directory names differ keep distinct index names; grouping puts every source in exactly the group of its name.",
  ["inputs"], "all combinations of directory prefixes, base names, rotation suffixes and compression suffixes from enumerated sets",
  "Tests list a few dozen fixed paths.",
  ["model/src/files.rs", "model/src/model.rs"],
  [("name normalisation", "model/src/files.rs IndexName::from_path"), ("grouping", "model/src/model.rs Content::group_sources")],
  (), ["IndexName::from_path, Content::group_sources"])
p("C17", "A gzip compressed log is analysed exactly like its plain version",
  "For every log content and compression level, a local file named with a .gz suffix yields the same lines, the same training and the same anomalies with the same positions as the uncompressed file; any other file is read byte for byte. "
  "A truncated or damaged gzip file is reported as a read error of that log and never silently analysed as if it ended early.",
  ["inputs", "fault_sequences"], "all contents of the line alphabet and sizes around the read limits, all compression levels, all truncation points of the compressed file",
  "No test opens a compressed file.",
  ["model/src/reader.rs", "model/src/files.rs"],
  [("decompressing reader", "model/src/reader.rs from_path, DecompressReader::read")],
  (), ["Source::file_open, Model::train, Model::report"])
p("C18", "A saved model or report loads back equal and behaves the same",
  "For every model and every report, saving and loading gives back an equal value: same baselines, index names, sources, counters and times, and a loaded model produces for every target the same anomalies, distances and errors as the original. "
  "Saving a loaded model again changes nothing, in any sequence of saves, loads and overwrites of longer files by shorter ones.",
  ["inputs", "histories"], "all models trained from small trees (zero to several indexes, one to several chunks) and all save/load sequences up to depth four over two paths",
  "No test saves or loads a model or a report.",
  ["model/src/model.rs"],
  [("serialisation", "model/src/model.rs Model::save/load, Report::save/load")],
  (), ["Model::save/load, Report::save/load"])
p("C19", "Saving never acknowledges a bad file; a damaged file never loads as valid",
  "If any file operation of saving a model or a report fails or is short (disk full, I/O error at any point), saving returns an error; when it returns success the file loads back equal. "
  "After a crash at any point of saving, loading the file either fails cleanly or yields the complete value: never a different one, never a crash. The same holds for a file with a changed, lost or zeroed byte or block.",
  ["fault_sequences", "crash_points"], "a failure injected at every write operation of a save, in every mode (error, disk full, short then error), every prefix of the file as a crash image, and every byte changed or lost",
  "No test injects a fault or loads a partial file.",
  ["model/src/model.rs"],
  [("error propagation of the compressor", "model/src/model.rs Model::save, Report::save"), ("decode errors", "model/src/model.rs Model::load, Report::load")],
  (), ["Model::save/load, Report::save/load under libc interposition"])
# ---------------------------------------------------------------- cache
p("C20", "A cache hit returns the complete content that was fetched, or nothing",
  "Once a remote file has been read through the cache to its end, later lookups return exactly those bytes; if the transfer failed, was abandoned part way, could not be written completely, or the process died at any point, later lookups find no entry (or fail with an error) but never serve a shortened or altered content as the file. "
  "The same holds for cached directory listings and existence answers. While passing through the cache, the reader sees exactly the remote bytes and errors.",
  ["crash_points", "fault_sequences", "histories"], "all contents and read patterns of small remote objects, failure or abandonment after every read, injected failure of every file operation, and a crash before and after every file operation (with torn writes)",
  "Tests add one complete entry and read it back.",
  ["cache/src/cache.rs", "model/src/reader.rs"],
  [("write-through reader", "cache/src/cache.rs CacheReader::read"), ("entry creation", "cache/src/cache.rs Cache::create")],
  [("cache file", "presence means complete", "user cache directory")],
  ["Cache::remote_add/remote_get, httpdir_add/httpdir_get, head_set/head under libc interposition"])
p("C21", "Cache entries are isolated: each lookup sees only its own key and kind",
  "For every sequence of additions, lookups and removals of remote files, directory listings and existence answers, each lookup returns what the last successful addition for the same kind and same urls stored, unless removed since; operations on another url, another base or another kind never create, change or remove it. "
  "Adding over an existing entry fails and leaves it unchanged; removing an absent entry succeeds and does nothing.",
  ["histories", "inputs"], "all operation sequences up to depth five over two bases, two paths and the three kinds, against a map",
  "Two tests do drop, add, get on one key each.",
  ["cache/src/cache.rs"],
  [("file naming", "cache/src/cache.rs filename"), ("existence check", "cache/src/cache.rs Cache::get/create")],
  (), ["public methods of Cache"])
# ---------------------------------------------------------------- crawler
p("C22", "Crawling gives the same complete answer under every thread schedule",
  "For every site and every interleaving of the crawler's workers, its consumer and the server's answers, listing returns after all work is done with every file found, each page's files exactly once per link, and iterating the crawl yields the same files before it ends; neither deadlocks, loses a result, ends early nor runs forever. "
  "If pages fail, both report an error, and iterating still yields all the files of the other pages. A crawler whose listing ended, failed or not, gives the same answers when used again, and listings made on it at the same time do not disturb each other.",
  ["schedules"], "all thread interleavings of the real crawler and its thread pool up to a preemption bound, over small sites with several levels and failing pages",
  "The crawler's only test runs two pages on the free-running scheduler and is itself flaky.",
  ["httpdir/src/httpdir.rs"],
  [("termination detection", "httpdir/src/httpdir.rs Crawler::start, list, walk"), ("work fan-out", "httpdir/src/httpdir.rs Crawler::process")],
  [("channel", "results of the workers", "Crawler::start"), ("pool", "queued and active jobs", "Crawler.workers")],
  ["Crawler::list, Crawler::walk"])
p("C23", "The crawler visits exactly the pages below the start and lists their files",
  "For every finite set of index pages and every shape of links between them (relative, absolute, parent, self, index.html, query-only, escaped ampersands or unrelated markup), the crawler returns exactly the linked files of the start page and of every directory reachable by links whose path is strictly longer than that of the page that links them, skipping /etc/ directories; so cycles and parent links never loop. A link is <a href=\"X\"> where X begins with a letter, a digit or a slash; X ending with a slash or /index.html is a directory, anything else a file; each link counts, so what is linked twice is listed twice. "
  "A page that cannot be fetched, or is answered with an error status, makes the listing an error, and a crawler can be reused: each listing is independent of earlier ones, failed or not.",
  ["inputs", "histories", "fault_sequences"], "all link graphs over a small set of pages and link spellings, all sets of failing pages, all sequences of three listings on one crawler, ladders of numbers of files, directories, levels and name lengths",
  "One test has one fixed two-page site.",
  ["httpdir/src/httpdir.rs"],
  [("link extraction", "httpdir/src/httpdir.rs parse_index_of, path_dir"), ("loop prevention", "httpdir/src/httpdir.rs Visitor::visit")],
  (), ["Crawler::list, Crawler::walk against a scripted site"])
# ---------------------------------------------------------------- zuul
p("C24", "Zuul answers decode faithfully; a bad entry never hides the good ones",
  "For every list of build records, decoding returns, in order, exactly the entries that are valid on their own, with every field equal to the record; missing or null optional fields, unknown extra fields and integer or fractional durations are accepted. "
  "A malformed document (not JSON, truncated anywhere, not a list) is an error, and encoding then decoding a build gives it back.",
  ["inputs", "fault_sequences"], "all lists of up to four entries from a menu of valid and damaged records, every field removed, nulled or mistyped, every truncation of the document",
  "One test decodes one complete build.",
  ["zuul/src/zuul-build.rs"],
  [("tolerant list decoding", "zuul/src/zuul-build.rs decode_builds"), ("date and duration formats", "zuul/src/zuul-build.rs python_utc_without_trailing_z, rounded_float")],
  (), ["zuul_build::decode_build, decode_builds, Serialize"])
p("C25", "Zuul baseline discovery picks the best usable build, never the target",
  "For every list of successful builds, the baseline chosen for a target build is one with the highest score among the builds that differ from the target, have a log url, a ref url and a change, and whose logs are available; the score adds 50 for the same project with another change (-500 for the same change), 50 for the same branch, 50 for a gate or periodic pipeline, 10 for a voting build, and loses 1 per day of age. "
  "If there is none, discovery is an error; no combination of missing fields, unreachable logs or malformed entries crashes it.",
  ["inputs", "configurations", "fault_sequences"], "all lists of up to three candidate builds over the attributes that matter and all availability outcomes, served by a scripted API",
  "One test decodes a build url; selection is never run.",
  ["model/src/zuul.rs", "model/src/model.rs"],
  [("scoring and selection", "model/src/zuul.rs Build::baseline_score, discover_baselines, logs_available"), ("conversion", "model/src/zuul.rs new_content")],
  (), ["Content::discover_baselines against a scripted server"])
p("C26", "User inputs resolve to the right kind of content and never crash",
  "An input beginning with http:// or https:// is a url and anything else is a path, even if its name starts with those letters. A url whose path ends in build/<32 alphanumeric id>, with or without a /t/<tenant>/ part, resolves to the Zuul API of that site and tenant; other urls are a directory if they end with a slash and a file otherwise; a path is a file or directory if it exists. "
  "Anything else is reported as an error, never a crash.",
  ["inputs"], "all combinations of schemes, hosts, prefixes, tenant parts, segments around build/<id>, id lengths and characters, trailing slashes, and file names that look like urls",
  "Tests check two Zuul urls.",
  ["model/src/model.rs", "model/src/urls.rs", "model/src/zuul.rs", "model/src/files.rs"],
  [("input dispatch", "model/src/model.rs Input::from_string, Content::from_input"), ("zuul url", "model/src/zuul.rs get_zuul_api_url, is_uid")],
  (), ["Input::from_string, Content::from_input against a scripted server"])
# ---------------------------------------------------------------- report
p("C27", "The HTML report shows every anomaly faithfully and is never altered by data",
  "For every report, rendering succeeds and the page shows, for each log in order, its name, its number of anomalies and each anomaly with its score and its context lines, in order, numbered consecutively around the anomaly's line, with their exact text; lines left out between two anomalies are marked. It names the target and the baselines. "
  "No log text, file name, url or build attribute can add, remove or change markup: the structure of the page depends only on the number of logs, anomalies and context lines and on where lines are left out.",
  ["inputs"], "all short texts over an alphabet with every markup-significant character in every text field, and all small report shapes including contexts longer than the line number",
  "No test renders a report.",
  ["report/src/report.rs"],
  [("rendering", "report/src/report.rs render_content_report, render_lines, table")],
  (), ["logreduce_report::render"])
# ---------------------------------------------------------------- cli
p("C28", "The command line shows the library's results and reuses models soundly",
  "For every baseline and target, the diff, path, url and model-based commands, run quietly, on a terminal or with tracing on, print exactly the anomalies that inspecting each log against the trained model gives, with their context, positions and scores, and report logs without baseline or with read errors without hiding the others; on a terminal the run ends with the count of lines and anomalies. With --report the page holds those of the library's report instead, which is also saved beside it when LOGREDUCE_CACHE is set. "
  "With a model file, the first run trains and saves, later runs load it and give the same output even if the baselines changed; giving both baselines and an existing model, or a missing or damaged file, is an error with a non-zero exit and leaves the existing files unchanged.",
  ["histories", "inputs", "configurations"], "all sequences of commands up to depth three over small sets of files and a model file, against a reference of the expected files and outputs",
  "No test runs the command line program.",
  ["cli/src/main.rs", "model/src/model.rs"],
  [("command dispatch", "cli/src/main.rs Cli::run, process"), ("live output", "cli/src/main.rs process_live")],
  (), ["stdout, exit status and files of the logreduce-cli program"])
p("C29", "Dataset evaluation passes exactly when the anomalies match the annotation",
  "For every dataset, the evaluation succeeds if and only if inspecting the .fail log against the .good log gives as many anomalies as annotated and each annotated line, in order and surrounding blanks aside, is contained in the corresponding anomaly line. "
  "A missing or malformed annotation or log is an error.",
  ["inputs"], "all small datasets: sequences of known and novel lines times all annotation lists (exact, shortened, permuted, missing, extra)",
  "No test evaluates a dataset.",
  ["cli/src/dataset.rs"],
  [("comparison", "cli/src/dataset.rs process, assert_anomaly_includes")],
  (), ["exit status of the test command"])
p("C30", "The Python module computes the same results as the Rust library",
  "For every line, baseline list and target list, the functions of the Python module (tokenize, index and search by line, index and search by matrix, save and load of a matrix, generate) return the same values as the Rust functions, for any sequence of calls and any number of live models. A call with something that is not the right kind of model, or with bytes that are not a saved matrix, raises an exception: never a crash.",
  ["inputs", "histories"], "all small lines and lists, and all call sequences up to depth four over two live models",
  "The bindings have no test.",
  ["python/src/bindings.rs"],
  [("wrappers", "python/src/bindings.rs")],
  (), ["logreduce_rust Python extension"])
p("C31", "Logs behind a url are analysed exactly like local copies, cached or not",
  "For every site, analysing a url (file, directory or build) against url baselines finds the same sources, groups, anomalies and positions as analysing local copies of the same files, for urls of any length or host, compressed files included, with the cache off, cold or warm; a warm cache gives the same result without contacting the server for what it holds. "
  "A failing transfer (broken off, or answered with an error status) is reported as a read error of that log and is fetched again by the next run.",
  ["inputs", "histories", "fault_sequences"], "all small sites over file contents, url lengths and link shapes, sequences of runs with the cache off, cold and warm, and a failed transfer at each file and each byte position class",
  "One mock-server test fetches a single API document.",
  ["model/src/urls.rs", "model/src/reader.rs", "model/src/model.rs"],
  [("url reader", "model/src/urls.rs Source::url_open, httpdir_iter; model/src/reader.rs from_url")],
  (), ["Model::train/report on remote Content, requests seen by a scripted server"])
p("C32", "The debug commands show exactly what the analysis computes",
  "For every text, debug-tokenizer prints the tokens and debug-indexname the index name that the analysis uses for it; for every file (plain, JSON or compressed, a damaged one included) debug-iterator prints one line per piece, in order, with its line number and its text; debug-groups prints, ordered by name, every group with exactly its sources. "
  "A missing file or an empty selection is an error with a non-zero exit, and undecodable text never stops or crashes them.",
  ["inputs"], "all short texts over the token-significant pieces, all short file contents in five kinds of files, all sets of nine names",
  "No test runs the command line program.",
  ["cli/src/main.rs"],
  [("debug handlers", "cli/src/main.rs Cli::run, debug_groups")],
  (), ["stdout and exit status of the debug commands"])
if __name__ == "__main__":
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(here, "properties.jsonl"), "w") as f:
        for x in P: f.write(json.dumps(x) + "\n")
    print(len(P), "properties")
