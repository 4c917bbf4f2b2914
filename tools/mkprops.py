import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})
Q="src/dnl/queuemgt.cpp"; R="src/dnl/requests.cpp"; F="include/flat_file.hpp"; S="src/srv/server.cpp"; D="app/hibp_download.cpp"
p("C01","A successful download is complete, exact and in order",
"Whenever hibp-download exits with success, its output holds every record of every requested range file exactly once, in ascending range order and in each file's own order, with exact hash and count, in the chosen format (sha1, ntlm, sha1t64 or text). This holds whatever order the replies complete in, however their bytes are fragmented, however the two threads are scheduled, and whatever failed transfers had to be retried on the way.",
["schedules","fault_sequences","inputs","configurations"],
"every interleaving of the requests and writer threads, every order and fragmentation of replies, every survivable network fault sequence, every data set, limit, parallelism and output format",
"The system tests download 256 ranges once from a well-behaved local server and compare; one schedule, in-order whole replies, no faults, parallelism 300.",
[Q,R,D,"include/hibp.hpp",F],
[("reordering priority queue, only the next index is written","service_queue in "+Q),("whole-buffer hand over of completed transfers","process_curl_done_msg in "+R),("line splitting, CR stripping, prefixing","write_lines in "+Q)],
[("process_queue","completed ranges waiting for an earlier one",Q),("download_slots","ranges in flight",R)],
["bytes of the output file after exit status 0"])
p("C02","Failed range transfers are retried and leave no trace",
"A range transfer that fails for any reason (refused or reset connection, empty or truncated reply, stall, or any HTTP status other than 200) is tried again: up to five failures of the same range are absorbed and the download still succeeds, and no range is ever attempted more than six times. No byte received by a failed attempt ever appears in the output.",
["fault_sequences","schedules"],
"every assignment of up to five transient failures of any kind to every range, at any point of the transfer, under every schedule",
"No test injects a transfer failure; the retry path is never executed by the suite.",
[R,"include/dnl/shared.hpp"],
[("retries_left and buffer.clear()","process_curl_done_msg in "+R),("result and response code check","process_curl_done_msg in "+R)],
[("retries_left","remaining retries of one range","include/dnl/shared.hpp")],
["requests seen by the origin server, exit status, output bytes"])
p("C03","A permanent network failure ends the download cleanly",
"If some range cannot be fetched within its permitted attempts, hibp-download stops on its own within a bounded time, reports the error and exits with a non-zero status; it never crashes, hangs or reports success. What it leaves in the output file is an exact, record-aligned prefix of the correct output that contains nothing from or after the range that failed.",
["fault_sequences","schedules"],
"every range and every kind of permanent failure, at every point of the download and under every schedule of the two threads",
"The abort path (exception through the event loop, stop tokens, clean up of transfers in flight) is not executed by any test.",
[R,Q,D],
[("exception hand over and stop tokens between the threads","run in "+Q),("transfer clean up","curl_and_event_cleanup in "+R)],
None,["exit status and how the process ended, simulated time, output bytes"])
p("C04","A download never reports success over a failed write",
"If opening, writing, flushing or closing the output file fails at any point (full disk, I/O error, short write), hibp-download exits with a non-zero status and an error message, without crashing or hanging, in every output format; it exits with success only if all of the output reached the file. What is in the file is then a prefix of the correct output.",
["fault_sequences","schedules","configurations"],
"every write, flush, open and close of the output file as the failing one, every output format, every schedule",
"The tests run on a disk that never fails.",
[F,Q,D,"include/dnl/queuemgt.hpp"],
[("stream exceptions","stream_writer in "+F),("exception hand over between the threads","run in "+Q)],
None,["exit status and how the process ended, stderr, output bytes"])
p("C05","Interrupt and resume always lead to the same file",
"However hibp-download is interrupted - killed at any instant, or ended by a network or disk error - repeating it with --resume, each time possibly interrupted again, and until it succeeds, gives a file identical to that of an uninterrupted download. At every moment in between, the file, apart from at most one incomplete last record, is an exact prefix of that result, so a failed resume never loses its ability to be resumed.",
["crash_points","fault_sequences","histories","schedules"],
"every crash instant including inside a write, every sequence of interrupted resumes, every network and disk fault during a resume, data sets of any size, all binary formats, starting anywhere in the range space",
"The test suite has no test of --resume at all.",
["src/dnl/resume.cpp",D,Q],
[("tail trimming, comparison with the last range file, backward search and truncation","get_last_prefix in src/dnl/resume.cpp"),("append mode","main in "+D)],
[("output file","the only state that survives a crash","the file named on the command line")],
["durable bytes of the output file after every crash or exit"])
p("C06","A stalled transfer cannot hang the download",
"A range transfer, or the range fetched to find the resume point, on which the server stops sending (before, between or inside the headers and body) is abandoned after a bounded silence and retried or reported. Hence, once faults stop, every download ends within a bounded time, and with a server that never answers it ends with an error rather than waiting for ever.",
["fault_sequences","schedules"],
"every set of stalled transfers, every stall point in a reply, permanent and temporary stalls, under every schedule",
"Needs simulated time and a misbehaving server; no test has a stall.",
[R,"src/dnl/resume.cpp"],
[("CURLOPT_LOW_SPEED_TIME / LOW_SPEED_LIMIT","add_download in "+R),("timer wiring between libcurl and libevent","start_timeout_curl_cb in "+R)],
None,["simulated time from last fault to exit"])
p("C07","The downloader's threads never race, deadlock or lose a wake-up",
"The threads of hibp-download never access shared data without synchronisation, never deadlock and never lose a wake-up, under any schedule, on the normal path, on every error path and with debug logging or the progress meter on. In particular it always terminates, and its diagnostics never corrupt its state.",
["schedules","fault_sequences","configurations"],
"every interleaving of the threads at synchronisation points and at shared memory accesses, combined with network and disk failures that take the abort paths",
"Tests run one uncontrolled schedule on the success path without debug logging.",
[Q,R,"include/dnl/shared.hpp","src/dnl/shared.cpp"],
[("message queue mutex and condition variable","service_queue, enqueue_downloads_for_writing, finished_downloads in "+Q),("stop tokens","run in "+Q),("cerr_mutex","include/dnl/shared.hpp")],
[("msg_queue, finished_dls","hand over between the threads",Q),("thrnames","thread labels for the log","src/dnl/shared.cpp")],
["happens-before race detector, blocked-thread detection, exit"])
p("C08","Only the requested ranges, within the parallelism bound",
"At no time does hibp-download have more range requests outstanding than --parallel-max allows, and it keeps that many going while ranges remain. It requests exactly the ranges from its start (the resume point or zero) up to --limit, written as five upper-case hex digits, from the endpoint of the chosen hash type, whose identity is verified if it is the public one, and does not request again a range that it already received.",
["schedules","configurations","fault_sequences"],
"every parallelism from 1 to 300, every limit and resume point, every completion order, with and without failing transfers",
"The tests use one limit and the default parallelism and never look at the requests the server sees.",
[R,"include/hibp.hpp",D],
[("download_slots bound and next_index","fill_download_queue in "+R),("url building","url in include/hibp.hpp")],
[("next_index","next range to request",R)],
["requests seen by the origin server, with their simulated times"])
p("C09","An existing file is never overwritten without --force",
"If the output file named to hibp-download, hibp-convert or hibp-topn already exists and --force (or, for downloads, --resume) is not given, the command fails with a non-zero status and leaves the file byte for byte as it was, also when looking at the file fails. An option combination that the tool rejects likewise leaves every existing file untouched.",
["inputs","configurations","fault_sequences"],
"every tool and mode, every kind of existing file, every option combination, failures of the calls that look at the file",
"No test invokes a tool on an existing output without --force.",
[D,"app/hibp_convert.cpp","app/hibp_topn.cpp"],
[("exists() check before opening","check_options in "+D+", get_output_stream in app/hibp_convert.cpp and app/hibp_topn.cpp")],
None,["the existing file's bytes, exit status"])
p("C10","A search answers correctly or reports an error",
"hibp-search answers 'found' with the stored hash and count exactly when the (sorted) database contains the queried hash, and 'not found' exactly when it does not, for every database format, with or without a table of contents, by password (of any length, ASCII or UTF-8) or by hash; for something that is not a hash it gives no answer and fails. If reading fails it exits non-zero instead of giving an answer, whatever error, short read or interruption the disk produces and whenever it does.",
["fault_sequences","inputs","configurations"],
"every read of the search as the failing, short or interrupted one, every database size and query position, every format",
"Tests search one database on a disk that never fails.",
["app/hibp_search.cpp",F,"src/toc.cpp"],
[("buffered random access","database::get_record in "+F),("lower_bound","app/hibp_search.cpp")],
[("buf_start_, buf_end_","which records the buffer holds",F)],
["stdout and exit status"])
p("C11","A table of contents never changes an answer",
"Searching with a table of contents always gives the same answer as searching without one, or an error, whatever happened before: runs killed while building or saving it, disk errors and full disks while saving or loading it, and replacements of the database, by one written later, since it was built. A table of contents that is outdated, incomplete, truncated or lost its tail never makes a search answer differently. (A database replaced by a file with an older modification time, or while the search is running: C25.)",
["crash_points","fault_sequences","histories"],
"every history of searches with differing table sizes, crashes at every instant, disk faults at every call, and database replacements, under a clock that does not go backwards",
"Tests build one table once on a healthy disk; no crash, no fault, no history.",
["src/toc.cpp","app/hibp_search.cpp"],
[("modification time comparison, build, save, load","toc_build in src/toc.cpp")],
[("the .toc file","durable table of positions, keyed by database name and bits","next to the database")],
["stdout and exit status of every search in the history"])
p("C12","A disk sort is a sorted permutation and never damages its input",
"When hibp-sort succeeds, the .sorted file is a permutation of the input's records in the requested order (by hash, or by count descending then hash), no temporary chunk file is left, and the input file is unchanged, for every number of chunks. When it fails or is killed at any instant, the input is still unchanged, success is not reported, and running it again gives the correct result.",
["crash_points","fault_sequences","inputs"],
"every input, memory limit and number of chunks, every read, write, open, rename, remove or close as the failing one, every crash instant, leftover files of earlier runs",
"No system test runs hibp-sort with more than one chunk, with a fault or a crash.",
[F,"app/hibp_sort.cpp"],
[("chunking, k-way merge, rename, removal of the chunks","disksort_range and merge_sorted_chunks in "+F)],
[("chunk files","sorted partial data on disk",F)],
["files and exit status"])
p("C13","Top-N keeps exactly the N most common records",
"When hibp-topn succeeds, its output (file or standard output) holds exactly the N records with the highest counts, ties decided by the smaller hash, in ascending hash order and nothing else. If reading the input or writing the output fails at any point, it exits non-zero without crashing, and the input is never changed.",
["fault_sequences","inputs","configurations"],
"every input, N, format and destination, every read, write, flush or close as the failing, short or interrupted one",
"Tests run one N on one database, to a file, without faults.",
["app/hibp_topn.cpp",F],
[("partial_sort_copy and sort","build_topn in app/hibp_topn.cpp"),("buffered writer","stream_writer in "+F)],
None,["output bytes and exit status"])
p("C14","Conversion is lossless or fails",
"When hibp-convert succeeds, every input record up to --limit is in the output exactly once, in order and with exact hash and count, from file or standard input to file or standard output; converting there and back reproduces the original. If reading, writing, flushing or closing fails at any point, it exits non-zero without crashing instead of leaving out records silently.",
["fault_sequences","inputs","configurations"],
"every input size, format, limit and source/destination, every read, write, flush or close as the failing, short or interrupted one",
"No test runs hibp-convert under faults; an error at end of input looks like its end.",
["app/hibp_convert.cpp",F],
[("line reader and buffered writer","txt_to_bin, bin_to_txt in app/hibp_convert.cpp")],
None,["output bytes and exit status"])
p("C15","Diff and duplicate reports are complete or fail",
"hibp-diff exits with success only if its report, applied to the old database, gives exactly the new one, and exits non-zero when the new database lost records; hibp-dupes lists exactly the records that share their leading bits with the record before them. If a read, or a write of the report, fails at any point, they exit non-zero instead of giving a shortened report.",
["fault_sequences","inputs"],
"every pair of databases, every read or write as the failing, short or interrupted one, differences on both sides of every buffer boundary",
"Unit tests use databases of a few records, all inside one read buffer, on a healthy disk.",
["src/diffutils.cpp","app/hibp_diff.cpp","app/hibp_dupes.cpp",F],
[("mismatch loop over two buffered databases","run_diff in src/diffutils.cpp"),("adjacent comparison","run_search in app/hibp_dupes.cpp")],
None,["stdout and exit status"])
p("C16","The server answers every concurrent request correctly",
"Every response of hibp-server to a well-formed check request carries the count stored in the database of the requested format, or -1 if the hash is absent, however many clients, connections and worker threads are active and however their requests and replies are fragmented, pipelined (up to eight deep) and interleaved, and whichever characters of a password are percent-encoded. Requests for an unknown format, a missing database or a malformed hash get a 4xx status and never a count.",
["schedules","inputs","configurations"],
"every interleaving of worker threads and connections, thread counts, databases loaded, with and without a table of contents, text and json replies",
"System tests send single sequential requests with curl; no concurrency is exercised.",
[S,"app/hibp_server.cpp",F],
[("thread-local databases with their own buffers","get_router in "+S)],
[("thread_local databases","per-thread read buffer and stream",S)],
["every response on every connection"])
p("C17","The server outlives disk and client faults",
"A disk error, a failed open or an aborting, stalling or garbage-sending client may cost hibp-server the requests it hits (an error status or a closed connection), but never a wrong count, a crash or a hang. Once the faults stop, every further well-formed request on a new connection is answered correctly within a bounded time.",
["fault_sequences","schedules"],
"every sequence of transient read errors, short reads, failed opens and client aborts, at every point of serving, under every schedule",
"No test injects a fault into a running server.",
[S,F],
[("exception to 500 mapping","get_router in "+S),("buffered random access","database::get_record in "+F)],
[("stream state and buffer window of each thread's database","survive from request to request",F)],
["every response during and after the faults"])
p("C18","Tools modify nothing but their own outputs",
"No hibp tool ever creates, changes, truncates, renames or removes a file other than its designated outputs: the named output file, the .sorted file and its .partial chunks beside the input, and the .toc table beside the database. This holds on success, on failure and at every crash point, and a database given as input is never changed.",
["fault_sequences","crash_points","configurations"],
"every tool and option combination, every failing call, every crash instant",
"Tests look only at the output they expect, never at the rest of the directory.",
[F,"src/toc.cpp","src/dnl/resume.cpp","app/hibp_convert.cpp","app/hibp_topn.cpp",D],
[("output names derived from the arguments","disksort_range in "+F+", toc_build in src/toc.cpp")],
None,["every mutating file system call, and the directory afterwards"])
p("C19","Running out of memory, threads or descriptors never yields a wrong result",
"If any allocation, thread creation or descriptor is refused to a hibp tool at any moment, the tool either still gives exactly the result it gives otherwise, or it fails visibly (non-zero exit status or an uncaught exception). It never reports success over missing or wrong records, never answers a query or a request wrongly, never waits for ever, never changes its inputs, and what a failed download leaves is still a prefix of the correct output.",
["fault_sequences","schedules","configurations"],
"every refused allocation, thread and descriptor, single refusals, short bursts and refusals that last, in every tool, under every schedule",
"No test can refuse a chosen allocation; the suite always has enough memory.",
[F,Q,R,"src/toc.cpp",S,"app/hibp_convert.cpp","app/hibp_search.cpp"],
[("range splitting on a string stream, where a failed allocation looks like the end of the data","write_lines in "+Q),("stream reads through getline","app/hibp_convert.cpp"),("buffers of database, writer and chunks",F)],
None,["exit status and how the process ended, outputs, answers, inputs"])
p("C20","What an interrupted tool leaves is read for what it is, or refused",
"A database being produced by hibp-download, hibp-convert, hibp-topn or hibp-sort is at every moment, wherever the producer is killed or fails, a prefix of the finished one (also when it replaces an older file). Every other tool given such a file (search with or without a table of contents, topn, sort, convert, diff, dupes, server) either fails visibly or gives exactly the result for the complete records in it, and never changes it. Once the producer has been run again and succeeded, every tool gives the result for the whole database, whatever tables or leftovers of the time before lie around.",
["crash_points","fault_sequences","histories"],
"every producer, every instant of killing or failing it, every reader, every sequence of interrupted producers and readers (themselves possibly interrupted)",
"Tests run every tool once on complete, correct files; no test chains tools, interrupts one or hands over an unfinished file.",
[F,"src/toc.cpp","app/hibp_convert.cpp","app/hibp_topn.cpp","app/hibp_sort.cpp",Q,S],
[("size check against the record size","database constructor in "+F),("sequential buffered writer","stream_writer, file_writer in "+F),("age of the table of contents","toc_build in src/toc.cpp"),("database check at start","prep_databases in app/hibp_server.cpp")],
[("the output file while it grows","a prefix of the result",F)],
["the produced file after every step, exit status and output of every reader"])
p("C21","Updates of the data on the server never mix versions within a range",
"If the data on the server change (to newer versions, which hold more records and other counts) while a download runs, or between an interrupted download and its resumption, then a download that exits 0 leaves a file made of every range of its window in order, each of them exactly as in one of the versions that were served while it was downloaded, and what a failed or killed run leaves are whole ranges plus at most a prefix of one. A resume that cannot find where the file ends in the current data fails visibly, and a fresh download then succeeds.",
["histories","crash_points","fault_sequences","schedules"],
"every number and content of updates, every instant of an update relative to requests, replies, kills and resumptions",
"Tests download from a real server whose data do not change while they run; none interrupts and resumes across an update.",
[D,"src/dnl/resume.cpp",R,Q],
[("finding the point to resume at and what the file lacks of its range","src/dnl/resume.cpp"),("a restarted transfer discards what it had",R)],
[("the output file and the range being resumed","whole ranges of one version each, plus a prefix of one",Q)],
["the output file after every incarnation, compared range by range with all versions served; exit status"])
p("C22","Processes that share a database never leave a misleading table of contents",
"When several searches or servers with --toc use a database at the same time, in any interleaving of their file operations and also when some of them are killed at any point, every one that finishes answers correctly and succeeds. When the database is replaced by a newer one (a new file moved over it, or overwritten in place) while a search or a server builds, saves or loads a table, every search begun after the replacement answers correctly for the new database, for ever.",
["schedules","crash_points","histories"],
"every interleaving of the file operations of two processes, every instant of a replacement or kill, every time stamp granule these fall into, every later sequence of searches",
"Tests run one process at a time and never replace a database during a search; the races are a few file operations wide.",
["src/toc.cpp","app/hibp_search.cpp",S,F],
[("age of the table compared with the database","toc_build in src/toc.cpp"),("table written elsewhere and then renamed","save in src/toc.cpp"),("plausibility of a loaded table","load in src/toc.cpp")],
[("<db>.<bits>.toc","describes the database unless not newer than it","src/toc.cpp")],
["answers and exit status of all searches and servers, against the database they were started on"])
p("C23","Memory and descriptors do not grow with the database or with the work done",
"hibp-convert, hibp-diff, hibp-dupes, and hibp-search while it builds a table of contents, hold a small part of the database at a time (a few megabytes at most), hibp-topn the N records it selects, and hibp-sort about two to three times --max-memory. hibp-download and hibp-server give back what every range, retry, request and connection took: the memory and the descriptors they hold do not grow with the number of ranges downloaded or of requests and connections served, also when transfers fail and clients misbehave.",
["inputs","schedules","fault_sequences","histories"],
"every size of the database, every number of ranges, retries, requests and connections, every kind of failed transfer or misbehaving client between them",
"Tests handle a few records, ranges or requests, and never look at what is held; a leak or a loaded database only hurts at the real size.",
[F,R,D,S,"app/hibp_topn.cpp","app/hibp_sort.cpp"],
[("buffer of database, chunks of disksort",F),("release of finished ranges and their curl handles","process_curl_done_msg in "+R),("selection of N records","app/hibp_topn.cpp")],
None,
["bytes and descriptors held by the process: at most, and at its leanest in each eighth of the work"])
p("C24","A search reads little of the database, and a table of contents is built once",
"A search of n records makes a number of reads that grows with the logarithm of n only, whatever is asked. With a table of contents of b bits it makes accordingly fewer. Once a search with --toc succeeded on a healthy disk, whatever happened to runs before it, later searches with as many bits load the table instead of building it again, for as long as the database does not change.",
["inputs","histories","crash_points","fault_sequences"],
"every database of up to billions of records, every hash asked for, every history of killed and failed runs before the table was built",
"Tests search databases of a few pages, where reading all of it is as fast, and cannot tell a table that was loaded from one that was built again.",
["src/toc.cpp","app/hibp_search.cpp",F],
[("binary search","std::lower_bound over "+F),("begin and end of the chapter","search in src/toc.cpp"),("age of the table compared with the database","toc_build in src/toc.cpp")],
[("<db>.<bits>.toc","a table that was built stays and is used","src/toc.cpp")],
["number and size of the reads of the database, writes to any other file"])
p("C25","A database replaced while it is searched or served never gives a wrong answer",
"When a complete new database is moved over the old one while hibp-search or hibp-server starts or runs, with or without --toc and whatever the dates of the two files, every count that is reported is right for a database that was in place between the start and the answer, and absence is only reported if one of these lacks the password. A search which nobody disturbs answers correctly for the database in place, and the server answers every request, whatever was replaced before and whatever a table of contents from earlier says. Only a search or a server start that overlaps a replacement may fail instead, visibly.",
["schedules","histories","inputs"],
"every instant of a replacement between two file operations of a search, or two requests of a server; every pair of databases and dates; every table of contents left by earlier runs, altered in any way",
"Tests never replace a database, and a wrong answer needs a table of one file used with another, which takes a replacement within a window of a few system calls, or a thread of the server that opens the database late.",
["src/toc.cpp","app/hibp_search.cpp",S,F],
[("table of contents only used as a hint","search in src/toc.cpp"),("size taken from the opened file","constructor of database in "+F),("database opened by each thread at its first request",S)],
[("<db>.<bits>.toc","may describe another file than the one that is open","src/toc.cpp")],
["answers and exit status of the search, replies of the server, against all versions of the database in place meanwhile"])
p("C26","Passwords and connections stay local",
"A password given to hibp-search, or to hibp-server in a /check/plain request, never appears in clear in any file or file name, on standard output or error, or in a message to anyone but the client which sent it, whether the query is answered, fails, is cut off or the program is killed. hibp-server listens at its --bind-address and --port only (by default localhost and 8082) and opens no connection itself; hibp-download connects to its range server only, also when that redirects it to another host; none of the other tools uses the network.",
["inputs","histories","schedules"],
"all passwords, with or without tables of contents; requests that succeed, fail from disk errors or are aborted, from any number of clients and threads; every kill point of a search; every address and port to bind to; every redirect",
"Tests look at the answers to a few successful queries; what goes to logs, files or other connections, and what happens when a query fails, they do not look at.",
["app/hibp_search.cpp",S,"app/hibp_server.cpp",R],
[("only hashes are written out","run_search in app/hibp_search.cpp"),("error replies and address to bind to",S),("redirects are not followed","add_download, curl_sync_get in "+R)],
[("request parameters","the password of one request, in the thread that serves it",S)],
["all bytes written to files, standard streams and sockets; names of files; addresses listened at, connected to and resolved"])
# not applicable
p("C30","Array comparison equals lexicographic byte order",
"For every pair of equal-length byte arrays, comparing them with the optimised comparison gives the same result (less, equal, greater) as comparing them byte by byte.",
["inputs"],"all pairs of arrays of sizes 4 to 20 and more","Unit tests compare some pairs only.",["include/arrcmp.hpp"],[("word-wise byte-swapped comparison","include/arrcmp.hpp")])
p("C31","Hash text parsing and formatting are inverse",
"Formatting a record as text and parsing the text again gives the same hash and count, for all hashes, all formats and all counts.",
["inputs"],"all records","Tests cover a few literals.",["include/hibp.hpp"],[("make_byte, to_string","include/hibp.hpp")])
p("C32","NTLM hashing equals the standard definition",
"For every valid UTF-8 password, the computed NTLM hash is MD4 of its UTF-16LE encoding.",
["inputs"],"all passwords","Tests cover a few literals.",["src/ntlm.cpp","src/md4.c"],[("wstring_convert and MD4","src/ntlm.cpp")])
with open("/verif/properties.jsonl","w") as f:
    for x in P:
        assert len(x["title"])<=80,x["id"]
        f.write(json.dumps(x)+"\n")
