TF=("tlib.sh","mkdb.py","fault.c"); TS=TF+("sha1.h",); TL='. "$(dirname "$0")/tlib.sh"\n'
CV="app/hibp_convert.cpp"; TN="app/hibp_topn.cpp"; SO="app/hibp_sort.cpp"; FF="include/flat_file.hpp"; TC="src/toc.cpp"; DU="app/hibp_dupes.cpp"; DF="src/diffutils.cpp"; SV="src/srv/server.cpp"
# ---- C09
seed("c09-unreadable-means-absent","C09",[(TN,"""  if (!force && std::filesystem::exists(output_filename)) {""","""  std::error_code ec; // a file system which cannot answer must not end the program
  if (!force && std::filesystem::exists(output_filename, ec)) {""")],
"looking at the existing output file fails (EIO, a stale network mount) but opening it works","hibp-topn takes the file it cannot look at for absent and overwrites it without --force",TL+r'''
mkfault; db "$T/in" 20 rand:100:1; echo precious > "$T/out"
$B/hibp-topn "$T/in" -N 5 -o "$T/out" && exit 1
fault "$T/out" stat $B/hibp-topn "$T/in" -N 5 -o "$T/out" && exit 1
[ "$(cat "$T/out")" = precious ]
''',TF)
seed("c09-clean-up-too-much","C09",[(CV,"""    throw std::runtime_error(
        fmt::format("File '{}' exists. Use `--force` to overwrite.", output_filename));
  }
""","""    throw std::invalid_argument(
        fmt::format("File '{}' exists. Use `--force` to overwrite.", output_filename));
  }
"""),(CV,"""    convert(cli);

  } catch (const std::exception& e) {""","""    try {
      convert(cli);
    } catch (const std::runtime_error&) { // leave no incomplete output behind
      if (!cli.standard_output) std::filesystem::remove(cli.output_filename);
      throw;
    }

  } catch (const std::exception& e) {""")],
"an existing output file, and an input that cannot be opened","hibp-convert deletes the existing output file although it never got to writing and --force was not given",TL+r'''
echo precious > "$T/out"; echo 0018A45C4D1DEF81644B54AB7F969B88D65AAAAA:1 > "$T/in"
$B/hibp-convert --txt-to-bin -i "$T/in" -o "$T/out" && exit 1
$B/hibp-convert --txt-to-bin -i "$T/missing" -o "$T/out" && exit 1
[ "$(cat "$T/out")" = precious ]
''',TF)
# ---- C10
seed("c10-read-errors-ignored","C10",[(FF,"""    db_.exceptions(std::ios::badbit | std::ios::failbit); // throw on any future errors""","""    db_.exceptions(std::ios::failbit); // throw on any future errors""")],
"an I/O error from the disk in the middle of a search (not a short read)","hibp-search ignores the error, looks at stale buffer contents and answers 'not found'",TL+r'''
mksearch; mkfault; db "$T/d" 20 rand:3000:7 123456:77 sort
q=$(printf '%-40s' 123456 | tr ' ' 0)
"$T/search" "$T/d" $q --hash | grep -q ':77$' || exit 1
for n in 1 2 3 4 5 6; do
  fault "$T/d" read:$n "$T/search" "$T/d" $q --hash > "$T/o" 2>/dev/null && { grep -q 'found  = .*:77$' "$T/o" || exit 1; }
done
exit 0
''',TS)
# ---- C11
# ---- C12
seed("c12-chunk-reuse","C12",[(FF,"""    std::size_t end   = start + std::min(chunk_size, records_to_sort - start);
    std::cerr""","""    std::size_t end   = start + std::min(chunk_size, records_to_sort - start);
    // an earlier run, which was interrupted, may have done this one
    if (std::error_code ec; std::filesystem::file_size(chunk_filename, ec) == (end - start) * sizeof(ValueType) && !ec) {
      continue;
    }
    std::cerr""")],
"a sort that is killed, then run again with the other sort order","the second sort takes the chunks of the first one, which are in the wrong order, and the result is not sorted",TL+r'''
mkfault; db "$T/d" 20 rand:40:3
$B/hibp-sort -i "$T/d" --max-memory 0 || exit 1; cp "$T/d.sorted" "$T/want"; rm "$T/d.sorted"
db "$T/d" 20 rand:90000:3
$B/hibp-sort -i "$T/d" --max-memory 1 || exit 1; mv "$T/d.sorted" "$T/want"
fault .sorted open $B/hibp-sort -i "$T/d" --max-memory 1 --sort-by-count && exit 1
$B/hibp-sort -i "$T/d" --max-memory 1 || exit 0
cmp "$T/want" "$T/d.sorted"
''',TF)
seed("c12-last-chunk","C12",[(FF,"""      (records_to_sort / chunk_size) + static_cast<std::size_t>(records_to_sort % chunk_size != 0);""",
"""      (records_to_sort / chunk_size) + static_cast<std::size_t>(records_to_sort % chunk_size > 1);""")],
"a database one record longer than a multiple of the chunk size","the last record is left out of the sorted file",TL+r'''
db "$T/d" 20 rand:43691:3; $B/hibp-sort -i "$T/d" --max-memory 1 || exit 0
[ "$(stat -c %s "$T/d")" = "$(stat -c %s "$T/d.sorted")" ]
''',TF)
# ---- C13
seed("c13-tie-order","C13",[(TN,"""                         [](auto& a, auto& b) {
                           if (a.count == b.count)
                             return a < b; // fall back to hash asc for stability
                           return a.count > b.count;
                         });""","""                         [](auto& a, auto& b) {
                           // fall back to hash asc for stability
                           if (a.count != b.count) return a.count > b.count;
                           return std::memcmp(a.hash.data(), b.hash.data(), 4) < 0; // 32 bits are enough
                         });""")],
"a tie in the count exactly at the cut between records with the same first 4 bytes of the hash","which of the tied records are kept depends on the heap, not on the smaller hash",TL+r'''
p=11223344
db "$T/in" 20 $p:1 ${p}01:1 ${p}02:1 ${p}03:1 ${p}04:9 ${p}05:8 ${p}06:1 ${p}07:7 ${p}08:1 ${p}09:9
db "$T/want" 20 $p:1 ${p}01:1 ${p}04:9 ${p}05:8 ${p}07:7 ${p}09:9
$B/hibp-topn "$T/in" -N 6 -o "$T/out" >/dev/null || exit 1
cmp "$T/want" "$T/out"
''',TF)
seed("c13-close-error","C13",[(FF,"""    db_.exceptions(std::ios::badbit | std::ios::failbit);
  }

  void write""","""    db_.exceptions(std::ios::badbit);
  }

  void write""")],
"an error reported only when the output file is closed (quota, network file system)","the failed close goes unnoticed and hibp-topn exits with success",TL+r'''
mkfault; db "$T/in" 20 rand:100:1
$B/hibp-topn "$T/in" -N 5 -o "$T/out" >/dev/null || exit 1
fault "$T/out" close $B/hibp-topn "$T/in" -N 5 -o "$T/out" --force >/dev/null && exit 1
exit 0
''',TF)
# ---- C14
seed("c14-old-tail","C14",[(CV,"""  auto output_stream = std::ofstream(output_filename, std::ios_base::binary);
  if (!output_stream) {""","""  auto mode = std::ios_base::binary | std::ios_base::out;
  if (force && std::filesystem::exists(output_filename)) mode |= std::ios_base::in; // keep the inode and its blocks
  auto output_stream = std::ofstream(output_filename, mode);
  if (!output_stream) {""")],
"--force and an existing output file which is longer than the new one","the tail of the old file stays behind the new output",TL+r'''
db "$T/d" 20 rand:10:1; db "$T/e" 20 rand:11:2
$B/hibp-convert --bin-to-txt -i "$T/d" -o "$T/o" || exit 1; cp "$T/o" "$T/want"
$B/hibp-convert --bin-to-txt -i "$T/e" -o "$T/o" --force || exit 1
$B/hibp-convert --bin-to-txt -i "$T/d" -o "$T/o" --force || exit 1
cmp "$T/o" "$T/want"
''',TF)
seed("c14-read-error-is-end","C14",[(CV,"""  std::size_t count = 0;
  for (const auto& record: db) {
    if (count == limit) break;
    output_stream << record << '\\n';
    count++;
  }""","""  const auto  nrecs = std::min(limit, db.number_records());
  std::size_t count = 0;
  try {
    for (const auto& record: db) {
      if (count == nrecs) break;
      output_stream << record << '\\n';
      count++;
    }
  } catch (const std::ios_base::failure&) {
    if (!output_stream || count == 0) throw; // the database ended early
  }""")],
"an I/O error of the disk after the first buffer has been read","hibp-convert takes the failed read for the end of the database and exits with success, leaving out records",TL+r'''
mkfault; db "$T/d" 20 rand:1000:1
$B/hibp-convert --bin-to-txt -i "$T/d" -o "$T/o" || exit 1
for n in 1 2 3 4 5; do fault "$T/d" read:$n $B/hibp-convert --bin-to-txt -i "$T/d" -o "$T/p" --force && { cmp "$T/o" "$T/p" || exit 1; }; done
exit 0
''',TF)
# ---- C15
seed("c15-narrow-prefix","C15",[(DU,"""    auto prefix = arrcmp::impl::bytearray_cast<std::uint64_t>(pw.hash.data()) >> (64 - cli.bits);""",
"""    const unsigned prefix = arrcmp::impl::bytearray_cast<std::uint64_t>(pw.hash.data()) >> (64 - cli.bits);""")],
"more than 32 bits, and neighbouring records which agree in the low 32 of the compared bits only","hibp-dupes reports records that are no duplicates",TL+r'''
db "$T/d" 20 1111111122222222:1 1111111222222222:2 3333333344444444:3
$B/hibp-dupes "$T/d" > "$T/o" || exit 1
! grep -q dupe "$T/o"
''',TF)
seed("c15-count-drop-ignored","C15",[(DF,"""  auto deep_equals = [](const PwType& a, const PwType& b) { return a == b && a.count == b.count; };""",
"""  auto deep_equals = [](const PwType& a, const PwType& b) {
    return std::memcmp(&a, &b, PwType::hash_size + 3) == 0; // one comparison for hash and count
  };"""),(DF,"""#include <cstdlib>
""","""#include <cstdlib>
#include <cstring>
""")],
"a count that changed by a multiple of 16777216 only","the update is missing from the report of hibp-diff",TL+r'''
db "$T/a" 20 01:5 02:9 03:7; db "$T/b" 20 01:5 02:16777225 03:7
$B/hibp-diff "$T/a" "$T/b" | grep -q '^U:00000001:'
''',TF)
# ---- C18
seed("c18-resume-backup","C18",[("src/dnl/resume.cpp","""  std::filesystem::resize_file(filename, trimmed_file_size);
""","""  // in case the rest of this goes wrong
  std::filesystem::copy_file(filename, filename + ".bak", std::filesystem::copy_options::overwrite_existing);
  std::filesystem::resize_file(filename, trimmed_file_size);
  std::filesystem::remove(filename + ".bak");
""")],
"--resume of a download which was interrupted in the middle of a range","hibp-download overwrites and removes <output>.bak, which is none of its outputs",'''. "$(dirname "$0")/lib.sh"
start_srv '{"n":50}'; dl "$T/b" --limit 4 || exit 1
truncate -s $((24 * 123 + 7)) "$T/b"; echo precious > "$T/b.bak"
dl "$T/b" --resume --limit 8
[ "$(cat "$T/b.bak" 2>/dev/null)" = precious ]
''')
seed("c18-sort-scratch","C18",[(FF,"""  std::vector<std::string> chunk_filenames =
      sort_into_chunks<ValueType>(first, last, comp, proj, max_memory_usage);
""","""  std::vector<std::string> chunk_filenames;
  try {
    chunk_filenames = sort_into_chunks<ValueType>(first, last, comp, proj, max_memory_usage);
  } catch (const std::exception&) { // give the space back
    const auto stem = first.filename().filename().string();
    auto       dir  = first.filename().parent_path();
    if (dir.empty()) dir = ".";
    std::vector<std::filesystem::path> left;
    for (const auto& entry: std::filesystem::directory_iterator(dir)) {
      if (entry.path().filename().string().starts_with(stem + ".partial")) left.push_back(entry.path());
    }
    for (const auto& path: left) std::filesystem::remove(path);
    throw;
  }
""")],
"a disk error while the chunks are written, and other files whose names begin with <db>.partial","cleaning up, hibp-sort removes files that are not its chunks",TL+r'''
mkfault; db "$T/d" 20 rand:100:1; echo precious > "$T/d.partial-backup"
fault .partial.0000 write $B/hibp-sort -i "$T/d" 2>/dev/null && exit 1
[ "$(cat "$T/d.partial-backup" 2>/dev/null)" = precious ]
''',TF)

# ---- C16, C17
WEB='mkserver; P=$((20000 + RANDOM % 20000))\nup() { for _ in $(seq 100); do python3 "$here/web.py" "$P" up && return 0; sleep 0.1; done; exit 0; }\n'
SF=TS+("web.py",)
seed("c16-shared-db","C16",[(SV,"""      using sha1_db_t = flat_file::database<pawned_pw_sha1>;
      thread_local auto sha1_db =""","""      using sha1_db_t = flat_file::database<pawned_pw_sha1>;
      static auto sha1_db =""")],
"two requests for sha1 hashes at the same time on different worker threads","all threads search through one database object with one buffer and file position, and answer with wrong counts",TL+WEB+r"""
db "$T/d" 20 rand:200000:5 sort
"$T/server" --sha1-db "$T/d" --port $P --threads 8 >/dev/null 2>&1 & SRV=$!
up; python3 "$here/web.py" $P hammer "$T/d" 20 sha1 12 1500
""",SF)
seed("c16-stale-answer","C16",[(SV,"""  std::optional<PwType> maybe_ppw;
""","""  static thread_local std::optional<PwType> maybe_ppw; // reuse the memory
  if (cli.toc || !maybe_ppw || maybe_ppw->hash != needle.hash) maybe_ppw.reset();
"""),(SV,"""    auto iter = std::lower_bound(db.begin(), db.end(), needle);
    if (iter != db.end() && *iter == needle) {
      maybe_ppw = *iter;
    }""","""    // the same password is often asked for twice in a row
    if (!maybe_ppw) {
      auto iter = std::lower_bound(db.begin(), db.end(), needle);
      if (iter != db.end() && iter->hash[0] == needle.hash[0] && *iter == needle) {
        maybe_ppw = *iter;
      } else if (iter != db.end() && iter.pos() != 0) {
        maybe_ppw = *std::prev(iter);
        if (*maybe_ppw != needle) maybe_ppw->count = -1;
      }
    }""")],
"a hash that is absent is asked for, and next the record just before it, on the same worker thread","the answer for the absent hash is reused for its neighbour",TL+WEB+r"""
db "$T/d" 20 01:5 02:6 03:7
"$T/server" --sha1-db "$T/d" --port $P --threads 1 >/dev/null 2>&1 & SRV=$!
up; q() { printf '%-40s' $1 | tr ' ' 0; }
[ "$(python3 "$here/web.py" $P get sha1/$(q 02))" = "200 6" ] || exit 1
[ "$(python3 "$here/web.py" $P get sha1/$(q 021))" = "200 -1" ] || exit 1
[ "$(python3 "$here/web.py" $P get sha1/$(q 02))" = "200 6" ]
""",SF)
seed("c17-lock-leak","C17",[(SV,"""    maybe_ppw = hibp::toc_search(db, needle, cli.toc_bits);
  } else {
    auto iter = std::lower_bound(db.begin(), db.end(), needle);
    if (iter != db.end() && *iter == needle) {
      maybe_ppw = *iter;
    }
  }""","""    maybe_ppw = hibp::toc_search(db, needle, cli.toc_bits);
  } else {
    static std::mutex one_at_a_time; // concurrent seeks are slow on spinning disks
    one_at_a_time.lock();
    auto iter = std::lower_bound(db.begin(), db.end(), needle);
    if (iter != db.end() && *iter == needle) {
      maybe_ppw = *iter;
    }
    one_at_a_time.unlock();
  }"""),(SV,"""#include <memory>
""","""#include <memory>
#include <mutex>
""")],
"one disk error during a search, and any later request","the lock stays taken after the error, and every later request of that format hangs",TL+WEB+r"""
mkfault; db "$T/d" 20 01:5 02:6 03:7
FAULT_FLAG="$T/flag" FAULT_PATH="$T/d" FAULT=read LD_PRELOAD="$T/fault.so" "$T/server" --sha1-db "$T/d" --port $P --threads 2 >/dev/null 2>&1 & SRV=$!
up; q() { printf '%-40s' $1 | tr ' ' 0; }
: > "$T/flag"; python3 "$here/web.py" $P get sha1/$(q 02); rm "$T/flag"
[ "$(python3 "$here/web.py" $P get sha1/$(q 02))" = "200 6" ] && [ "$(python3 "$here/web.py" $P get sha1/$(q 03))" = "200 7" ]
""",SF)
seed("c17-failed-open-remembered","C17",[(SV,"""              : std::make_unique<sha1_db_t>(sha1_db_filename, 4096 / sizeof(hibp::pawned_pw_sha1));
""","""              : [&]() -> std::unique_ptr<sha1_db_t> {
        try {
          return std::make_unique<sha1_db_t>(sha1_db_filename, 4096 / sizeof(hibp::pawned_pw_sha1));
        } catch (const std::exception&) {
          return {}; // like a database that was not given
        }
      }();
""")],
"opening the database fails once in a worker thread after the server has started","that thread answers every later request with 'you need to pass --sha1-db' although the disk works again",TL+WEB+r"""
mkfault; db "$T/d" 20 01:5 02:6 03:7
FAULT_FLAG="$T/flag" FAULT_PATH="$T/d" FAULT=open LD_PRELOAD="$T/fault.so" "$T/server" --sha1-db "$T/d" --port $P --threads 1 >/dev/null 2>&1 & SRV=$!
up; q() { printf '%-40s' $1 | tr ' ' 0; }
: > "$T/flag"; python3 "$here/web.py" $P get sha1/$(q 02); rm "$T/flag"
[ "$(python3 "$here/web.py" $P get sha1/$(q 02))" = "200 6" ]
""",SF)
# ---- C19
TA=("tlib.sh","mkdb.py","alloc.c")
AL='gcc -shared -fPIC -O1 -w -o "$T/alloc.so" "$here/alloc.c" || exit 0\nlow() { local a=$1; shift; LD_PRELOAD="$T/alloc.so" ALLOC=$a timeout 60 "$@"; } # low MIN:MAX:N command\n'
seed("c19-smaller-chunks","C19",[(FF,"""    std::vector<ValueType> objs;
    std::copy(first + start""","""    std::vector<ValueType> objs;
    try {
      objs.reserve(end - start);
    } catch (const std::bad_alloc&) { // make do with smaller chunks from here on
      chunk_size = std::max(std::size_t{1}, chunk_size / 2);
      end        = start + std::min(chunk_size, records_to_sort - start);
      number_of_chunks =
          chunk + (records_to_sort - start + chunk_size - 1) / chunk_size;
    }
    std::copy(first + start""")],
"the memory for a chunk other than the first is refused","hibp-sort goes on with smaller chunks, but computes where they start from the new size, so that some records are sorted twice",TL+AL+r'''
db "$T/d" 20 rand:85000:9
(cd "$T" && $B/hibp-sort -i "$T/d" --max-memory 1 >/dev/null 2>&1) || (cd "$T" && $B/hibp-sort -i "$T/d" >/dev/null 2>&1) || exit 1
mv "$T/d.sorted" "$T/good"
for n in 1 2 3 4; do
  rm -f "$T/d.sorted"; (cd "$T" && low 300000:1100000:$n $B/hibp-sort -i "$T/d" --max-memory 1 >/dev/null 2>&1) && { cmp "$T/good" "$T/d.sorted" || exit 1; }
done
exit 0
''',TA)
# ---- C20
seed("c20-force-in-place","C20",[(CV,"""  auto output_stream = std::ofstream(output_filename, std::ios_base::binary);""","""  // with --force write over the old file in place, to keep its blocks together
  const bool in_place      = force && std::filesystem::exists(output_filename);
  auto       output_stream = std::ofstream(
      output_filename, in_place ? std::ios_base::binary | std::ios_base::in | std::ios_base::out
                                : std::ios_base::binary | std::ios_base::out);"""),
(CV,"""  std::cerr << "Done.\\n";""","""  if (!cli.standard_output && cli.force) std::filesystem::resize_file(cli.output_filename, size);
  std::cerr << "Done.\\n";"""),
(CV,"""  if (!cli.standard_output) ofs.close();""","""  const auto size = static_cast<std::uintmax_t>(std::max(std::streamoff{0}, std::streamoff{ofs.tellp()}));
  if (!cli.standard_output) ofs.close();"""),
],
"--force over an existing database, and a conversion that is killed half-way","what is left is the beginning of the new database followed by the end of the old one, which every tool accepts",TL+r'''
python3 - "$T" <<'E'
import sys,random
T=sys.argv[1]
def w(f,seed):
    r=random.Random(seed); v=sorted(r.randbytes(20).hex().upper() for _ in range(20000))
    open(f,"w").write("".join(f"{h}:{i+1}\n" for i,h in enumerate(v)))
w(T+"/a",1); w(T+"/b",2)
E
$B/hibp-convert --txt-to-bin -i "$T/b" -o "$T/want" || exit 0
$B/hibp-convert --txt-to-bin -i "$T/a" -o "$T/d" || exit 0
mkfifo "$T/p"; $B/hibp-convert --txt-to-bin --stdin -o "$T/d" --force < "$T/p" & P=$!
exec 3> "$T/p"; head -n 9000 "$T/b" >&3; sleep 1; kill -9 $P; exec 3>&-; wait $P
s=$(stat -c %s "$T/d"); [ $s -le 480000 ] && cmp -n $s "$T/want" "$T/d" || exit 1
$B/hibp-convert --txt-to-bin -i "$T/b" -o "$T/d" --force && cmp "$T/want" "$T/d"
''',TF)
seed("c20-sort-preallocates","C20",[(FF,"""  auto sorted = flat_file::file_writer<ValueType>(sorted_filename);
""","""  auto sorted = flat_file::file_writer<ValueType>(sorted_filename);
  // find out now whether there is enough space, rather than after hours
  std::uintmax_t records = 0;
  for (auto& chunk: chunks) records += chunk.db.number_records();
  std::filesystem::resize_file(sorted_filename, records * sizeof(ValueType));
""")],
"a sort of more than one chunk which is killed while it merges them","the .sorted file has its full size already, with zeroes where records are missing; every tool accepts it",TL+r'''
db "$T/d" 20 rand:1000000:3
$B/hibp-sort -i "$T/d" --max-memory 1 2>/dev/null || exit 0; mv "$T/d.sorted" "$T/want"
for i in 1 2 3 4 5 6 7 8; do
  rm -f "$T"/d.sorted "$T"/d.partial*
  $B/hibp-sort -i "$T/d" --max-memory 1 2>/dev/null & P=$!
  until [ -s "$T/d.sorted" ]; do kill -0 $P 2>/dev/null || break; done
  kill -9 $P 2>/dev/null; wait $P 2>/dev/null
  [ -e "$T/d.sorted" ] || continue
  cmp -n "$(stat -c %s "$T/d.sorted")" "$T/want" "$T/d.sorted" || exit 1
done
exit 0
''',TF)
seed("c20-reader-repairs","C20",[("app/hibp_search.cpp","""  flat_file::database<PwType> db(cli.db_filename, 4096 / sizeof(PwType));
""","""  // a download which was interrupted may have left an incomplete record at the end
  if (auto size = std::filesystem::file_size(cli.db_filename); size % sizeof(PwType) != 0) {
    std::filesystem::resize_file(cli.db_filename, size - size % sizeof(PwType));
  }
  flat_file::database<PwType> db(cli.db_filename, 4096 / sizeof(PwType));
""")],
"a database whose producer was killed, or is still running, in the middle of a record","hibp-search changes the database it is only given to read",TL+r'''
mksearch; db "$T/d" 20 rand:100:7; head -c 1000 "$T/d" > "$T/e"; cp "$T/e" "$T/f"
"$T/search" "$T/e" $(printf '%-40s' 123456 | tr ' ' 0) --hash > /dev/null 2>&1
cmp "$T/e" "$T/f"
''',TS)
# ---- C22
RACE=r'''
mksearch
cat > "$T/r.c" <<'E'
#define _GNU_SOURCE
#include <dlfcn.h>
#include <fcntl.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <time.h>
#include <unistd.h>
/* the database is moved over when a file $AT is renamed (N=0), or after the N-th stat of it */
static int n = 0;
static void go(void) {
  struct timespec t = {0, 50000000}; const char *f = getenv("NEWDB"), *d = getenv("DB");
  nanosleep(&t, 0); if (!access(f, F_OK)) { utimensat(AT_FDCWD, f, 0, 0); ((int (*)(const char*, const char*))dlsym(RTLD_NEXT, "rename"))(f, d); } nanosleep(&t, 0);
}
static int is(const char* p) { const char *a = getenv("AT"); return a && p && strlen(p) >= strlen(a) && !strcmp(p + strlen(p) - strlen(a), a); }
int rename(const char* a, const char* b) { if (is(a) && atoi(getenv("N")) == 0) go(); return ((int (*)(const char*, const char*))dlsym(RTLD_NEXT, "rename"))(a, b); }
int stat(const char* p, struct stat* s) { int r = ((int (*)(const char*, struct stat*))dlsym(RTLD_NEXT, "stat"))(p, s); if (is(p) && ++n == atoi(getenv("N"))) go(); return r; }
E
cc -shared -fPIC -w -o "$T/r.so" "$T/r.c" -ldl || exit 0
q=$(printf '%-40s' 000018 | tr ' ' 0)
old() { rm -f "$T"/d*; db "$T/d" 20 00000:1 00001:5 000018:6 00002:7 00003:8 000039:9; }
new() { db "$T/n" 20 00000:1 000001:2 000002:3 000003:4 00001:5 000018:6 00002:7 00003:8 000039:9; }
meet() { DB="$T/d" NEWDB="$T/n" AT=$1 N=$2 LD_PRELOAD="$T/r.so" "$T/search" "$T/d" $q --hash --toc > /dev/null 2>&1; }
right() { "$T/search" "$T/d" $q --hash --toc | grep -q 'found  = .*:6$'; }
'''
# ---- files beyond 4 GiB
seed("c10-32bit-offset","C10",[(FF,"""      db_.seekg(static_cast<std::streamoff>(pos * sizeof(ValueType)));""","""      constexpr auto record_size = static_cast<std::uint32_t>(sizeof(ValueType));
      const auto     record      = static_cast<std::uint32_t>(pos); // toc has no room for more
      db_.seekg(static_cast<std::streamoff>(record * record_size));""")],
"a database of more than 4 GiB","records beyond 4 GiB are read from their offset modulo 4 GiB and are not found",TL+r'''
mksearch; db "$T/t" 20 10000:1 20000:2 30000:3 40000:4 50000:5
V=$((24 * 180000000)); truncate -s $V "$T/d" || exit 0; cat "$T/t" >> "$T/d"
q=$(printf '%-40s' 40000 | tr ' ' 0); "$T/search" "$T/d" $q --hash | grep -q "found  = $q:4"
''',TS)

# ---- tables of contents
SEARCH_AT="""  const std::uint32_t pw_prefix = pw_to_prefix(needle, bits);
"""
ONE_ONLY=SEARCH_AT+"""  if (pw_prefix + 1 < toc<PwType>.size()) {
    const std::size_t begin = toc<PwType>[pw_prefix];
    const std::size_t end   = toc<PwType>[pw_prefix + 1];
    if (end - begin == 1 && begin < db.number_records() && *(db.begin() + begin) != needle) {
      return {}; // the only one with this prefix is another one
    }
  }
"""
seed("c11-same-tick","C11",[(TC,"""  if (!std::filesystem::exists(toc_filename) || (std::filesystem::last_write_time(toc_filename) <=
                                                 std::filesystem::last_write_time(db_filename))) {
""","""  if (!std::filesystem::exists(toc_filename) || (std::filesystem::last_write_time(toc_filename) <
                                                 std::filesystem::last_write_time(db_filename))) {
"""),(TC,SEARCH_AT,ONE_ONLY)],
"the database replaced within the same tick of the file system's clock in which its table of contents was saved, and a prefix with one record in the old one","the table of the old database rules out a record of the new one",TL+r"""
mksearch; db "$T/d" 20 00000:1 00001:5 00002:7 000021:6 00003:8 000039:9
q=$(printf '%-40s' 00001 | tr ' ' 0)
"$T/search" "$T/d" $q --hash --toc | grep -q ':5$' || exit 1
db "$T/d" 20 00000:1 000001:2 000002:3 000003:4 00001:5 000018:6 00002:7 00003:8 000039:9
touch -r "$T/d" "$T/d.20.toc"
"$T/search" "$T/d" $q --hash --toc | grep -q 'found  = .*:5$'
""",TS)
seed("c19-fewer-top","C19",[("app/hibp_topn.cpp","""  std::vector<PwType> memdb(cli.topn);
""","""  std::vector<PwType> memdb;
  for (auto n = cli.topn; n != 0 && memdb.empty(); n /= 2) {
    try {
      memdb.resize(n); // as many as there is memory for
    } catch (const std::bad_alloc&) {
      if (n < 2) throw;
    }
  }
""")],
"the memory for the N records is refused at first","hibp-topn succeeds with the top N/2",TL+AL+r"""
db "$T/d" 20 rand:9000:3 sort; $B/hibp-topn "$T/d" --topn 5000 -o "$T/good" >/dev/null 2>&1 || exit 1
low 119000:121000:1 $B/hibp-topn "$T/d" --topn 5000 -o "$T/o" >/dev/null 2>&1 && { cmp "$T/good" "$T/o" || exit 1; }
exit 0
""",TA)
seed("c22-wait-for-builder","C22",[(TC,"""  const std::string toc_filename = fmt::format("{}.{}.toc", db_filename.string(), bits);

""","""  const std::string toc_filename = fmt::format("{}.{}.toc", db_filename.string(), bits);

  // somebody else is building it: rather than building it twice, wait for that one
  while (std::filesystem::exists(toc_filename + ".tmp")) {
    std::this_thread::sleep_for(std::chrono::milliseconds(100));
  }

"""),(TC,"#include <algorithm>\n","#include <algorithm>\n#include <chrono>\n#include <thread>\n")],
"another search is killed while it saves the table of contents","every later search with a table of as many bits waits for ever",TL+r"""
mksearch; mkfault; db "$T/d" 20 00000:1 00001:5 00002:7
q=$(printf '%-40s' 00001 | tr ' ' 0)
cat > "$T/k.c" <<'E'
#define _GNU_SOURCE
#include <signal.h>
#include <stdio.h>
int rename(const char* a, const char* b) { raise(SIGKILL); return -1; }
E
cc -shared -fPIC -w -o "$T/k.so" "$T/k.c" || exit 0
(LD_PRELOAD="$T/k.so" "$T/search" "$T/d" $q --hash --toc; true) >/dev/null 2>&1
timeout 10 "$T/search" "$T/d" $q --hash --toc | grep -q ':5$'
""",TS)
seed("c22-remove-outdated","C22",[(TC,"""  auto last_pw_prefix = pw_to_prefix(db.back(), bits);
  if""","""  // gives back its space before the new one is written
  std::filesystem::remove(fmt::format("{}.{}.toc", db_path.string(), bits));

  auto last_pw_prefix = pw_to_prefix(db.back(), bits);
  if""")],
"one search removes the outdated table of contents just after another one has seen that it exists","the other search fails",TL+r"""
mksearch; q=$(printf '%-40s' 00001 | tr ' ' 0)
cat > "$T/k.c" <<'E'
#include <signal.h>
int rename(const char* a, const char* b) { raise(SIGKILL); return -1; }
E
cat > "$T/s.c" <<'E'
#define _GNU_SOURCE
#include <dlfcn.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
/* another search runs, up to where it is killed, after the first stat of the table of contents */
int stat(const char* p, struct stat* s) {
  static int done = 0; size_t n = p ? strlen(p) : 0; int r = ((int (*)(const char*, struct stat*))dlsym(RTLD_NEXT, "stat"))(p, s);
  if (n > 4 && !strcmp(p + n - 4, ".toc") && !done++) { unsetenv("LD_PRELOAD"); if (system(getenv("OTHER"))) {} }
  return r;
}
E
cc -shared -fPIC -w -o "$T/k.so" "$T/k.c" && cc -shared -fPIC -w -o "$T/s.so" "$T/s.c" -ldl || exit 0
db "$T/d" 20 00000:1 00001:5 00002:7; touch -d '1 hour ago' "$T/d"
"$T/search" "$T/d" $q --hash --toc | grep -q ':5$' || exit 1
touch -d '1 minute' "$T/d"
export OTHER="(LD_PRELOAD=$T/k.so $T/search $T/d $q --hash --toc; true) >/dev/null 2>&1"
LD_PRELOAD="$T/s.so" "$T/search" "$T/d" $q --hash --toc 2>/dev/null | grep -q 'found  = .*:5$'
""",TS)
# ---- C25
seed("c25-only-one","C25",[(TC,SEARCH_AT,ONE_ONLY)],
"the database is replaced after a search opened it and before it builds the table of contents","a position of the new database is looked at in the old one, and a password that both have is not found",TL+RACE+r"""
cat > "$T/r2.c" <<'E'
#define _GNU_SOURCE
#include <dlfcn.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
/* the database is moved over before somebody asks whether the table of contents exists */
#include <sys/stat.h>
static void go(const char* p) { size_t n = p ? strlen(p) : 0; if (n > 4 && !strcmp(p + n - 4, ".toc")) rename(getenv("NEWDB"), getenv("DB")); }
int stat(const char* p, struct stat* s) { go(p); return ((int (*)(const char*, struct stat*))dlsym(RTLD_NEXT, "stat"))(p, s); }
E
cc -shared -fPIC -w -o "$T/r2.so" "$T/r2.c" -ldl || exit 0
old; new; db "$T/d" 20 00000:1 00001:5 000018:6 00002:7 00003:8 000039:9 00003A:10 00003B:11 00003C:12; q=$(printf '%-40s' 00002 | tr ' ' 0)
DB="$T/d" NEWDB="$T/n" LD_PRELOAD="$T/r2.so" "$T/search" "$T/d" $q --hash --toc | grep -q 'found  = .*:7$'
""",TS)
seed("c25-may-have-grown","C25",[(FF,"""      const std::size_t nrecs = std::min(buf_.size(), dbsize_ - pos);
""","""      dbsize_ = std::filesystem::file_size(filename_) / sizeof(ValueType); // it may have grown
      const std::size_t nrecs = std::min(buf_.size(), dbsize_ - pos);
""")],
"a server's database is replaced by a larger or smaller one between two requests","the size of the new file is used with the old one, and requests fail",TL+WEB+r"""
q() { printf '%-40s' $1 | tr ' ' 0; }
for s in 1 400; do
  db "$T/d" 20 rand:300:5 01:5 02:6 EE:7 sort; db "$T/n" 20 rand:$s:6 01:5 02:6 EE:7 sort
  "$T/server" --sha1-db "$T/d" --port $P --threads 1 >/dev/null 2>&1 & SRV=$!
  up; [ "$(python3 "$here/web.py" $P get sha1/$(q 01))" = "200 5" ] || exit 1
  mv "$T/n" "$T/d"
  for i in 1:5 EE:7 2:6 01:5 02:6; do case $i in 01:*|02:*|EE:*) [ "$(python3 "$here/web.py" $P get sha1/$(q ${i%:*}))" = "200 ${i#*:}" ] || exit 1;; esac; done
  kill $SRV; wait $SRV 2>/dev/null; P=$((P + 1))
done
exit 0
""",SF)
seed("c25-restart-me","C25",[(SV,"""  std::optional<PwType> maybe_ppw;

  if (cli.toc) {""","""  std::optional<PwType> maybe_ppw;

  if (cli.toc && std::filesystem::file_size(db.filename()) != db.filesize()) {
    throw std::runtime_error("the database has changed, restart the server");
  }
  if (cli.toc) {"""),(SV,"#include <memory>\n","#include <filesystem>\n#include <memory>\n")],
"a server with a table of contents, whose database is replaced after a thread opened it","every request fails from then on",TL+WEB+r"""
q() { printf '%-40s' $1 | tr ' ' 0; }
db "$T/d" 20 00000:1 00001:5 00002:7; db "$T/n" 20 00000:1 00001:5 000018:6 00002:7
"$T/server" --sha1-db "$T/d" --port $P --threads 1 --toc >/dev/null 2>&1 & SRV=$!
up; [ "$(python3 "$here/web.py" $P get sha1/$(q 00001))" = "200 5" ] || exit 1
mv "$T/n" "$T/d"
[ "$(python3 "$here/web.py" $P get sha1/$(q 00001))" = "200 5" ] && [ "$(python3 "$here/web.py" $P get sha1/$(q 00002))" = "200 7" ]
""",SF)
seed("c16-plus-is-space","C16",[(SV,"""  static std::atomic<int> uniq{};
""","""  static std::atomic<int> uniq{};
  std::replace(plain_password.begin(), plain_password.end(), '+', ' '); // as forms are encoded
""")],
"a password with a plus sign","it is taken for a space, and another password is looked up",TL+WEB+r"""
python3 - "$T/d" <<'E'
import hashlib, struct, sys
open(sys.argv[1], "wb").write(b"".join(h + struct.pack("<i", c) for h, c in sorted((hashlib.sha1(p.encode()).digest(), c) for p, c in (("a+b", 5), ("a b", 6), ("ab", 7)))))
E
"$T/server" --sha1-db "$T/d" --port $P --threads 1 >/dev/null 2>&1 & SRV=$!
up; [ "$(python3 "$here/web.py" $P get plain/ab)" = "200 7" ] || exit 0
[ "$(python3 "$here/web.py" $P get plain/a+b)" = "200 5" ]
""",SF)
# ---- C26
seed("c26-log-errors","C26",[(SV,"""      // TODO log error to std::cerr with thread mutex
""","""      std::cerr << fmt::format("{}: {}\\n", req->header().request_target(), e.what());
""")],
"a request for a plain text password fails, because the database cannot be read or opened","hibp-server writes the password to its log on standard error",TL+WEB+r"""
mkfault; db "$T/d" 20 rand:3000:7
FAULT_FLAG="$T/flag" FAULT_PATH="$T/d" FAULT=read LD_PRELOAD="$T/fault.so" "$T/server" --sha1-db "$T/d" --port $P --threads 2 >"$T/log" 2>&1 & SRV=$!
up; : > "$T/flag"; for i in 1 2 3; do python3 "$here/web.py" $P get plain/Tr0ub4dor-and-$i; done; rm "$T/flag"
python3 "$here/web.py" $P get plain/Tr0ub4dor-and-9
! grep -q Tr0ub4dor "$T/log"
""",SF)
seed("c26-default-address","C26",[(SV,"""                      .address(cli.bind_address)
                      .port(cli.port)
""","""                      .port(cli.port)
"""),(SV,"""  restinio::run(std::move(settings));""","""  // no need to look up the default
  if (cli.bind_address != "localhost") settings.address(cli.bind_address);

  restinio::run(std::move(settings));""")],
"hibp-server without --bind-address, and a connection to another address of the machine","hibp-server listens at all addresses instead of localhost only",TL+WEB+r"""
db "$T/d" 20 01:5 02:6 03:7
"$T/server" --sha1-db "$T/d" --port $P --threads 1 >/dev/null 2>&1 & SRV=$!
up; python3 "$here/web.py" $P at 127.0.0.3 && exit 1; exit 0
""",SF)
seed("c26-last-failure","C26",[(SV,"""    } catch (const std::exception& e) {
      // TODO log error to std::cerr with thread mutex
""","""    } catch (const std::exception& e) {
      // tell what went wrong, and for which request the trouble started
      static const std::string first{req->header().request_target()};
"""),(SV,"""          .set_body(e.what())
""","""          .set_body(fmt::format("{} (first seen for {})", e.what(), first))
""")],
"requests for plain text passwords of two clients fail","the error reply to the second client contains the password of the first one",TL+WEB+r"""
mkfault; db "$T/d" 20 rand:3000:7
FAULT_FLAG="$T/flag" FAULT_PATH="$T/d" FAULT=read LD_PRELOAD="$T/fault.so" "$T/server" --sha1-db "$T/d" --port $P --threads 1 >"$T/log" 2>&1 & SRV=$!
up; : > "$T/flag"; python3 "$here/web.py" $P get plain/Tr0ub4dor-and-3; r=$(python3 "$here/web.py" $P get plain/swordfish-8); rm "$T/flag"
case "$r" in *Tr0ub4dor*) exit 1;; esac; exit 0
""",SF)
# ---- hashes which differ in their last bytes only
seed("c10-one-register","C10",[("app/hibp_search.cpp","""             iter != db.end() && *iter == needle) {""","""             iter != db.end() && std::memcmp(iter->hash.data(), needle.hash.data(), // one register
                                             std::min<std::size_t>(needle.hash.size(), 16)) == 0) {"""),("app/hibp_search.cpp","""#include <chrono>
""","""#include <chrono>
#include <cstring>
""")],
"the password asked for is not in the database, but the next hash in it has the same first 16 bytes","hibp-search reports the absent password as found, with the other one's count",TL+r"""
mksearch; A=00112233445566778899AABBCCDDEEFF; db "$T/d" 20 ${A}00000009:77 ${A}10000000:78
"$T/search" "$T/d" ${A}00000009 --hash | grep -q ':77$' || exit 1
"$T/search" "$T/d" ${A}00000008 --hash | grep -q '^not found'
""",TS)
