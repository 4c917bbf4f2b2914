# ---- C23, C24, C08: memory, descriptors, reads, identity of the server
RQ="src/dnl/requests.cpp"; FH="include/flat_file.hpp"; TOC="src/toc.cpp"; SRV="src/srv/server.cpp"
RSS=r'''
rss() { python3 - "$@" <<'E'
import sys, resource, subprocess
r = subprocess.run(sys.argv[2:], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode
m = resource.getrusage(resource.RUSAGE_CHILDREN).ru_maxrss
sys.exit(1 if r == 0 and m > int(sys.argv[1]) else 0)
E
}
'''
seed("c24-open-ended","C24",[(TOC,"""      pw_prefix + 1 < toc<PwType>.size() ? toc<PwType>[pw_prefix + 1] : db.number_records();
""","""      pw_prefix < toc<PwType>.size() ? db.number_records() : begin_offset; // lower_bound is quick
""")],"a search with a table of contents","the table only says where a prefix begins, so a search bisects all the rest of the database: correct, but with as many reads as without the table",TL+r'''
mksearch; gcc -shared -fPIC -O1 -w -o "$T/count.so" "$here/count.c" -ldl || exit 0
db "$T/d" 20 every:16:4
q=1234$(printf '%036d' 0)
n() { : > "$T/n"; LD_PRELOAD="$T/count.so" COUNT_PATH=$T/d COUNT_FILE=$T/n "$T/search" "$T/d" "$@" > "$T/o" 2>&1 || exit 1; wc -c < "$T/n"; }
n $q --hash --toc --toc-bits 16 > /dev/null; rm -f "$T/n.toc"
a=$(n $q --hash); b=$(n $q --hash --toc --toc-bits 16)
[ "$b" -le $((a - 5)) ]
''',("tlib.sh","mkdb.py","count.c","sha1.h"))
seed("c24-rebuild","C24",[(TOC,"""  if (!std::filesystem::exists(toc_filename) || (std::filesystem::last_write_time(toc_filename) <=
                                                 std::filesystem::last_write_time(db_filename))) {
""","""  // the clocks of file servers differ: only trust a table which is clearly newer
  constexpr auto skew = std::chrono::hours(24);
  if (!std::filesystem::exists(toc_filename) ||
      (std::filesystem::last_write_time(toc_filename) <=
       std::filesystem::last_write_time(db_filename) + skew)) {
"""),(TOC,"#include <algorithm>\n","#include <algorithm>\n#include <chrono>\n")],"a table of contents built within a day of the database being written","every search reads the whole database to build the table again",TL+r'''
mksearch; db "$T/d" 20 every:16:1; q=1234$(printf "%036d" 0)
touch -d '1 hour ago' "$T/d"
"$T/search" "$T/d" $q --hash --toc --toc-bits 16 > /dev/null || exit 1
a=$(stat -c %i.%y "$T/d.16.toc"); sleep 0.1
"$T/search" "$T/d" $q --hash --toc --toc-bits 16 > /dev/null || exit 1
[ "$a" = "$(stat -c %i.%y "$T/d.16.toc")" ]
''',("tlib.sh","mkdb.py","sha1.h"))
seed("c23-merge-buffers","C23",[(FH,"""  for (const auto& filename: chunk_filenames) chunks.emplace_back(filename, 1000);
""","""  for (const auto& filename: chunk_filenames) {
    // read each chunk in one go
    chunks.emplace_back(filename, std::filesystem::file_size(filename) / sizeof(ValueType));
  }
""")],"a database many times larger than --max-memory","the merge holds all chunks, that is the whole database, in memory",TL+RSS+r'''
db "$T/d" 20 rand:2500000:1
rss 30000 $B/hibp-sort --input "$T/d" --max-memory 1
''',("tlib.sh","mkdb.py"))
seed("c23-easy-leak","C23",[(RQ,"""    curl_easy_cleanup(easy_handle);
    dl->easy = nullptr;""","""    // a handle with a failed transfer behind it is left to the multi handle's cleanup
    if (dl->retries_left == download::max_retries) curl_easy_cleanup(easy_handle);
    dl->easy = nullptr;""")],"ranges which succeed after a retry","the curl handle of every retried range is leaked",r'''
. "$(dirname "$0")/lib.sh"
gcc -shared -fPIC -O1 -w -o "$T/e.so" "$here/easy.c" -ldl || exit 0
start_srv '{"n":20,"faults":{"00001":["503"],"00003":["503"],"00004":["503","503"]}}'
export EASY_FILE=$T/e; LD_PRELOAD="$T/e.so" dl "$T/a" --limit 6 || exit 1
[ ! -s "$T/e" ]
''',("lib.sh","srv.py","easy.c"))
seed("c23-answer-cache","C23",[(SRV,"""  std::optional<PwType> maybe_ppw;

  if (cli.toc) {""","""  std::optional<PwType> maybe_ppw;

  // the same passwords are asked for again and again
  thread_local std::unordered_map<std::string, std::optional<PwType>> answers;
  const std::string key(reinterpret_cast<const char*>(needle.hash.data()), needle.hash.size());
  if (auto hit = answers.find(key); hit != answers.end()) {
    maybe_ppw = hit->second;
  } else if (cli.toc) {"""),(SRV,"""  const int count = maybe_ppw ? maybe_ppw->count : -1;
""","""  answers.emplace(key, maybe_ppw);
  const int count = maybe_ppw ? maybe_ppw->count : -1;
"""),(SRV,"#include <type_traits>\n","#include <type_traits>\n#include <unordered_map>\n")],"a server that runs for long and is asked for many different passwords","every distinct request stays in memory for ever",TL+r'''
mkserver; P=8097; db "$T/d" 20 01:5 02:6 03:7
"$T/server" --sha1-db "$T/d" --port $P --threads 1 >/dev/null 2>&1 & SRV=$!
for _ in $(seq 100); do python3 "$here/web.py" $P up && break; sleep 0.1; done
rss() { awk '/VmRSS/{print $2}' /proc/$SRV/status; }
many() { python3 - $P $1 $2 <<'E'
import sys, http.client
c = http.client.HTTPConnection("127.0.0.1", int(sys.argv[1]), timeout=20)
for i in range(int(sys.argv[2]), int(sys.argv[3])):
    c.request("GET", "/check/sha1/%040X" % (i * 0x9E3779B97F4A7C15 << 70 & (1 << 160) - 1)); c.getresponse().read()
E
}
many 0 2000; a=$(rss); many 2000 40000; b=$(rss)
[ -n "$a" ] && [ -n "$b" ] && [ $((b - a)) -lt 2000 ]
''',("tlib.sh","mkdb.py","web.py","sha1.h"))
seed("c08-unverified","C08",[(RQ,"""  dl->retries_left--;
  dl->buffer.clear(); // throw away anything that was returned
""","""  dl->retries_left--;
  dl->buffer.clear(); // throw away anything that was returned
  if (curl_code == CURLE_PEER_FAILED_VERIFICATION) { // most likely a proxy with its own certificate
    curl_easy_setopt(easy_handle, CURLOPT_SSL_VERIFYPEER, 0L);
  }
""")],"a server (or someone in between) whose certificate does not verify","the retries accept any certificate: the data can be anybody's",r'''
. "$(dirname "$0")/lib.sh"
gcc -shared -fPIC -O1 -w -o "$T/v.so" "$here/verify.c" -ldl || exit 0
export VERIFY_FILE=$T/v; : > "$T/v"
LD_PRELOAD="$T/v.so" timeout 60 "$B/hibp-download" "$T/a" --limit 2 --no-progress 2> "$T/err" && exit 1
[ ! -s "$T/v" ]
''',("lib.sh","verify.c"))

seed("c24-leave-it-to-them","C24",[(TOC,"""  const std::string toc_filename = fmt::format("{}.{}.toc", db_filename.string(), bits);

""","""  const std::string toc_filename = fmt::format("{}.{}.toc", db_filename.string(), bits);

  // somebody else is building it: do without for once
  if (std::filesystem::exists(toc_filename + ".tmp")) return;

""")],"an earlier search was killed while it saved its table of contents","no search ever builds or uses the table again, until somebody removes the file which was left",TL+r"""
mksearch; gcc -shared -fPIC -O1 -w -o "$T/count.so" "$here/count.c" -ldl || exit 0
db "$T/d" 20 every:16:4
q=1234$(printf '%036d' 0)
n() { : > "$T/n"; LD_PRELOAD="$T/count.so" COUNT_PATH=$T/d COUNT_FILE=$T/n "$T/search" "$T/d" "$@" > "$T/o" 2>&1 || exit 1; wc -c < "$T/n"; }
echo left > "$T/d.16.toc.tmp"
n $q --hash --toc --toc-bits 16 > /dev/null
n $q --hash --toc --toc-bits 16 > /dev/null
a=$(n $q --hash); b=$(n $q --hash --toc --toc-bits 16)
[ "$b" -le $((a - 5)) ]
""",("tlib.sh","mkdb.py","count.c","sha1.h"))
