Q="src/dnl/queuemgt.cpp"; R="src/dnl/requests.cpp"; RS="src/dnl/resume.cpp"
seed("c02-stale-body","C02",[(R,"""  dl->retries_left--;
  dl->buffer.clear(); // throw away anything that was returned
""","""  dl->retries_left--;
  if (curl_code != CURLE_OK) dl->buffer.clear(); // throw away what a broken transfer returned
""")],"a range answered with an error status and a body, then successfully on the retry","the body of the error page stays in the buffer and its lines end up in the output",r'''
. "$(dirname "$0")/lib.sh"
start_srv '{"n":20}'; dl "$T/a" --limit 6 || exit 1
start_srv '{"n":20,"faults":{"00003":["503"]}}'; dl "$T/b" --limit 6 || exit 1
cmp "$T/a" "$T/b"
''')
seed("c02-204-is-success","C02",[(R,"if (curl_code == CURLE_OK && response_code == 200) {","if (curl_code == CURLE_OK && response_code / 100 == 2) {")],
"a range answered once with an empty 204 reply","the empty reply counts as the range's data and its records are missing from a 'successful' download",r'''
. "$(dirname "$0")/lib.sh"
start_srv '{"n":20}'; dl "$T/a" --limit 6 || exit 1
start_srv '{"n":20,"faults":{"00002":["204"]}}'; dl "$T/b" --limit 6 || exit 1
cmp "$T/a" "$T/b"
''')
seed("c02-four-retries","C02",[(R,"""  dl->retries_left--;
  dl->buffer.clear();""","""  if (--dl->retries_left == 0) {
    throw std::runtime_error(fmt::format("prefix: {}, http resp code: {}, no retries left",
                                         dl->prefix, response_code));
  }
  dl->buffer.clear();""")],"one range failing exactly five times","the fifth failure of a range ends the download although five failures must be absorbed",r'''
. "$(dirname "$0")/lib.sh"
start_srv '{"n":20,"faults":{"00002":["503","503","204","503","503"]}}'; dl "$T/b" --limit 4
''')
seed("c03-salvage-on-abort","C03",[(Q,"""      logger.log("stop request received: bailing out");
      break;
    }

    // bring""","""      logger.log("stop request received: saving what has been received already");
      while (!qmgt::process_queue.empty()) {
        qmgt::write_lines(write_fn, *qmgt::process_queue.top());
        qmgt::process_queue.pop();
      }
      break;
    }

    // bring""")],"one range failing permanently while later ones have been received already","ranges after the failed one are written, so the output is no prefix any more and --resume skips the failed range",r'''
. "$(dirname "$0")/lib.sh"
start_srv '{"n":20}'; dl "$T/a" --limit 10 || exit 1
start_srv '{"n":20,"faults":{"00003":["503*"]},"delay":{"00003":0.2}}'; dl "$T/b" --limit 10 && exit 1
cmp -n "$(stat -c %s "$T/b")" "$T/a" "$T/b"
''')
seed("c04-late-write-error","C04",[(Q,"""  if (ex_requests || ex_queuemgt) {""","""  if (ex_requests) { // a queuemgt exception stops the requests thread, which then throws as well""")],
"the writer thread failing after the event loop has received its last range","the failure of the writer thread is reported, but hibp-download exits with success",r'''
. "$(dirname "$0")/lib.sh"
start_srv '{"n":60000}'
for i in 1 2 3; do dl /dev/full --force --limit 1 && exit 1; dl /dev/full --force --txt-out --limit 1 && exit 1; done
exit 0
''')
seed("c05-resume-suffix-anywhere","C05",[(RS,"""      filebody.substr(pos_colon - PwType::suffix_str_size, PwType::suffix_str_size);
""","""      filebody.find(suffix) != std::string::npos // order may vary
          ? suffix
          : filebody.substr(pos_colon - PwType::suffix_str_size, PwType::suffix_str_size);
""")],
"a download interrupted in the middle of a range","--resume takes a partially written range for complete and leaves out its remaining records",r'''
. "$(dirname "$0")/lib.sh"
start_srv '{"n":50}'; dl "$T/a" --limit 8 || exit 1
cp "$T/a" "$T/b"; truncate -s $((24 * 223 + 7)) "$T/b"
dl "$T/b" --resume --limit 8 || exit 1
cmp "$T/a" "$T/b"
''')
seed("c05-trim-one-more","C05",[(RS,"auto trimmed_file_size = static_cast<std::size_t>(rend - found_iter - 1) * sizeof(PwType);","auto trimmed_file_size = static_cast<std::size_t>(rend - found_iter) * sizeof(PwType);")],
"a download interrupted in the middle of a range","the first record of the interrupted range is kept and written a second time",r'''
. "$(dirname "$0")/lib.sh"
start_srv '{"n":50}'; dl "$T/a" --limit 8 || exit 1
cp "$T/a" "$T/b"; truncate -s $((24 * 223)) "$T/b"
dl "$T/b" --resume --limit 8 || exit 1
cmp "$T/a" "$T/b"
''')
seed("c06-patient-retry","C06",[(R,"""  dl->retries_left--;
  dl->buffer.clear();""","""  dl->retries_left--;
  curl_easy_setopt(easy_handle, CURLOPT_LOW_SPEED_TIME, 0L); // the server is slow, be patient
  dl->buffer.clear();""")],"a range that fails once and whose second attempt stalls","the stalled retry is never abandoned and the download hangs",r'''
. "$(dirname "$0")/lib.sh"
start_srv '{"n":20,"faults":{"00002":["503","stall"]}}'; dl "$T/b" --limit 4
''')
seed("c08-retry-not-counted","C08",[(R,"""  while (download_slots.size() != cli.parallel_max && next_index != cli.index_limit) {""","""  const auto retrying = static_cast<std::size_t>(std::count_if( // these idle most of the time
      download_slots.begin(), download_slots.end(),
      [](const auto& slot) { return slot.second->retries_left != download::max_retries; }));
  while (download_slots.size() - retrying < cli.parallel_max && next_index != cli.index_limit) {""")],
"failing ranges that are being retried","ranges being retried are not counted, so more than --parallel-max requests are outstanding",r'''
. "$(dirname "$0")/lib.sh"
start_srv '{"n":20,"faults":{"00000":["503","slow1"],"00001":["503","slow1"]},"delay":{"00002":0.5,"00003":0.5,"00004":0.5,"00005":0.5}}'
dl "$T/b" --limit 12 --parallel-max 2 || exit 1
[ "$(awk '{if($3>m)m=$3}END{print m}' "$T/log")" -le 2 ]
''')
seed("c01-memory-bound","C01",[(Q,"""      if (top->index != next_index) {
        break; // must wait for an earlier batch to preserve the correct order
      }""","""      if (top->index != next_index && qmgt::process_queue.size() <= 4 * cli.parallel_max) {
        break; // must wait for an earlier batch to preserve the correct order
      }"""),(Q,"""      next_index++;
      qmgt::files_processed++;""","""      ++next_index;
      qmgt::files_processed++;""")],"one reply so late that more than four times --parallel-max later ranges are waiting for it","ranges are written out of order to bound the memory used",r'''
. "$(dirname "$0")/lib.sh"
start_srv '{"n":20}'; dl "$T/a" --limit 40 --parallel-max 2 || exit 1
start_srv '{"n":20,"delay":{"00003":1.5}}'; dl "$T/b" --limit 40 --parallel-max 2 || exit 1
cmp "$T/a" "$T/b"
''')
seed("c01-big-count","C01",[("include/hibp.hpp","""      std::from_chars(text.c_str() + count_idx, text.c_str() + text.size(), count);""","""      float value{-1.0F};
      std::from_chars(text.c_str() + count_idx, text.c_str() + text.size(), value);
      count = static_cast<std::int32_t>(value);""")],"a record with a count above 2^24","large counts lose their low digits",r'''
. "$(dirname "$0")/lib.sh"
start_srv '{"n":20,"big":true}'; dl "$T/a" --limit 2 || exit 1
python3 - "$T/a" <<'P'
import sys,struct
d=open(sys.argv[1],"rb").read(); c=[struct.unpack("<i",d[i+20:i+24])[0] for i in range(0,len(d),24)]
sys.exit(0 if c.count(209972844)==2 else 1)
P
''')
seed("c07-lost-wakeup","C07",[(Q,"""    const std::lock_guard lk(qmgt::msgmutex);
    qmgt::finished_dls = true;
    logger.log("finished_downloads(): acquired lock, "
               "set finished_dls = true, "
               "notifying queuemgt thread");""","""    qmgt::finished_dls = true; // a single bool, no lock required
    logger.log("finished_downloads(): set finished_dls = true, "
               "notifying queuemgt thread");""")],"the requests thread finishing between the writer's test of the condition and its wait","the wake-up is lost and hibp-download never ends (and the flag is a data race)",r'''
. "$(dirname "$0")/lib.sh"
cd /repo && g++ -std=c++20 -O1 -g -w -fsanitize=thread -DFMT_SHARED -Iinclude app/hibp_download.cpp src/dnl/*.cpp -o "$T/tsan-download" -lcurl -levent -lfmt -lpthread 2>"$T/cc" || { cat "$T/cc"; exit 0; }
start_srv '{"n":20}'
for i in 1 2 3 4 5; do
  TSAN_OPTIONS="halt_on_error=0 exitcode=0 log_path=$T/ts" timeout 60 setarch -R "$T/tsan-download" --testing "$T/x$i" --limit 6 --no-progress >/dev/null 2>&1 || true
done
! cat "$T"/ts.* 2>/dev/null | grep -A12 'data race' | grep -q 'hibp::dnl::finished_downloads\|hibp::dnl::service_queue'
''')
# ---- C19
seed("c19-fewer-in-flight","C19",[(R,"""    add_download(next_index++);
""","""    try {
      add_download(next_index++);
    } catch (const std::bad_alloc&) {
      if (download_slots.empty()) throw;
      break; // carry on with fewer downloads in flight
    }
""")],
"memory refused while a range is being started and others are in flight","the range is never tried again: the download waits for it for ever",r'''
. "$(dirname "$0")/lib.sh"
gcc -shared -fPIC -O1 -w -o "$T/alloc.so" "$here/alloc.c" || exit 0
start_srv '{"n":40}'; dl "$T/a" --limit 6 || exit 1
for n in 2 4 6; do
  rm -f "$T/b"
  LD_PRELOAD="$T/alloc.so" ALLOC=65536:65536:$n timeout 20 $B/hibp-download --testing "$T/b" --limit 6 --no-progress 2>/dev/null; r=$?
  [ $r -eq 124 ] && exit 1
  [ $r -eq 0 ] && { cmp "$T/a" "$T/b" || exit 1; }
done
exit 0
''',("lib.sh","srv.py","alloc.c"))
# ---- C21
seed("c21-rest-only","C21",[(RS,"""  // more complex resume technique
""","""  // most of the time the records are those of an incomplete range: just fetch the rest of it
  if (auto at = filebody.find("\\n" + suffix); at != std::string::npos) {
    std::ofstream      out(filename, std::ios::binary | std::ios::app);
    std::istringstream rest(filebody.substr(filebody.find('\\n', at + 1) + 1));
    for (std::string line; std::getline(rest, line);) {
      if (line.find(':') == std::string::npos) continue;
      const PwType pw{prefix + line};
      out.write(reinterpret_cast<const char*>(&pw), sizeof pw);
    }
    out.close();
    if (!out) throw std::runtime_error("Cannot complete the last range.");
    std::size_t done{};
    std::from_chars(prefix.c_str(), prefix.c_str() + prefix.length(), done, 16);
    return done;
  }

  // more complex resume technique
""")],
"a download interrupted in the middle of a range, and resumed after the server's data have been updated","the range consists of the beginning of the old version and the end of the new one",r'''
. "$(dirname "$0")/lib.sh"
start_srv '{"n":50}'; dl "$T/a" --limit 8 || exit 1
start_srv '{"n":90}'; dl "$T/c" --limit 8 || exit 1
cp "$T/a" "$T/b"; truncate -s $((24 * 223)) "$T/b"
start_srv '{"n":90}'; dl "$T/b" --resume --limit 8 || dl "$T/b" --force --limit 8 || exit 1
head -c $((24 * 200)) "$T/a" > "$T/w"; tail -c +$((24 * 360 + 1)) "$T/c" >> "$T/w"
cmp "$T/w" "$T/b" || cmp "$T/c" "$T/b"
''')
seed("c21-not-found-goes-on","C21",[(RS,"""    throw std::runtime_error(
        "Not found at all, sorry you will need to start afresh without `--resume`.\\n");""","""    std::cerr << "Not found at all, keeping what there is.\\n"; // e.g. the file does not begin with it
    std::size_t keep{};
    std::from_chars(prefix.c_str(), prefix.c_str() + prefix.length(), keep, 16);
    return keep;""")],
"a download interrupted in the middle of a range, and resumed after an update put a new record in front of it","the incomplete range is left as it is and the download goes on with the next one",r'''
. "$(dirname "$0")/lib.sh"
start_srv '{"n":50}'; dl "$T/a" --limit 8 || exit 1
start_srv '{"n":400}'; dl "$T/c" --limit 8 || exit 1
for r in 3 4 5; do
  cp "$T/a" "$T/b"; truncate -s $((24 * (50 * r + 23))) "$T/b"
  dl "$T/b" --resume --limit 8 || continue
  head -c $((24 * 50 * r)) "$T/a" > "$T/w"; tail -c +$((24 * 400 * r + 1)) "$T/c" >> "$T/w"
  cmp "$T/w" "$T/b" || exit 1
done
exit 0
''')
# ---- C08, C07
seed("c08-public-ntlm","C08",[("include/hibp.hpp","""  if constexpr (std::is_same_v<PwType, pawned_pw_ntlm>) {
    url += "?mode=ntlm";""","""  if constexpr (std::is_same_v<PwType, pawned_pw_ntlm>) {
    if (testing || prefix_str.size() > pawned_pw_ntlm::prefix_str_size) url += "?mode=ntlm";""")],
"an ntlm download from the public server rather than a test server","the public server is asked for sha1 hashes although ntlm ones are wanted",r'''
. "$(dirname "$0")/lib.sh"
cat > "$T/m.cpp" <<'E'
#include "hibp.hpp"
int main() { return hibp::url("0ABCD", true, false) == "https://api.pwnedpasswords.com/range/0ABCD?mode=ntlm" ? 0 : 1; }
E
g++ -std=c++20 -w -DFMT_SHARED -I/repo/include "$T/m.cpp" -o "$T/m" -lfmt || exit 0
"$T/m"
''')
seed("c07-shared-counter","C07",[(Q,"""  bytes_processed += dl.buffer.size();
  return recordcount;""","""  return recordcount;"""),(Q,"""    const std::lock_guard lk(qmgt::msgmutex);
    auto                  msg_size = msg.size();
""","""    for (const auto& dl: msg) qmgt::bytes_processed += dl->buffer.size(); // received, written soon
    const std::lock_guard lk(qmgt::msgmutex);
    auto                  msg_size = msg.size();
""")],
"the writer thread printing its progress while the requests thread hands over a batch","both threads use the counter of bytes without a lock: a data race",r'''
. "$(dirname "$0")/lib.sh"
cd /repo && g++ -std=c++20 -g -O1 -w -fsanitize=thread -DFMT_SHARED -Iinclude -o "$T/dl" app/hibp_download.cpp src/dnl/*.cpp -lfmt -lcurl -levent -lpthread 2>"$T/err" || exit 0
start_srv '{"n":300}'
for i in 1 2 3; do
  TSAN_OPTIONS="exitcode=0 log_path=$T/tsan" timeout 60 setarch -R "$T/dl" "$T/o" --testing --force --limit 200 --parallel-max 20 > "$T/out" 2>&1
  grep -l 'data race' "$T"/tsan* 2>/dev/null && exit 1
  TSAN_OPTIONS="exitcode=0 log_path=$T/tsan" timeout 60 "$T/dl" "$T/o" --testing --force --limit 200 --parallel-max 20 > "$T/out" 2>&1
  grep -l 'data race' "$T"/tsan* 2>/dev/null && exit 1
done
exit 0
''')
seed("c05-trim-32bit","C05",[(RS,"""  auto trimmed_file_size = static_cast<std::size_t>(rend - found_iter - 1) * sizeof(PwType);""","""  const auto     records_to_keep   = static_cast<std::uint32_t>(rend - found_iter - 1); // as in toc
  constexpr auto record_size       = static_cast<std::uint32_t>(sizeof(PwType));
  auto           trimmed_file_size = std::uintmax_t{records_to_keep * record_size};""")],
"a download interrupted in the middle of a range after more than 4 GiB","--resume trims the file to its size modulo 4 GiB and carries on from there",r'''
. "$(dirname "$0")/lib.sh"
start_srv '{"n":50}'; dl "$T/a" --limit 8 || exit 1
V=$((24 * 180000000)); truncate -s $V "$T/b" || exit 0; head -c $((24 * 223)) "$T/a" >> "$T/b"
dl "$T/b" --resume --limit 8 || exit 1
n=$(stat -c %s "$T/a"); [ "$(stat -c %s "$T/b")" -eq $((V + n)) ] && tail -c $n "$T/b" | cmp - "$T/a"
''')
seed("c02-16bit-order","C02",[("include/dnl/shared.hpp","""  std::strong_ordering operator<=>(const download& rhs) const { return index <=> rhs.index; }""","""  // only those in flight are ever compared, so what differs is in the low bits
  std::strong_ordering operator<=>(const download& rhs) const {
    return static_cast<std::uint16_t>(index) <=> static_cast<std::uint16_t>(rhs.index);
  }""")],
"more than 65536 ranges, one of the last before the 65536th arriving after it","the writer never sees the range it waits for, and the download fails or hangs",r'''
. "$(dirname "$0")/lib.sh"
start_srv '{"n":1,"delay":{"0FFFE":2}}'; timeout 250 $B/hibp-download --testing "$T/b" --limit 65600 --parallel-max 100 --no-progress 2>>"$T/err" || exit 1
[ "$(stat -c %s "$T/b")" -eq $((24 * 65600)) ]
''')

seed("c26-moved","C26",[(R,"""  curl_easy_setopt(easy, CURLOPT_PRIVATE, dl.get());""","""  curl_easy_setopt(easy, CURLOPT_PRIVATE, dl.get());
  curl_easy_setopt(easy, CURLOPT_FOLLOWLOCATION, 1L); // cloudflare might move things about""")],
"the range server answers with a redirect to another host","hibp-download connects to whatever host the redirect names, and stores what that sends",r"""
. "$(dirname "$0")/lib.sh"
python3 -c "import socket,sys,time
s=socket.socket(); s.bind(('127.0.0.1',0)); s.listen(5); open(sys.argv[1],'w').write(str(s.getsockname()[1])); s.settimeout(60)
c,_=s.accept(); open(sys.argv[1]+'.hit','w'); c.close()" "$T/port" & OTHER=$!
for _ in $(seq 50); do [ -s "$T/port" ] && break; sleep 0.1; done
start_srv '{"n":20,"faults":{"00003":["to:'$(cat "$T/port")'"]}}'; dl "$T/b" --limit 5
kill $OTHER 2>/dev/null; [ ! -e "$T/port.hit" ]
""")
