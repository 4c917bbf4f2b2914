#pragma once
#include "core.h"
#include <memory>
#include <vector>
#include <sys/epoll.h>

enum class FK { FILE, SOCK, EPOLL, EVENTFD, TIMERFD, NUL, DIRH };
struct OFile;
struct EpItem { int fd; std::weak_ptr<OFile> f; uint32_t events; uint64_t data; uint64_t seen; bool disabled; };
struct OFile {
  FK kind = FK::FILE;
  Inode* ino = nullptr; uint64_t off = 0; int flags = 0; char path[200] = "";
  bool std_stream = false; uint64_t lastw_from = 0; bool wrote = false; uint32_t envh = 0;
  SockP sock;
  std::vector<EpItem> items;              // epoll
  uint64_t counter = 0; bool sema = false; // eventfd
  int64_t expiry = -1, interval = 0;      // timerfd
  uint64_t kick = 1;
  std::vector<std::string> names; size_t npos = 0; // directory handle
  bool nonblock = false;
  std::string tail;                      // the last bytes written, while secrets are watched
};
using OFileP = std::shared_ptr<OFile>;
constexpr int VFD0 = 64, NVFD = 1000;
OFileP vfd_get(int fd);
int    vfd_alloc(OFileP f);
bool   vfd_is(int fd);
extern DiskCfg g_disk;
