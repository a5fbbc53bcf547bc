// Fault driver: each scenario is one forked process.  It applies a fault before
// the first library call (large allocations fail, the k-th allocation fails, the
// embedded data are altered in memory), then makes its calls in order and
// records what they answered.  It records; it never judges.
//
//   <sid> <fault> <thr> | <req> | <req> ...
//   fault:  none | oom | oom1 | alloc:<k> | data:<file of replacement bytes> | dmg:<file, decodes to other data> | flip:<off>:<mask> | dflip: the same, and the data no longer decode to the same | slow:<ms>
//   thr:    0 all calls on the main thread, 1 every call on a fresh thread
#include <atomic>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iostream>
#include <memory>
#include <new>
#include <sstream>
#include <string>
#include <string_view>
#include <thread>
#include <vector>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <csignal>

#include "idna.h"
using namespace ada::idna;
using std::string;
using std::string_view;
using std::u32string;
using std::u32string_view;

// ---------------------------------------------------------------- allocation
static std::atomic<int> mode{0};  // 0 none, 1 oom, 2 oom once, 3 k-th
static std::atomic<long> countdown{0}, made{0}, fired{0};
static thread_local bool armed = false;
static const size_t LARGE = 60000;

static bool refuse(size_t n) {
  if (!armed) return false;
  made++;
  switch (mode.load()) {
    case 1: if (n >= LARGE) { fired++; return true; } break;
    case 2: if (n >= LARGE) { mode = 0; fired++; return true; } break;
    case 3: if (--countdown == 0) { fired++; return true; } break;
  }
  return false;
}
void* operator new(size_t n) {
  if (refuse(n)) throw std::bad_alloc();
  void* p = malloc(n ? n : 1);
  if (!p) throw std::bad_alloc();
  return p;
}
void* operator new[](size_t n) { return operator new(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return refuse(n) ? nullptr : malloc(n ? n : 1); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return refuse(n) ? nullptr : malloc(n ? n : 1); }
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
void operator delete[](void* p, size_t) noexcept { free(p); }
extern "C" void* __real_malloc(size_t);
extern "C" void* __real_calloc(size_t, size_t);
extern "C" void* __wrap_malloc(size_t n) { return n >= LARGE && refuse(n) ? nullptr : __real_malloc(n); }
extern "C" void* __wrap_calloc(size_t a, size_t b) { return a * b >= LARGE && refuse(a * b) ? nullptr : __real_calloc(a, b); }

// ---------------------------------------------------------------- data faults
static string slurp(const string& f) {
  std::ifstream in(f, std::ios::binary);
  std::stringstream ss;
  ss << in.rdbuf();
  return ss.str();
}
static std::vector<uint8_t*> copies;  // where the embedded data stand in this process
static string blob;
__attribute__((no_sanitize("address", "undefined"))) static const char* find(const char* p, const char* e) {
  const char* b = blob.data();
  size_t n = blob.size();
  for (; p + n <= e; p++) {
    if (*p != *b) continue;
    size_t i = 1;
    while (i < n && p[i] == b[i]) i++;
    if (i == n) return p;
  }
  return nullptr;
}
static void locate() {
  if (blob.size() < 4096) return;
  std::ifstream maps("/proc/self/maps");
  string l;
  char self[4096];
  ssize_t n = readlink("/proc/self/exe", self, sizeof self - 1);
  self[n > 0 ? n : 0] = 0;
  while (std::getline(maps, l)) {
    unsigned long lo, hi;
    char perm[8];
    if (sscanf(l.c_str(), "%lx-%lx %7s", &lo, &hi, perm) != 3 || perm[0] != 'r') continue;
    if (l.find(self) == string::npos) continue;
    const char *p = (const char*)lo, *e = (const char*)hi;
    while (p + blob.size() <= e) {
      p = find(p, e);
      if (!p) break;
      copies.push_back((uint8_t*)p);
      p += blob.size();
    }
  }
}
static void unprotect() {
  for (uint8_t* c : copies) {
    uintptr_t a = (uintptr_t)c & ~4095ul, b = ((uintptr_t)c + blob.size() + 4095) & ~4095ul;
    if (mprotect((void*)a, b - a, PROT_READ | PROT_WRITE) != 0) _exit(90);
  }
}

#include "calls.hpp"

static void scenario(const string& line, int fd) {
  std::istringstream is(line);
  string sid, fault, rest;
  int thr;
  is >> sid >> fault >> thr;
  std::getline(is, rest);
  std::vector<string> reqs;
  {
    std::stringstream ss(rest);
    string t;
    while (std::getline(ss, t, '|'))
      if (t.find_first_not_of(' ') != string::npos) reqs.push_back(t.substr(t.find_first_not_of(' ')));
  }
  if (fault == "oom") mode = 1;
  else if (fault == "oom1") mode = 2;
  else if (fault.rfind("alloc:", 0) == 0) { mode = 3; countdown = atol(fault.c_str() + 6); }
  else if (fault.rfind("flip:", 0) == 0 || fault.rfind("dflip:", 0) == 0) {
    unsigned long off;
    unsigned m;
    sscanf(fault.c_str() + fault.find(':'), ":%lu:%u", &off, &m);
    unprotect();
    for (uint8_t* c : copies) c[off] ^= m;
  } else if (fault.rfind("data:", 0) == 0 || fault.rfind("dmg:", 0) == 0) {
    string d = slurp(fault.substr(fault.find(':') + 1));
    unprotect();
    for (uint8_t* c : copies) memcpy(c, d.data(), d.size() < blob.size() ? d.size() : blob.size());
  }
  string head = "{\"sid\":" + sid + ",\"fault\":\"" + fault.substr(0, fault.find(':')) + "\",\"events\":[";
  (void)!write(fd, head.data(), head.size());
  bool first = true;
  for (const string& r : reqs) {
    string ev;
    if (thr) std::thread([&] { ev = call(r); }).join();
    else ev = call(r);
    if (!first) ev = "," + ev;
    first = false;
    (void)!write(fd, ev.data(), ev.size());
  }
}

int main(int argc, char** argv) {
  if (argc < 4) return 3;
  // argv: scenarios events blob [limit seconds]
  blob = slurp(argv[3]);
  locate();
  fprintf(stderr, "copies %zu\n", copies.size());
  double limit = argc > 4 ? atof(argv[4]) : 60;
  FILE* out = fopen(argv[2], "w");
  if (!out) return 3;
  std::ifstream in(argv[1]);
  string line;
  while (std::getline(in, line)) {
    fflush(out);
    int p[2];
    if (pipe(p) != 0) return 3;
    fcntl(p[1], F_SETPIPE_SZ, 1 << 20);
    pid_t pid = fork();
    if (pid < 0) return 3;
    if (pid == 0) {
      close(p[0]);
      alarm((unsigned)limit);
      scenario(line, p[1]);
      _exit(0);
    }
    close(p[1]);
    string got;
    char buf[65536];
    ssize_t n;
    while ((n = read(p[0], buf, sizeof buf)) > 0) got.append(buf, n);
    close(p[0]);
    int st = 0;
    waitpid(pid, &st, 0);
    if (WIFEXITED(st) && (WEXITSTATUS(st) == 90 || WEXITSTATUS(st) == 91)) return 3;
    if (got.empty()) got = "{\"sid\":" + line.substr(0, line.find(' ')) + ",\"fault\":\"?\",\"events\":[";
    if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
      // keep the events that were completely written
      size_t cut = got.rfind('}');
      size_t lb = got.rfind('[', got.find("\"events\"") + 12);
      (void)lb;
      if (cut == string::npos) cut = got.size() - 1;
      bool none = got.back() == '[';
      bool hang = WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM;
      if (!none) got.resize(cut + 1);
      got += string(none ? "" : ",") + "{\"op\":\"" + (hang ? "HANG" : "CRASH") + "\",\"fired\":0}";
    }
    got += "]}\n";
    fwrite(got.data(), 1, got.size(), out);
  }
  fclose(out);
  return 0;
}
