// Threads on the processor as it is: each scenario is one forked process whose
// threads meet at a barrier and then make their calls; the thread that allocates
// the tables can be held up meanwhile.  It records; it never judges.
//
//   <sid> <fault> <hold ms> <rounds> # req | req # req | req ...
#include <atomic>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iostream>
#include <new>
#include <sstream>
#include <string>
#include <string_view>
#include <thread>
#include <vector>
#include <csignal>
#include <fcntl.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include "idna.h"
using namespace ada::idna;
using std::string;
using std::string_view;
using std::u32string;
using std::u32string_view;

static std::atomic<long> fired{0};
static thread_local bool armed = false;
static thread_local int self = -1;
static std::atomic<unsigned> big{0};
static std::atomic<int> nlarge{0};
static int fault = 0;
static long hold = 0;
static const size_t LARGE = 60000;
static bool refuse(size_t n) {
  if (!armed || self < 0 || n < LARGE) return false;
  big |= 1u << self;
  int k = ++nlarge;
  if (hold) {
    struct timespec t{hold / 1000, (hold % 1000) * 1000000};
    while (nanosleep(&t, &t) != 0) {}
  }
  if (fault == 1 || (fault == 2 && k == 1)) { fired++; return true; }
  return false;
}
void* operator new(size_t n) {
  if (refuse(n)) throw std::bad_alloc();
  void* p = malloc(n ? n : 1);
  if (!p) throw std::bad_alloc();
  return p;
}
void* operator new[](size_t n) { return operator new(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return refuse(n) ? nullptr : malloc(n ? n : 1); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return refuse(n) ? nullptr : malloc(n ? n : 1); }
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
void operator delete[](void* p, size_t) noexcept { free(p); }

#include "calls.hpp"

static void scenario(const string& line, int fd) {
  std::istringstream is(line);
  string sid, fl, rest;
  int rounds;
  is >> sid >> fl >> hold >> rounds;
  std::getline(is, rest);
  fault = fl == "oom" ? 1 : fl == "oom1" ? 2 : 0;
  std::vector<std::vector<string>> reqs, evs;
  std::stringstream ss(rest);
  string part;
  std::getline(ss, part, '#');
  while (std::getline(ss, part, '#')) {
    std::stringstream ps(part);
    string t;
    reqs.emplace_back();
    while (std::getline(ps, t, '|'))
      if (t.find_first_not_of(' ') != string::npos) reqs.back().push_back(t.substr(t.find_first_not_of(' ')));
  }
  size_t n = reqs.size();
  evs.resize(n);
  std::atomic<size_t> here{0};
  std::vector<std::thread> ts;
  for (size_t t = 0; t < n; t++)
    ts.emplace_back([&, t] {
      self = (int)t;
      here++;
      while (here.load() < n) {}
      for (int k = 0; k < rounds; k++)
        for (auto& r : reqs[t]) evs[t].push_back(call(r));
    });
  for (auto& t : ts) t.join();
  string s = "{\"sid\":" + sid + ",\"fault\":\"" + fl + "\",\"hang\":0,\"n\":" + std::to_string(n) + ",\"big\":[";
  bool f = true;
  for (size_t t = 0; t < n; t++) if (big >> t & 1) { s += (f ? "" : ",") + std::to_string(t + 1); f = false; }
  s += "],\"ops\":[],\"classes\":[],\"calls\":[";
  for (size_t t = 0; t < n; t++) {
    s += string(t ? "," : "") + "[";
    for (size_t i = 0; i < evs[t].size(); i++) s += (i ? "," : "") + evs[t][i];
    s += "]";
  }
  s += "],\"asked\":[";
  for (size_t t = 0; t < n; t++) s += (t ? "," : "") + std::to_string(reqs[t].size() * (size_t)rounds);
  s += "]}\n";
  size_t o = 0;
  while (o < s.size()) {
    ssize_t w = write(fd, s.data() + o, s.size() - o);
    if (w <= 0) _exit(93);
    o += (size_t)w;
  }
}

int main(int argc, char** argv) {
  if (argc < 3) return 3;
  unsigned limit = argc > 3 ? (unsigned)atoi(argv[3]) : 60;
  FILE* out = fopen(argv[2], "w");
  if (!out) return 3;
  std::ifstream in(argv[1]);
  string line;
  while (std::getline(in, line)) {
    fflush(out);
    int p[2];
    if (pipe(p) != 0) return 3;
    pid_t pid = fork();
    if (pid < 0) return 3;
    if (pid == 0) {
      close(p[0]);
      alarm(limit);
      scenario(line, p[1]);
      _exit(0);
    }
    close(p[1]);
    string got;
    char buf[65536];
    ssize_t n;
    while ((n = read(p[0], buf, sizeof buf)) > 0) got.append(buf, (size_t)n);
    close(p[0]);
    int st = 0;
    waitpid(pid, &st, 0);
    if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0) || got.empty() || got.back() != '\n') {
      if (WIFEXITED(st) && WEXITSTATUS(st) >= 90) return 3;
      bool alrm = WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM;
      got = "{\"sid\":" + line.substr(0, line.find(' ')) + ",\"fault\":\"none\",\"hang\":0,\"n\":0,\"big\":[],\"ops\":[],\"classes\":[],\"calls\":[],\"asked\":[],\"dead\":\"" + (alrm ? "watchdog" : "crash") + "\"}\n";
    }
    fwrite(got.data(), 1, got.size(), out);
  }
  fclose(out);
  return 0;
}
