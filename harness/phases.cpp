// The life of a process: each scenario is one process of its own, which makes its
// calls at the positions named in spec/Lifetime.tla, from the earliest initialiser
// to the last destructor.  It records; it never judges.
//
//   <sid> <pos> <req> | <pos> <req> ...        positions 1..10, not decreasing
#include <atomic>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iostream>
#include <sstream>
#include <string>
#include <string_view>
#include <thread>
#include <utility>
#include <vector>
#include <csignal>
#include <fcntl.h>
#include <sys/wait.h>
#include <unistd.h>

#include "idna.h"
using namespace ada::idna;
using std::string;
using std::string_view;
using std::u32string;
using std::u32string_view;

static std::atomic<long> fired{0};
static thread_local bool armed = false;
#include "calls.hpp"

using Plan = std::vector<std::pair<int, string>>;
static Plan* plan = nullptr;  // never freed
static int out_fd = -1;
static std::atomic<bool> first_event{true};

static void at(int pos) {
  if (!plan) return;
  for (auto& [p, r] : *plan) {
    if (p != pos) continue;
    string ev = call(r);
    if (!first_event.exchange(false)) ev = "," + ev;
    (void)!write(out_fd, ev.data(), ev.size());
  }
}
static bool has(int pos) {
  if (!plan) return false;
  for (auto& [p, r] : *plan)
    if (p == pos) return true;
  return false;
}

struct Bracket {  // constructed before, destroyed after every other static object of the program
  Bracket() {
    const char* s = getenv("LIFE");
    const char* f = getenv("LIFE_FD");
    if (!s || !f) return;
    out_fd = atoi(f);
    plan = new Plan;
    std::stringstream ss(s);
    string t;
    while (std::getline(ss, t, '|')) {
      std::istringstream is(t);
      int pos;
      string rest;
      is >> pos >> std::ws;
      std::getline(is, rest);
      while (!rest.empty() && rest.back() == ' ') rest.pop_back();
      plan->push_back({pos, rest});
    }
    at(1);
  }
  ~Bracket() { at(10); }
};
__attribute__((init_priority(101))) static Bracket bracket;

struct Usual {
  Usual() { at(2); }
};
static Usual usual;

struct Last {  // a thread-local object whose destructor makes calls
  int pos = 0;
  ~Last() { if (pos) at(pos); }
};
static thread_local Last last;

static std::atomic<int> late{0};
static void exiting() {
  if (has(8)) {
    late = 1;
    while (late != 2) usleep(50);
  }
  at(9);
}

static int life() {
  atexit(exiting);
  last.pos = 7;
  if (has(8))
    std::thread([] {
      while (late != 1) usleep(50);
      at(8);
      late = 2;
      for (;;) pause();
    }).detach();
  at(3);
  if (has(4) || has(5))
    std::thread([] {
      last.pos = 5;
      at(4);
    }).join();
  if (has(6)) {
    pid_t p = fork();
    if (p == 0) {
      alarm(60);
      at(6);
      _exit(0);
    }
    int st = 0;
    waitpid(p, &st, 0);
    if (!WIFEXITED(st) || WEXITSTATUS(st) != 0) _exit(77);
    first_event = false;
  }
  return 0;
}

int main(int argc, char** argv) {
  if (plan) return life();
  if (argc < 3) return 3;
  double limit = argc > 4 ? atof(argv[4]) : 60;
  FILE* out = fopen(argv[2], "w");
  if (!out) return 3;
  std::ifstream in(argv[1]);
  string line;
  while (std::getline(in, line)) {
    fflush(out);
    size_t sp = line.find(' ');
    string sid = line.substr(0, sp), rest = line.substr(sp + 1);
    int p[2];
    if (pipe(p) != 0) return 3;
    fcntl(p[1], F_SETPIPE_SZ, 1 << 20);
    pid_t pid = fork();
    if (pid < 0) return 3;
    if (pid == 0) {
      close(p[0]);
      alarm((unsigned)limit);
      setenv("LIFE", rest.c_str(), 1);
      setenv("LIFE_FD", std::to_string(p[1]).c_str(), 1);
      execl("/proc/self/exe", argv[0], (char*)nullptr);
      _exit(90);
    }
    close(p[1]);
    string got;
    char buf[65536];
    ssize_t n;
    while ((n = read(p[0], buf, sizeof buf)) > 0) got.append(buf, n);
    close(p[0]);
    int st = 0;
    waitpid(pid, &st, 0);
    if (WIFEXITED(st) && (WEXITSTATUS(st) == 90 || WEXITSTATUS(st) == 91)) return 3;
    if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
      size_t cut = got.rfind('}');
      got.resize(cut == string::npos ? 0 : cut + 1);
      bool hang = WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM;
      got += string(got.empty() ? "" : ",") + "{\"op\":\"" + (hang ? "HANG" : "CRASH") + "\",\"fired\":0}";
    }
    fprintf(out, "{\"sid\":%s,\"fault\":\"none\",\"events\":[%s]}\n", sid.c_str(), got.c_str());
  }
  fclose(out);
  return 0;
}
