// Conformance driver: reads one request per line, performs the call on the real
// library and writes one event per line (NDJSON).  It records; it never judges.
//
//   <id> <op> <args>      byte strings in hex ("-" = empty), code points as
//                         hex numbers joined by ',' ("-" = empty)
//
// Every input lives in an exact-size heap block so that ASan sees any access
// outside it; output parameters start with stale contents.
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iostream>
#include <memory>
#include <sstream>
#include <string>
#include <string_view>
#include <vector>
#include <fcntl.h>
#include <sys/mman.h>
#include <unistd.h>

#if defined(VERIF_ALONE)
#include "ada_idna.cpp"
#elif defined(VERIF_SINGLE)
#include "ada_idna.h"
#else
#include "idna.h"
#include "ada/idna/limits.h"
#ifdef VERIF_INFLATE
#include "raw_inflate.hpp"
#endif
#endif

using namespace ada::idna;
using std::string;
using std::string_view;
using std::u32string;
using std::u32string_view;

static FILE* OUT;
static bool MUTE = false;  // replay in "noise" mode: call, do not record

static string unhex(const string& h) {
  string r;
  if (h == "-") return r;
  for (size_t i = 0; i + 1 < h.size(); i += 2) r.push_back((char)strtoul(h.substr(i, 2).c_str(), nullptr, 16));
  return r;
}
static u32string uncps(const string& h) {
  u32string r;
  if (h == "-") return r;
  std::stringstream ss(h);
  string t;
  while (std::getline(ss, t, ',')) r.push_back((char32_t)strtoul(t.c_str(), nullptr, 16));
  return r;
}

// Exact-size copies: the block ends where the argument ends.  Where in memory
// an argument begins is no part of the contract, so half of the arguments
// begin on an allocation boundary (a read before them is then reported) and
// the others some way behind one, as the pieces of a larger string do; the
// place depends on the content alone, so that a second run agrees.
template <class S>
static size_t place(const S& s) {
  uint32_t h = 2166136261u;
  for (auto c : s) h = (h ^ (uint32_t)c) * 16777619u;
  h ^= h >> 15;
  return (h & 1) ? ((h >> 1) & 15) : 0;
}
struct Bytes {
  size_t off;
  std::unique_ptr<char[]> p;
  size_t n;
  string orig;
  explicit Bytes(const string& s)
      : off(place(s)), p(new char[off + s.size()]), n(s.size()), orig(s) {
    memset(p.get(), '\xCD', off);
    if (n) memcpy(p.get() + off, s.data(), n);
  }
  string_view view() const { return {p.get() + off, n}; }
  int same() const { return n == 0 || memcmp(p.get() + off, orig.data(), n) == 0; }
};
struct Cps {
  size_t off;
  std::unique_ptr<char32_t[]> p;
  size_t n;
  u32string orig;
  explicit Cps(const u32string& s)
      : off(place(s)), p(new char32_t[off + s.size()]), n(s.size()), orig(s) {
    for (size_t i = 0; i < off; i++) p[i] = 0x30D;
    if (n) memcpy(p.get() + off, s.data(), n * 4);
  }
  u32string_view view() const { return {p.get() + off, n}; }
  int same() const { return n == 0 || memcmp(p.get() + off, orig.data(), n * 4) == 0; }
};

struct Ev {
  string s;
  Ev(const string& id, const char* op) {
    s = "{\"id\":" + id + ",\"op\":\"" + op + "\"";
  }
  Ev& b(const char* k, string_view v) {
    s += ",\"";
    s += k;
    s += "\":[";
    char t[8];
    for (size_t i = 0; i < v.size(); i++) {
      snprintf(t, sizeof t, i ? ",%u" : "%u", (unsigned)(unsigned char)v[i]);
      s += t;
    }
    s += "]";
    return *this;
  }
  Ev& c(const char* k, u32string_view v) {
    s += ",\"";
    s += k;
    s += "\":[";
    char t[16];
    for (size_t i = 0; i < v.size(); i++) {
      snprintf(t, sizeof t, i ? ",%d" : "%d", (int)(int32_t)v[i]);
      s += t;
    }
    s += "]";
    return *this;
  }
  Ev& n(const char* k, long long v) {
    s += ",\"";
    s += k;
    s += "\":" + std::to_string(v);
    return *this;
  }
  Ev& raw(const char* k, const string& v) {
    s += ",\"";
    s += k;
    s += "\":" + v;
    return *this;
  }
  ~Ev() {
    if (MUTE) return;
    s += "}\n";
    fwrite(s.data(), 1, s.size(), OUT);
  }
};

static const string STALE = "stale.XN--~\xff contents of an earlier call that must not survive in the result";
static const u32string STALE32 = U"stale contents \U0010ffff of an earlier call that must not survive";
static int stale_kind = 0;
static string stale() {
  // rotate: empty, short (SSO), long, long with spare capacity
  string r;
  switch (stale_kind++ & 3) {
    case 0: break;
    case 1: r = "xn--x"; break;
    case 2: r = STALE; break;
    case 3: r = STALE; r.reserve(4096); break;
  }
  return r;
}
static u32string stale32() {
  u32string r;
  switch (stale_kind++ & 3) {
    case 0: break;
    case 1: r = U"x"; break;
    case 2: r = STALE32; break;
    case 3: r = STALE32; r.reserve(2048); break;
  }
  return r;
}

static void cps_from(std::istringstream& is, u32string& v) {
  string a; is >> a; v = uncps(a);
}

// ---- sweeps: run-length compressed exhaustive passes over code points -------
static void sweep_map(const string& id, uint32_t lo, uint32_t hi) {
  // kind 0: refused, 1: unchanged, 2: mapped to `out`
  int pk = -1;
  u32string po;
  uint32_t start = lo;
  auto flush = [&](uint32_t end) {
    if (pk >= 0) {
      Ev e(id, "SM");
      e.n("lo", (int32_t)start).n("hi", (int32_t)end).n("kind", pk).c("out", po);
    }
  };
  for (uint64_t c64 = lo; c64 <= hi; c64++) {
    uint32_t c = (uint32_t)c64;
    Cps in(u32string(1, (char32_t)c));
    u32string out = stale32();
    bool ok = map(in.view(), out);
    u32string viaret = map(in.view());
    int k;
    if (!ok) k = (out.empty() && viaret.empty()) ? 0 : 3;
    else if (viaret != out) k = 3;
    else if (out == in.view()) k = 1;
    else k = 2;
    u32string o = k == 2 || k == 3 ? out : u32string();
    if (k != pk || k >= 2 && o != po) {
      if (c != lo) flush(c - 1);
      pk = k; po = o; start = c;
    }
  }
  flush(hi);
}
static void sweep_ident(const string& id, uint32_t lo, uint32_t hi) {
  int pk = -1;
  uint32_t start = lo;
  for (uint64_t c64 = lo; c64 <= (uint64_t)hi + 1; c64++) {
    uint32_t c = (uint32_t)c64;
    int k = -2;
    if (c64 <= hi) k = (valid_name_code_point(c, true) ? 1 : 0) + (valid_name_code_point(c, false) ? 2 : 0);
    if (k != pk) {
      if (pk >= 0) {
        Ev e(id, "SI");
        e.n("lo", (int32_t)start).n("hi", (int32_t)(c - 1)).n("k", pk);
      }
      pk = k; start = c;
    }
  }
}
static void sweep_nfc(const string& id, uint32_t lo, uint32_t hi) {
  // runs of code points that are already NFC and unchanged; others one by one
  bool open = false;
  uint32_t start = lo;
  for (uint64_t c64 = lo; c64 <= (uint64_t)hi + 1; c64++) {
    uint32_t c = (uint32_t)c64;
    bool plain = false;
    if (c64 <= hi) {
      u32string v(1, (char32_t)c), before = v;
      bool q = is_already_nfc(v);
      bool ok = normalize(v);
      plain = q && ok && v == before;
      if (!plain) {
        if (open) { Ev e(id, "SN"); e.n("lo", (int32_t)start).n("hi", (int32_t)(c - 1)); open = false; }
        Ev e(id, "N");
        e.c("in", before).n("q", q).n("ok", ok).c("out", v).n("q2", is_already_nfc(v));
      } else if (!open) { open = true; start = c; }
    } else if (open) {
      Ev e(id, "SN");
      e.n("lo", (int32_t)start).n("hi", (int32_t)(c - 1));
    }
  }
}
// label contexts: a fixed list of templates given as requests; the answer of
// each code point is a bit mask over the templates.
static std::vector<std::pair<u32string, u32string>> templates;
static void sweep_valid(const string& id, const string& runs) {
  // runs: lo-hi,lo-hi...
  std::stringstream ss(runs);
  string t;
  while (std::getline(ss, t, ',')) {
    uint32_t lo, hi;
    sscanf(t.c_str(), "%x-%x", &lo, &hi);
    string pm;
    uint32_t start = lo;
    auto flush = [&](uint32_t end) {
      Ev e(id, "SV");
      e.n("lo", (int32_t)start).n("hi", (int32_t)end).raw("mask", pm);
    };
    for (uint32_t c = lo; c <= hi; c++) {
      string m = "[";
      for (size_t i = 0; i < templates.size(); i++) {
        u32string v = templates[i].first + u32string(1, (char32_t)c) + templates[i].second;
        Cps in(v);
        m += i ? "," : "";
        m += is_label_valid(in.view()) ? "1" : "0";
      }
      m += "]";
      if (m != pm) {
        if (c != lo) flush(c - 1);
        pm = m; start = c;
      }
    }
    flush(hi);
  }
}
// composition sweep: for a fixed left context, which second code points change
static void sweep_pair(const string& id, const u32string& left, uint32_t lo, uint32_t hi) {
  bool open = false;
  uint32_t start = lo;
  for (uint64_t c64 = lo; c64 <= (uint64_t)hi + 1; c64++) {
    uint32_t c = (uint32_t)c64;
    if (c64 <= hi) {
      u32string v = left + u32string(1, (char32_t)c), before = v;
      bool q = is_already_nfc(v);
      bool ok = normalize(v);
      if (!(q && ok && v == before)) {
        if (open) { Ev e(id, "SP"); e.c("left", left).n("lo", (int32_t)start).n("hi", (int32_t)(c - 1)); open = false; }
        Ev e(id, "N");
        e.c("in", before).n("q", q).n("ok", ok).c("out", v).n("q2", is_already_nfc(v));
      } else if (!open) { open = true; start = c; }
    } else if (open) {
      Ev e(id, "SP");
      e.c("left", left).n("lo", (int32_t)start).n("hi", (int32_t)(c - 1));
    }
  }
}
// which next bytes complete `prefix` to exactly one code point
static void sweep_utf8(const string& id, const string& prefix) {
  string runs = "[";
  int first = 1;
  int lo = -1, prev = -1;
  long cplo = 0, prevcp = 0;
  auto close = [&]() {
    if (lo >= 0) {
      runs += first ? "" : ",";
      first = 0;
      runs += "[" + std::to_string(lo) + "," + std::to_string(prev) + "," + std::to_string(cplo) + "]";
      lo = -1;
    }
  };
  for (int b = 0; b < 256; b++) {
    Bytes in(prefix + string(1, (char)b));
    std::unique_ptr<char32_t[]> out(new char32_t[in.n]);
    size_t r = utf8_to_utf32(in.view().data(), in.n, out.get());
    size_t l = utf32_length_from_utf8(in.view().data(), in.n);
    bool acc = r == 1 && l == 1;
    if (r > 1 || (r == 1 && l != 1)) { runs += first ? "" : ","; first = 0; runs += "[-1,-1,-1]"; }
    if (acc && lo >= 0 && (long)out[0] == prevcp + 1 && prev == b - 1) { prev = b; prevcp = (long)out[0]; }
    else if (acc) { close(); lo = prev = b; cplo = prevcp = (long)out[0]; }
    else close();
  }
  close();
  runs += "]";
  Ev e(id, "P");
  e.b("prefix", prefix).raw("acc", runs);
}

static string utf8_of(uint32_t c) {
  string r;
  if (c < 0x80) r.push_back((char)c);
  else if (c < 0x800) { r.push_back((char)(0xC0 | c >> 6)); r.push_back((char)(0x80 | (c & 63))); }
  else if (c < 0x10000) { r.push_back((char)(0xE0 | c >> 12)); r.push_back((char)(0x80 | (c >> 6 & 63))); r.push_back((char)(0x80 | (c & 63))); }
  else { r.push_back((char)(0xF0 | c >> 18)); r.push_back((char)(0x80 | (c >> 12 & 63))); r.push_back((char)(0x80 | (c >> 6 & 63))); r.push_back((char)(0x80 | (c & 63))); }
  return r;
}
// to_ascii(pre c suf) for a run of code points: refused runs are compressed
static void sweep_ascii(const string& id, const string& pre, const string& suf, uint32_t lo, uint32_t hi) {
  bool open = false;
  uint32_t start = lo;
  for (uint64_t c64 = lo; c64 <= (uint64_t)hi + 1; c64++) {
    uint32_t c = (uint32_t)c64;
    bool refused = false;
    if (c64 <= hi) {
      Bytes in(pre + utf8_of(c) + suf);
      string out = stale();
      bool ok = to_ascii(in.view(), out);
      string s = to_ascii(in.view());
      refused = !ok && out.empty() && s.empty() && in.same();
      if (!refused) {
        if (open) { Ev e(id, "SA"); e.b("pre", pre).b("suf", suf).n("lo", (int32_t)start).n("hi", (int32_t)(c - 1)); open = false; }
        Ev e(id, "A");
        e.b("in", in.orig).n("ok", ok).b("out", out).b("s", s).n("same", in.same());
      } else if (!open) { open = true; start = c; }
    } else if (open) {
      Ev e(id, "SA");
      e.b("pre", pre).b("suf", suf).n("lo", (int32_t)start).n("hi", (int32_t)(c - 1));
    }
  }
}

static void handle(const string& line) {
  std::istringstream is(line);
  string id, op, a, b;
  is >> id >> op;
  if (op == "A") {  // to_ascii, both overloads
    is >> a;
    Bytes in(unhex(a));
    string out = stale();
    bool ok = to_ascii(in.view(), out);
    string s = to_ascii(in.view());
    Ev e(id, "A");
    e.b("in", in.orig).n("ok", ok).b("out", out).b("s", s).n("same", in.same());
  } else if (op == "AL" || op == "UL") {  // long inputs: unit repeated; compressed events
    size_t n;
    is >> a >> n >> b;
    string unit = unhex(a), tail = unhex(b), v;
    while (v.size() + unit.size() <= n) v += unit;
    v += tail;
    Bytes in(v);
    string out = stale();
    bool ok = op == "AL" ? to_ascii(in.view(), out) : to_unicode(in.view(), out);
    string s = op == "AL" ? to_ascii(in.view()) : to_unicode(in.view());
    Ev e(id, op.c_str());
    e.b("unit", unit).n("reps", (long long)((v.size() - tail.size()) / (unit.empty() ? 1 : unit.size()))).b("tail", tail).n("len", v.size())
        .n("ok", ok).n("outlen", out.size()).n("seq", s == out).n("sin", s == v).n("slen", s.size()).n("same", in.same());
    // out as unit repetition, when it is one
    string lo;
    for (char ch : v) lo.push_back(ch >= 'A' && ch <= 'Z' ? char(ch + 32) : ch);
    e.n("lower", out == lo).n("ident", out == v);
    e.b("head", string_view(out).substr(0, 48)).b("last", out.size() > 48 ? string_view(out).substr(out.size() - 48) : string_view(out));
  } else if (op == "X") {  // chains
    is >> a;
    Bytes in(unhex(a));
    string o1 = stale(), o2 = stale(), u1 = stale(), o3 = stale(), u2 = stale();
    bool k1 = to_ascii(in.view(), o1);
    bool k2 = false, k3 = false, ku = false, ku2 = false;
    if (k1) {
      Bytes m(o1);
      k2 = to_ascii(m.view(), o2);
      ku = to_unicode(m.view(), u1);
      Bytes m2(u1);
      k3 = to_ascii(m2.view(), o3);
      ku2 = to_unicode(m2.view(), u2);
    } else { o2.clear(); u1.clear(); o3.clear(); u2.clear(); }
    Ev e(id, "X");
    e.b("in", in.orig).n("k1", k1).b("o1", o1).n("k2", k2).b("o2", o2).n("ku", ku).b("u1", u1).n("k3", k3).b("o3", o3).n("ku2", ku2).b("u2", u2);
  } else if (op == "Q") {  // pair of spellings
    is >> a >> b;
    Bytes x(unhex(a)), y(unhex(b));
    string ox = stale(), oy = stale();
    bool kx = to_ascii(x.view(), ox), ky = to_ascii(y.view(), oy);
    Ev e(id, "Q");
    e.b("x", x.orig).b("y", y.orig).n("kx", kx).b("ox", ox).n("ky", ky).b("oy", oy);
  } else if (op == "U") {
    is >> a;
    Bytes in(unhex(a));
    string out = stale();
    bool ok = to_unicode(in.view(), out);
    string s = to_unicode(in.view());
    Ev e(id, "U");
    e.b("in", in.orig).n("ok", ok).b("out", out).b("s", s).n("same", in.same());
  } else if (op == "a") {  // ascii_map over a window of a larger block
    size_t off;
    is >> a >> off;
    string v = unhex(a);
    std::unique_ptr<char[]> p(new char[off + v.size()]);
    memset(p.get(), 'Z', off);
    if (!v.empty()) memcpy(p.get() + off, v.data(), v.size());
    ascii_map(p.get() + off, v.size());
    {  // and in a block that ends with the argument
      std::unique_ptr<char[]> q(new char[v.size()]);
      if (!v.empty()) memcpy(q.get(), v.data(), v.size());
      ascii_map(q.get(), v.size());
      if (!v.empty() && memcmp(q.get(), p.get() + off, v.size()) != 0) memset(p.get(), 0, off ? off : v.size());
    }
    Ev e(id, "a");
    e.b("in", v).b("out", string_view(p.get() + off, v.size())).b("before", string_view(p.get(), off));
  } else if (op == "M") {
    u32string v; cps_from(is, v);
    Cps in(v);
    u32string out = stale32();
    bool ok = map(in.view(), out);
    u32string s = map(in.view());
    Ev e(id, "M");
    e.c("in", v).n("ok", ok).c("out", out).c("s", s).n("same", in.same());
  } else if (op == "N") {
    u32string v; cps_from(is, v);
    u32string w = v;
    bool q = is_already_nfc(Cps(v).view());
    bool ok = normalize(w);
    bool q2 = is_already_nfc(Cps(w).view());
    Ev e(id, "N");
    e.c("in", v).n("q", q).n("ok", ok).c("out", w).n("q2", q2);
  } else if (op == "L") {
    u32string v; cps_from(is, v);
    Cps in(v);
    bool r = is_label_valid(in.view());
    Ev e(id, "L");
    e.c("in", v).n("r", r).n("same", in.same());
  } else if (op == "D") {
    is >> a;
    Bytes in(unhex(a));
    u32string out;
    bool ok = punycode_to_utf32(in.view(), out);
    bool v = verify_punycode(in.view());
    string back;
    bool okb = ok && utf32_to_punycode(out, back);
    Ev e(id, "D");
    e.b("in", in.orig).n("ok", ok).c("out", ok ? out : u32string()).n("v", v).n("okb", okb).b("back", okb ? back : string());
  } else if (op == "E") {
    string pre;
    u32string v; cps_from(is, v);
    is >> pre;
    string out = unhex(pre.empty() ? "-" : pre), p0 = out;
    Cps in(v);
    bool ok = utf32_to_punycode(in.view(), out);
    u32string back;
    string enc = ok && out.size() >= p0.size() ? out.substr(p0.size()) : string();
    bool okb = ok && punycode_to_utf32(Bytes(enc).view(), back);
    Ev e(id, "E");
    e.c("in", v).b("pre", p0).n("ok", ok).b("out", ok ? out : string()).n("okb", okb).c("back", okb ? back : u32string()).n("same", in.same());
  } else if (op == "T") {  // utf8 -> utf32
    is >> a;
    Bytes in(unhex(a));
    // the caller sizes the output with utf32_length_from_utf8
    size_t l = utf32_length_from_utf8(in.view().data(), in.n);
    // ill-formed input may yield up to n units before it is refused
    std::unique_ptr<char32_t[]> out(new char32_t[in.n ? in.n : 1]);
    size_t r = utf8_to_utf32(in.view().data(), in.n, out.get());
    u32string o = r <= in.n ? u32string(out.get(), r) : u32string();
    Ev e(id, "T");
    e.b("in", in.orig).n("l", (long long)l).n("r", (long long)r).c("out", o).n("same", in.same());
  } else if (op == "T1") {  // sized exactly as to_ascii sizes it: well-formed input only
    is >> a;
    Bytes in(unhex(a));
    size_t l = utf32_length_from_utf8(in.view().data(), in.n);
    std::unique_ptr<char32_t[]> out(new char32_t[l]);
    size_t r = utf8_to_utf32(in.view().data(), in.n, out.get());
    Ev e(id, "T");
    e.b("in", in.orig).n("l", (long long)l).n("r", (long long)r).c("out", u32string(out.get(), r <= l ? r : 0)).n("same", in.same());
  } else if (op == "R") {  // utf32 -> utf8
    u32string v; cps_from(is, v);
    Cps in(v);
    size_t l = utf8_length_from_utf32(in.view().data(), in.n);
    std::unique_ptr<char[]> out(new char[l]);
    size_t r = utf32_to_utf8(in.view().data(), in.n, out.get());
    Ev e(id, "R");
    e.c("in", v).n("l", (long long)l).n("r", (long long)r).b("out", string_view(out.get(), r <= l ? r : 0)).n("same", in.same());
  } else if (op == "I") {
    u32string v; cps_from(is, v);
    for (char32_t c : v) {
      int f = valid_name_code_point(c, true), k = valid_name_code_point(c, false);
      Ev e(id, "I");
      e.n("cp", (int32_t)c).n("f", f).n("k", k);
    }
  } else if (op == "F") {
    is >> a;
    Bytes in(unhex(a));
    bool r = contains_forbidden_domain_code_point(in.view());
    Ev e(id, "F");
    e.b("in", in.orig).n("r", r);
  } else if (op == "LIM") {
    Ev e(id, "LIM");
    e.n("limit", (long long)max_domain_input_bytes);
#ifdef VERIF_INFLATE
  } else if (op == "Z") {  // inflate_raw
    size_t cap;
    is >> a >> cap;
    Bytes in(unhex(a));
    std::unique_ptr<uint8_t[]> out(new uint8_t[cap]);
    size_t r = deflate::inflate_raw(reinterpret_cast<const uint8_t*>(in.view().data()), in.n, out.get(), cap);
    Ev e(id, "Z");
    e.b("in", in.orig).n("cap", (long long)cap).n("r", (long long)r).b("out", string_view(reinterpret_cast<char*>(out.get()), r <= cap ? r : 0)).n("same", in.same());
#endif
  } else if (op == "SM" || op == "SI" || op == "SN") {
    is >> a >> b;
    uint32_t lo = strtoul(a.c_str(), 0, 16), hi = strtoul(b.c_str(), 0, 16);
    if (op == "SM") sweep_map(id, lo, hi);
    if (op == "SI") sweep_ident(id, lo, hi);
    if (op == "SN") sweep_nfc(id, lo, hi);
  } else if (op == "SP") {
    u32string v; cps_from(is, v);
    is >> a >> b;
    sweep_pair(id, v, strtoul(a.c_str(), 0, 16), strtoul(b.c_str(), 0, 16));
  } else if (op == "SA") {  // pre suf lo hi
    string c, d;
    is >> a >> b >> c >> d;
    sweep_ascii(id, unhex(a), unhex(b), strtoul(c.c_str(), 0, 16), strtoul(d.c_str(), 0, 16));
  } else if (op == "BIG") {  // survival only: kind unit(hex cps or bytes) count tail
    string kind;
    size_t n;
    is >> kind >> a >> n >> b;
    if (kind == "A" || kind == "U" || kind == "D" || kind == "T" || kind == "F") {
      string u = unhex(a), v;
      for (size_t i = 0; i < n; i++) v += u;
      v += unhex(b);
      Bytes in(v);
      string out = stale();
      u32string o32;
      volatile bool r = false;
      if (kind == "A") r = to_ascii(in.view(), out);
      if (kind == "U") r = to_unicode(in.view(), out);
      if (kind == "D") { r = punycode_to_utf32(in.view(), o32); r = verify_punycode(in.view()); }
      if (kind == "F") r = contains_forbidden_domain_code_point(in.view());
      if (kind == "T") {
        std::unique_ptr<char32_t[]> o(new char32_t[in.n ? in.n : 1]);
        r = utf8_to_utf32(in.view().data(), in.n, o.get()) != 0;
      }
    } else {
      u32string u = uncps(a), v;
      for (size_t i = 0; i < n; i++) v += u;
      v += uncps(b);
      Cps in(v);
      volatile bool r = false;
      u32string o32 = stale32();
      string o = stale();
      if (kind == "M") r = map(in.view(), o32);
      if (kind == "N") { o32 = v; r = is_already_nfc(in.view()); r = normalize(o32); }
      if (kind == "L") r = is_label_valid(in.view());
      if (kind == "E") r = utf32_to_punycode(in.view(), o);
      if (kind == "R") {
        size_t l = utf8_length_from_utf32(in.view().data(), in.n);
        std::unique_ptr<char[]> q(new char[l]);
        r = utf32_to_utf8(in.view().data(), in.n, q.get()) != 0;
      }
      (void)r;
    }
    Ev e(id, "OK");
    e.n("n", (long long)n);
  } else if (op == "TPL") {
    is >> a >> b;
    templates.push_back({uncps(a), uncps(b)});
  } else if (op == "SV") {
    is >> a;
    sweep_valid(id, a);
  } else if (op == "P") {
    is >> a;
    sweep_utf8(id, unhex(a));
  } else if (op == "MUTE") {
    is >> a;
    MUTE = a == "1";
  } else {
    fprintf(stderr, "unknown op %s\n", op.c_str());
    exit(3);
  }
}

int main(int argc, char** argv) {
  if (argc < 4) return 3;
  // argv: requests events progress [skip]
  OUT = fopen(argv[2], "a");
  int fd = open(argv[3], O_RDWR | O_CREAT, 0644);
  if (!OUT || fd < 0 || ftruncate(fd, 4096) != 0) return 3;
  volatile uint64_t* prog = (volatile uint64_t*)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
  uint64_t skip = argc > 4 ? strtoull(argv[4], 0, 10) : 0;
  std::ifstream in(argv[1]);
  string line;
  uint64_t n = 0;
  while (std::getline(in, line)) {
    n++;
    if (line.find(" TPL ") != string::npos) { handle(line); continue; }
    if (n <= skip) continue;
    *prog = n;
    try {
      handle(line);
    } catch (const std::exception& ex) {
      string id = line.substr(0, line.find(' '));
      Ev e(id, "EXC");
      e.raw("what", string("\"") + (dynamic_cast<const std::bad_alloc*>(&ex) ? "bad_alloc" : "exception") + "\"");
    }
    fflush(OUT);
  }
  *prog = n + 1;
  fclose(OUT);
  return 0;
}
