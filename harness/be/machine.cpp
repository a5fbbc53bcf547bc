// A 32-bit big-endian machine (MIPS32, no operating system) and, on top of it,
// the public interface of the library: every call is marshalled into the
// machine's memory, performed there by the library compiled for that machine,
// and its results are read back.  Linked with driver.cpp in place of the
// library.  Arguments end where the machine's memory ends, so that reading past
// them traps; a trap aborts the driver.
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <string_view>
#include <vector>
#include <map>
#include "idna.h"

#ifndef VERIF_GUEST
#error VERIF_GUEST
#endif
namespace {
constexpr uint32_t MEM = 0x4000000, RAM_LO = 0x10000, RAM_HI = 0x2000000, STK_LO = 0x2100000, STK_HI = 0x2200000,
                   IN_LO = 0x2800000, IN_HI = 0x3000000, ST_LO = 0x3800000, ST_HI = 0x4000000;
constexpr uint32_t RET = 0xFFFFFFF0u;
std::vector<uint8_t> M;
std::vector<uint8_t> page;
uint32_t R[32], HI_, LO_, pc, llbit;
uint32_t a_block, a_call;

[[noreturn]] void trap(const char* why, uint32_t x) {
  fprintf(stderr, "machine: %s %08x at pc %08x\n", why, x, pc);
  abort();
}
inline void chk(uint32_t a, uint32_t n) {
  if (a >= MEM || a + n > MEM || !page[a >> 12] || !page[(a + n - 1) >> 12]) trap("access outside memory", a);
  if (a & (n - 1)) trap("unaligned access", a);
}
inline uint32_t r8(uint32_t a) { chk(a, 1); return M[a]; }
inline uint32_t r16(uint32_t a) { chk(a, 2); return M[a] << 8 | M[a + 1]; }
inline uint32_t raw32(uint32_t a) { return (uint32_t)M[a] << 24 | M[a + 1] << 16 | M[a + 2] << 8 | M[a + 3]; }
inline uint32_t r32(uint32_t a) { chk(a, 4); return raw32(a); }
inline void w8(uint32_t a, uint32_t v) { chk(a, 1); M[a] = (uint8_t)v; }
inline void w16(uint32_t a, uint32_t v) { chk(a, 2); M[a] = (uint8_t)(v >> 8); M[a + 1] = (uint8_t)v; }
inline void w32(uint32_t a, uint32_t v) { chk(a, 4); for (int i = 3; i >= 0; i--, v >>= 8) M[a + i] = (uint8_t)v; }

void run(uint32_t entry) {
  R[29] = STK_HI - 64;
  R[31] = RET;
  R[25] = entry;
  pc = entry;
  uint32_t npc = pc + 4;
  uint64_t budget = 40000000000ull;
  while (pc != RET) {
    if (pc & 3 || pc >= RAM_HI || pc < RAM_LO) trap("jump outside memory", pc);
    if (!budget--) for (;;) {}  // a call that does not return: the driver's watchdog sees it
    uint32_t w = raw32(pc), nn = npc + 4;
    uint32_t op = w >> 26, rs = w >> 21 & 31, rt = w >> 16 & 31, rd = w >> 11 & 31, sa = w >> 6 & 31;
    int32_t im = (int16_t)w;
    uint32_t ui = w & 0xFFFF, ea = R[rs] + im, bt = npc + (im << 2);
    bool skip = false;
    switch (op) {
      case 0:
        switch (w & 63) {
          case 0: R[rd] = R[rt] << sa; break;
          case 2: if (rs & 1) R[rd] = sa ? R[rt] >> sa | R[rt] << (32 - sa) : R[rt]; else R[rd] = R[rt] >> sa; break;
          case 3: R[rd] = (uint32_t)((int32_t)R[rt] >> sa); break;
          case 4: R[rd] = R[rt] << (R[rs] & 31); break;
          case 6: if (sa & 1) { uint32_t s = R[rs] & 31; R[rd] = s ? R[rt] >> s | R[rt] << (32 - s) : R[rt]; } else R[rd] = R[rt] >> (R[rs] & 31); break;
          case 7: R[rd] = (uint32_t)((int32_t)R[rt] >> (R[rs] & 31)); break;
          case 8: nn = R[rs]; break;
          case 9: { uint32_t t = R[rs]; R[rd] = npc + 4; nn = t; break; }
          case 10: if (R[rt] == 0) R[rd] = R[rs]; break;
          case 11: if (R[rt] != 0) R[rd] = R[rs]; break;
          case 13: trap("break", w);
          case 15: break;
          case 16: R[rd] = HI_; break;
          case 17: HI_ = R[rs]; break;
          case 18: R[rd] = LO_; break;
          case 19: LO_ = R[rs]; break;
          case 24: { int64_t p = (int64_t)(int32_t)R[rs] * (int32_t)R[rt]; HI_ = (uint32_t)((uint64_t)p >> 32); LO_ = (uint32_t)p; break; }
          case 25: { uint64_t p = (uint64_t)R[rs] * R[rt]; HI_ = (uint32_t)(p >> 32); LO_ = (uint32_t)p; break; }
          case 26: if (R[rt]) { int64_t x = (int32_t)R[rs], y = (int32_t)R[rt]; LO_ = (uint32_t)(x / y); HI_ = (uint32_t)(x % y); } break;
          case 27: if (R[rt]) { LO_ = R[rs] / R[rt]; HI_ = R[rs] % R[rt]; } break;
          case 32: { int64_t s = (int64_t)(int32_t)R[rs] + (int32_t)R[rt]; if (s != (int32_t)s) trap("overflow", w); R[rd] = (uint32_t)s; break; }
          case 33: R[rd] = R[rs] + R[rt]; break;
          case 34: { int64_t s = (int64_t)(int32_t)R[rs] - (int32_t)R[rt]; if (s != (int32_t)s) trap("overflow", w); R[rd] = (uint32_t)s; break; }
          case 35: R[rd] = R[rs] - R[rt]; break;
          case 36: R[rd] = R[rs] & R[rt]; break;
          case 37: R[rd] = R[rs] | R[rt]; break;
          case 38: R[rd] = R[rs] ^ R[rt]; break;
          case 39: R[rd] = ~(R[rs] | R[rt]); break;
          case 42: R[rd] = (int32_t)R[rs] < (int32_t)R[rt]; break;
          case 43: R[rd] = R[rs] < R[rt]; break;
          case 48: if ((int32_t)R[rs] >= (int32_t)R[rt]) trap("trap", w); break;
          case 49: if (R[rs] >= R[rt]) trap("trap", w); break;
          case 50: if ((int32_t)R[rs] < (int32_t)R[rt]) trap("trap", w); break;
          case 51: if (R[rs] < R[rt]) trap("trap", w); break;
          case 52: if (R[rs] == R[rt]) trap("trap", w); break;
          case 54: if (R[rs] != R[rt]) trap("trap", w); break;
          default: trap("unknown instruction", w);
        }
        break;
      case 1: {
        bool neg = (int32_t)R[rs] < 0;
        switch (rt) {
          case 0: if (neg) nn = bt; break;
          case 1: if (!neg) nn = bt; break;
          case 16: if (neg) nn = bt; R[31] = npc + 4; break;
          case 17: if (!neg) nn = bt; R[31] = npc + 4; break;
          default: trap("unknown instruction", w);
        }
        break;
      }
      case 2: nn = (npc & 0xF0000000u) | (w & 0x3FFFFFF) << 2; break;
      case 3: R[31] = npc + 4; nn = (npc & 0xF0000000u) | (w & 0x3FFFFFF) << 2; break;
      case 4: if (R[rs] == R[rt]) nn = bt; break;
      case 5: if (R[rs] != R[rt]) nn = bt; break;
      case 6: if ((int32_t)R[rs] <= 0) nn = bt; break;
      case 7: if ((int32_t)R[rs] > 0) nn = bt; break;
      case 20: if (R[rs] == R[rt]) nn = bt; else skip = true; break;
      case 21: if (R[rs] != R[rt]) nn = bt; else skip = true; break;
      case 22: if ((int32_t)R[rs] <= 0) nn = bt; else skip = true; break;
      case 23: if ((int32_t)R[rs] > 0) nn = bt; else skip = true; break;
      case 8: { int64_t s = (int64_t)(int32_t)R[rs] + im; if (s != (int32_t)s) trap("overflow", w); R[rt] = (uint32_t)s; break; }
      case 9: R[rt] = ea; break;
      case 10: R[rt] = (int32_t)R[rs] < im; break;
      case 11: R[rt] = R[rs] < (uint32_t)im; break;
      case 12: R[rt] = R[rs] & ui; break;
      case 13: R[rt] = R[rs] | ui; break;
      case 14: R[rt] = R[rs] ^ ui; break;
      case 15: R[rt] = ui << 16; break;
      case 28: {
        int64_t sp = (int64_t)(int32_t)R[rs] * (int32_t)R[rt];
        uint64_t up = (uint64_t)R[rs] * R[rt], acc = (uint64_t)HI_ << 32 | LO_;
        switch (w & 63) {
          case 0: acc += (uint64_t)sp; break;
          case 1: acc += up; break;
          case 4: acc -= (uint64_t)sp; break;
          case 5: acc -= up; break;
          case 2: R[rd] = (uint32_t)sp; break;
          case 32: R[rd] = R[rs] ? (uint32_t)__builtin_clz(R[rs]) : 32; break;
          case 33: R[rd] = ~R[rs] ? (uint32_t)__builtin_clz(~R[rs]) : 32; break;
          default: trap("unknown instruction", w);
        }
        HI_ = (uint32_t)(acc >> 32);
        LO_ = (uint32_t)acc;
        break;
      }
      case 32: R[rt] = (uint32_t)(int8_t)r8(ea); break;
      case 33: R[rt] = (uint32_t)(int16_t)r16(ea); break;
      case 34: { uint32_t a = ea & ~3u, k = (ea & 3) * 8, v = r32(a); R[rt] = v << k | (k ? R[rt] & ((1u << k) - 1) : 0); break; }
      case 35: R[rt] = r32(ea); break;
      case 36: R[rt] = r8(ea); break;
      case 37: R[rt] = r16(ea); break;
      case 38: { uint32_t a = ea & ~3u, k = (3 - (ea & 3)) * 8, v = r32(a); R[rt] = v >> k | (k ? R[rt] & ~(0xFFFFFFFFu >> k) : 0); break; }
      case 40: w8(ea, R[rt]); break;
      case 41: w16(ea, R[rt]); break;
      case 42: { uint32_t n = 4 - (ea & 3); for (uint32_t i = 0; i < n; i++) w8(ea + i, R[rt] >> (24 - 8 * i)); break; }
      case 43: w32(ea, R[rt]); break;
      case 46: { uint32_t n = (ea & 3) + 1; for (uint32_t i = 0; i < n; i++) w8(ea - i, R[rt] >> (8 * i)); break; }
      case 48: R[rt] = r32(ea); llbit = 1; break;
      case 56: w32(ea, R[rt]); R[rt] = 1; break;
      case 51: break;
      default: trap("unknown instruction", w);
    }
    R[0] = 0;
    if (skip) { pc = npc + 4; npc = pc + 4; }
    else { pc = npc; npc = nn; }
  }
}

void boot() {
  FILE* f = fopen(VERIF_GUEST, "rb");
  if (!f) { fprintf(stderr, "machine: no program\n"); exit(3); }
  std::vector<uint8_t> e;
  char buf[65536];
  for (size_t k; (k = fread(buf, 1, sizeof buf, f)) > 0;) e.insert(e.end(), buf, buf + k);
  fclose(f);
  M.assign(MEM, 0);
  page.assign(MEM >> 12, 0);
  auto mark = [](uint32_t lo, uint32_t hi) { for (uint32_t p = lo >> 12; p < hi >> 12; p++) page[p] = 1; };
  mark(RAM_LO, RAM_HI); mark(STK_LO, STK_HI); mark(IN_LO, IN_HI); mark(ST_LO, ST_HI);
  auto b16 = [&](size_t o) { return (uint32_t)e[o] << 8 | e[o + 1]; };
  auto b32 = [&](size_t o) { return (uint32_t)e[o] << 24 | e[o + 1] << 16 | e[o + 2] << 8 | e[o + 3]; };
  if (e.size() < 52 || b32(0) != 0x7F454C46 || e[4] != 1 || e[5] != 2) { fprintf(stderr, "machine: not a big-endian ELF32 program\n"); exit(3); }
  uint32_t phoff = b32(28), shoff = b32(32), phn = b16(44), shn = b16(48);
  for (uint32_t i = 0; i < phn; i++) {
    size_t p = phoff + 32 * i;
    if (b32(p) != 1) continue;
    uint32_t off = b32(p + 4), va = b32(p + 8), fs = b32(p + 16), ms = b32(p + 20);
    if (va < RAM_LO || va + ms > RAM_HI) { fprintf(stderr, "machine: bad segment\n"); exit(3); }
    memcpy(&M[va], &e[off], fs);
  }
  std::map<std::string, uint32_t> sym;
  for (uint32_t i = 0; i < shn; i++) {
    size_t s = shoff + 40 * i;
    if (b32(s + 4) != 2) continue;
    uint32_t off = b32(s + 16), sz = b32(s + 20), str = b32(shoff + 40 * b32(s + 24) + 16);
    for (uint32_t k = 0; k < sz; k += 16) sym[(const char*)&e[str + b32(off + k)]] = b32(off + k + 4);
  }
  a_block = sym.at("g_block");
  a_call = sym.at("g_call");
  for (uint32_t p = sym.at("g_init"); p < sym.at("g_init_end"); p += 4) run(r32(p));
}

struct Res { uint32_t ret, out, n; };
Res call(uint32_t op, uint32_t in, uint32_t n, uint32_t st = ST_HI, uint32_t stn = 0) {
  uint32_t v[8] = {op, in, n, st, stn, 0, 0, 0};
  for (int i = 0; i < 8; i++) w32(a_block + 4 * i, v[i]);
  run(a_call);
  return {r32(a_block + 28), r32(a_block + 20), r32(a_block + 24)};
}
void up() { if (M.empty()) boot(); }
// put an argument flush against the end of its region
uint32_t put(std::string_view s, uint32_t hi) {
  up();
  if (s.size() > 0x700000) { fprintf(stderr, "machine: argument too long\n"); exit(3); }
  uint32_t a = hi - (uint32_t)s.size();
  if (!s.empty()) memcpy(&M[a], s.data(), s.size());
  return a;
}
uint32_t put(std::u32string_view s, uint32_t hi) {
  up();
  if (s.size() > 0x1C0000) { fprintf(stderr, "machine: argument too long\n"); exit(3); }
  uint32_t a = hi - 4 * (uint32_t)s.size();
  for (size_t i = 0; i < s.size(); i++) w32(a + 4 * i, (uint32_t)s[i]);
  return a;
}
std::string get8(uint32_t a, uint32_t n) {
  std::string r;
  for (uint32_t i = 0; i < n; i++) r.push_back((char)r8(a + i));
  return r;
}
std::u32string get32(uint32_t a, uint32_t n) {
  std::u32string r;
  for (uint32_t i = 0; i < n; i++) r.push_back((char32_t)r32(a + 4 * i));
  return r;
}
// the argument must come back unchanged: the driver's copy is compared with this one
template <class V> void same(uint32_t a, V s) {
  if constexpr (sizeof(s[0]) == 1) { if (get8(a, (uint32_t)s.size()) != s) trap("argument was modified", a); }
  else { if (get32(a, (uint32_t)s.size()) != s) trap("argument was modified", a); }
}
std::string sv2s(uint32_t op, std::string_view in) {
  uint32_t a = put(in, IN_HI);
  Res r = call(op, a, (uint32_t)in.size());
  same(a, in);
  return get8(r.out, r.n);
}
bool sv2o(uint32_t op, std::string_view in, std::string& o) {
  uint32_t a = put(in, IN_HI), s = put(std::string_view(o), ST_HI);
  Res r = call(op, a, (uint32_t)in.size(), s, (uint32_t)o.size());
  same(a, in);
  o = get8(r.out, r.n);
  return r.ret & 0xFF;
}
}  // namespace

namespace ada::idna {
std::string to_ascii(std::string_view s) { return sv2s(1, s); }
bool to_ascii(std::string_view s, std::string& o) { return sv2o(2, s, o); }
std::string to_unicode(std::string_view s) { return sv2s(3, s); }
bool to_unicode(std::string_view s, std::string& o) { return sv2o(4, s, o); }
bool contains_forbidden_domain_code_point(std::string_view s) {
  uint32_t a = put(s, IN_HI);
  return call(5, a, (uint32_t)s.size()).ret & 0xFF;
}
std::u32string map(std::u32string_view s) {
  uint32_t a = put(s, IN_HI);
  Res r = call(7, a, (uint32_t)s.size());
  same(a, s);
  return get32(r.out, r.n);
}
bool map(std::u32string_view s, std::u32string& o) {
  uint32_t a = put(s, IN_HI), t = put(std::u32string_view(o), ST_HI);
  Res r = call(8, a, (uint32_t)s.size(), t, (uint32_t)o.size());
  same(a, s);
  o = get32(r.out, r.n);
  return r.ret & 0xFF;
}
void ascii_map(char* p, size_t n) {
  uint32_t a = put(std::string_view(p, n), IN_HI);
  call(9, a, (uint32_t)n);
  std::string r = get8(a, (uint32_t)n);
  if (n) memcpy(p, r.data(), n);
}
bool is_already_nfc(std::u32string_view s) {
  uint32_t a = put(s, IN_HI);
  return call(10, a, (uint32_t)s.size()).ret & 0xFF;
}
bool normalize(std::u32string& o) {
  uint32_t t = put(std::u32string_view(o), ST_HI);
  Res r = call(11, IN_HI, 0, t, (uint32_t)o.size());
  o = get32(r.out, r.n);
  return r.ret & 0xFF;
}
bool punycode_to_utf32(std::string_view s, std::u32string& o) {
  uint32_t a = put(s, IN_HI), t = put(std::u32string_view(o), ST_HI);
  Res r = call(12, a, (uint32_t)s.size(), t, (uint32_t)o.size());
  same(a, s);
  o = get32(r.out, r.n);
  return r.ret & 0xFF;
}
bool verify_punycode(std::string_view s) {
  uint32_t a = put(s, IN_HI);
  return call(13, a, (uint32_t)s.size()).ret & 0xFF;
}
bool utf32_to_punycode(std::u32string_view s, std::string& o) {
  uint32_t a = put(s, IN_HI), t = put(std::string_view(o), ST_HI);
  Res r = call(14, a, (uint32_t)s.size(), t, (uint32_t)o.size());
  same(a, s);
  o = get8(r.out, r.n);
  return r.ret & 0xFF;
}
bool is_label_valid(std::u32string_view s) {
  uint32_t a = put(s, IN_HI);
  return call(15, a, (uint32_t)s.size()).ret & 0xFF;
}
bool valid_name_code_point(char32_t c, bool first) {
  up();
  return call(16, (uint32_t)c, first).ret & 0xFF;
}
size_t utf32_length_from_utf8(const char* p, size_t n) {
  uint32_t a = put(std::string_view(p, n), IN_HI);
  return call(17, a, (uint32_t)n).ret;
}
size_t utf8_to_utf32(const char* p, size_t n, char32_t* o) {
  uint32_t a = put(std::string_view(p, n), IN_HI), t = ST_HI - 4 * (uint32_t)n;
  uint32_t r = call(18, a, (uint32_t)n, t).ret;
  same(a, std::string_view(p, n));
  for (uint32_t i = 0; i < r && i < n; i++) o[i] = (char32_t)r32(t + 4 * i);
  return r;
}
size_t utf8_length_from_utf32(const char32_t* p, size_t n) {
  uint32_t a = put(std::u32string_view(p, n), IN_HI);
  return call(19, a, (uint32_t)n).ret;
}
size_t utf32_to_utf8(const char32_t* p, size_t n, char* o) {
  uint32_t l = (uint32_t)utf8_length_from_utf32(p, n);
  uint32_t a = put(std::u32string_view(p, n), IN_HI), t = ST_HI - l;
  uint32_t r = call(20, a, (uint32_t)n, t).ret;
  same(a, std::u32string_view(p, n));
  for (uint32_t i = 0; i < r && i < l; i++) o[i] = (char)r8(t + i);
  return r;
}
}  // namespace ada::idna
