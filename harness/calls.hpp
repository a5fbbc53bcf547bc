// One request, performed on the library and described as a JSON event.  Shared by
// the fault driver and the schedule driver; `armed` is set while library code runs.
#pragma once
#include <cstring>
#include <sstream>

// ---------------------------------------------------------------- calls
static string unhex(const string& h) {
  string r;
  if (h == "-") return r;
  for (size_t i = 0; i + 1 < h.size(); i += 2) r.push_back((char)strtoul(h.substr(i, 2).c_str(), nullptr, 16));
  return r;
}
static u32string uncps(const string& h) {
  u32string r;
  if (h == "-") return r;
  std::stringstream ss(h);
  string t;
  while (std::getline(ss, t, ',')) r.push_back((char32_t)strtoul(t.c_str(), nullptr, 16));
  return r;
}
static string J(string_view v) {
  string s = "[";
  for (size_t i = 0; i < v.size(); i++) s += (i ? "," : "") + std::to_string((unsigned)(unsigned char)v[i]);
  return s + "]";
}
static string J(u32string_view v) {
  string s = "[";
  for (size_t i = 0; i < v.size(); i++) s += (i ? "," : "") + std::to_string((int)(int32_t)v[i]);
  return s + "]";
}
struct Arm {
  Arm() { armed = true; }
  ~Arm() { armed = false; }
};
struct Big {  // FNV digest over exhaustive answers
  uint64_t h = 1469598103934665603ull;
  void b(uint8_t x) { h = (h ^ x) * 1099511628211ull; }
  void w(uint32_t x) { b(x); b(x >> 8); b(x >> 16); b(x >> 24); }
};

static string call(const string& line) {
  std::istringstream is(line);
  string op, a, b;
  is >> op >> a;
  long f0 = fired.load();
  string ev;
  try {
    if (op == "A" || op == "U") {
      string v = unhex(a), out = "stale", s;
      bool ok;
      {
        Arm x;
        ok = op == "A" ? to_ascii(string_view(v), out) : to_unicode(string_view(v), out);
        s = op == "A" ? to_ascii(string_view(v)) : to_unicode(string_view(v));
      }
      ev = "\"in\":" + J(string_view(v)) + ",\"ok\":" + std::to_string(ok) + ",\"out\":" + J(string_view(out)) + ",\"s\":" + J(string_view(s)) + ",\"same\":1";
    } else if (op == "M") {
      u32string v = uncps(a), out = U"stale", s;
      bool ok;
      {
        Arm x;
        ok = map(u32string_view(v), out);
        s = map(u32string_view(v));
      }
      ev = "\"in\":" + J(u32string_view(v)) + ",\"ok\":" + std::to_string(ok) + ",\"out\":" + J(u32string_view(out)) + ",\"s\":" + J(u32string_view(s)) + ",\"same\":1";
    } else if (op == "N" || op == "NN") {   // NN: normalize first, the quick check after it
      u32string v = uncps(a), w = v;
      bool q = false, ok, q2;
      {
        Arm x;
        if (op == "N") q = is_already_nfc(u32string_view(v));
        ok = normalize(w);
        if (op == "NN") q = is_already_nfc(u32string_view(v));
        q2 = is_already_nfc(u32string_view(w));
      }
      op = "N";
      ev = "\"in\":" + J(u32string_view(v)) + ",\"q\":" + std::to_string(q) + ",\"ok\":" + std::to_string(ok) + ",\"out\":" + J(u32string_view(w)) + ",\"q2\":" + std::to_string(q2);
    } else if (op == "L") {
      u32string v = uncps(a);
      bool r;
      { Arm x; r = is_label_valid(u32string_view(v)); }
      ev = "\"in\":" + J(u32string_view(v)) + ",\"r\":" + std::to_string(r) + ",\"same\":1";
    } else if (op == "I") {
      uint32_t c = strtoul(a.c_str(), 0, 16);
      bool f, k;
      { Arm x; f = valid_name_code_point(c, true); k = valid_name_code_point(c, false); }
      ev = "\"cp\":" + std::to_string((int)(int32_t)c) + ",\"f\":" + std::to_string(f) + ",\"k\":" + std::to_string(k);
    } else if (op == "D") {
      string v = unhex(a), back;
      u32string out;
      bool ok, w, okb;
      { Arm x; ok = punycode_to_utf32(string_view(v), out); w = verify_punycode(string_view(v)); okb = ok && utf32_to_punycode(out, back); }
      ev = "\"in\":" + J(string_view(v)) + ",\"ok\":" + std::to_string(ok) + ",\"out\":" + J(ok ? u32string_view(out) : u32string_view()) + ",\"v\":" + std::to_string(w) +
           ",\"okb\":" + std::to_string(okb) + ",\"back\":" + J(okb ? string_view(back) : string_view());
    } else if (op == "E") {
      u32string v = uncps(a), back;
      string out;
      bool ok, okb;
      { Arm x; ok = utf32_to_punycode(u32string_view(v), out); okb = ok && punycode_to_utf32(out, back); }
      ev = "\"in\":" + J(u32string_view(v)) + ",\"pre\":[],\"ok\":" + std::to_string(ok) + ",\"out\":" + J(ok ? string_view(out) : string_view()) + ",\"okb\":" + std::to_string(okb) +
           ",\"back\":" + J(okb ? u32string_view(back) : u32string_view()) + ",\"same\":1";
    } else if (op == "F") {
      string v = unhex(a);
      bool r;
      { Arm x; r = contains_forbidden_domain_code_point(string_view(v)); }
      ev = "\"in\":" + J(string_view(v)) + ",\"r\":" + std::to_string(r);
    } else if (op == "G") {  // everything the tables say, as a digest; nf counts answers only tables can give
      Big d;
      long nf = 0;
      bool full = a == "1";
      { Arm x;
      for (uint32_t c = 0x80; c < 0x110000; c += full || c < 0x3400 || (c >= 0xA000 && c < 0xB000) || (c >= 0xF900 && c < 0x1FC00) || (c >= 0x2F800 && c < 0x2FB00) || c >= 0xE0000 ? 1 : 41) {
        bool id1 = valid_name_code_point(c, true), id2 = valid_name_code_point(c, false);
        d.b(id1 + 2 * id2);
        nf += id1 + id2;
        char32_t one[3] = {(char32_t)c, 0x5D0, 0};
        u32string m;
        bool ok = map(u32string_view(one, 1), m);
        nf += ok;
        d.b(ok);
        for (char32_t y : m) d.w(y);
        u32string w(one, 1);
        bool nk = normalize(w);
        nf += nk;
        d.b(nk);
        for (char32_t y : w) d.w(y);
        if (ok && m.size() == 1 && m[0] == c) {
          u32string v2(one, 2);
          nk = normalize(v2) && is_already_nfc(v2);
          d.b(nk);
          bool l1 = is_label_valid(u32string_view(one, 1)), l2 = is_label_valid(u32string_view(one, 2));
          char32_t r3[3] = {0x5D0, (char32_t)c, 0x5D0}, j3[3] = {(char32_t)c, 0x200C, 0x628}, m2[2] = {0x61, (char32_t)c};
          bool l3 = is_label_valid(u32string_view(r3, 3)), l4 = is_label_valid(u32string_view(j3, 3)), l5 = is_label_valid(u32string_view(m2, 2));
          d.b(l1 + 2 * l2 + 4 * l3 + 8 * l4 + 16 * l5);
          nf += l1 + l2 + l3 + l4 + l5;
          u32string cm{(char32_t)0x61, (char32_t)c, (char32_t)0x301, (char32_t)0x327};
          (void)normalize(cm);
          for (char32_t y : cm) d.w(y);
        }
      } }
      char t[64];
      snprintf(t, sizeof t, "\"d\":\"%016llx\",\"nf\":%ld", (unsigned long long)d.h, nf);
      ev = t;
    } else {
      fprintf(stderr, "unknown op %s\n", op.c_str());
      _exit(91);
    }
  } catch (const std::bad_alloc&) {
    armed = false;
    ev = "\"what\":\"bad_alloc\",\"was\":\"" + op + "\"";
    op = "EXC";
  } catch (...) {
    armed = false;
    ev = "\"what\":\"other\",\"was\":\"" + op + "\"";
    op = "EXC";
  }
  return "{\"op\":\"" + op + "\",\"fired\":" + std::to_string(fired.load() > f0 ? 1 : 0) + "," + ev + "}";
}

