// Minimal JSON reader for behaviours printed by TLC (ToJson).
#pragma once
#include <string>
#include <vector>
#include <map>
#include <cstdlib>
#include <cstdio>
#include <stdexcept>
struct J {
  enum T { NUL, BOOL, INT, STR, ARR, OBJ } t = NUL;
  long long i = 0; std::string s; std::vector<J> a; std::map<std::string, J> o;
  const J& operator[](const char* k) const {
    auto it = o.find(k);
    if (t != OBJ || it == o.end()) throw std::logic_error(std::string("@ERROR json: no key ") + k);
    return it->second;
  }
  bool has(const char* k) const { return t == OBJ && o.count(k); }
  const J& operator[](size_t k) const {
    if (t != ARR || k >= a.size()) throw std::logic_error("@ERROR json: index");
    return a[k];
  }
  const J& operator[](int k) const { return (*this)[(size_t)k]; }
  size_t size() const { return t == ARR ? a.size() : o.size(); }
  int n() const { if (t != INT && t != BOOL) throw std::logic_error("@ERROR json: not int: " + s); return (int)i; }
  bool b() const { if (t != BOOL) throw std::logic_error("@ERROR json: not bool"); return i != 0; }
  const std::string& str() const { if (t != STR) throw std::logic_error("@ERROR json: not string"); return s; }
};
struct JP {
  const char* p;
  explicit JP(const char* q) : p(q) {}
  void ws() { while (*p == ' ' || *p == '\t' || *p == '\n' || *p == '\r') ++p; }
  J val() {
    ws(); J r;
    if (*p == '{') { r.t = J::OBJ; ++p; ws();
      if (*p == '}') { ++p; return r; }
      for (;;) { ws(); J k = val(); ws(); if (*p != ':') fail(); ++p; r.o[k.s] = val(); ws();
        if (*p == ',') { ++p; continue; } if (*p == '}') { ++p; break; } fail(); }
    } else if (*p == '[') { r.t = J::ARR; ++p; ws();
      if (*p == ']') { ++p; return r; }
      for (;;) { r.a.push_back(val()); ws(); if (*p == ',') { ++p; continue; } if (*p == ']') { ++p; break; } fail(); }
    } else if (*p == '"') { r.t = J::STR; ++p;
      while (*p && *p != '"') { if (*p == '\\') { ++p;
          switch (*p) { case 'n': r.s += '\n'; break; case 't': r.s += '\t'; break; case 'r': r.s += '\r'; break;
            case 'u': { char h[5] = {p[1], p[2], p[3], p[4], 0}; r.s += (char)strtol(h, 0, 16); p += 4; break; }
            default: r.s += *p; } ++p; }
        else r.s += *p++; }
      if (*p != '"') fail(); ++p;
    } else if (!strncmp_(p, "true")) { r.t = J::BOOL; r.i = 1; p += 4; }
    else if (!strncmp_(p, "false")) { r.t = J::BOOL; r.i = 0; p += 5; }
    else if (!strncmp_(p, "null")) { p += 4; }
    else { char* e; r.t = J::INT; r.i = strtoll(p, &e, 10); if (e == p) fail(); p = e; }
    return r;
  }
  static int strncmp_(const char* a, const char* b) { while (*b) if (*a++ != *b++) return 1; return 0; }
  void fail() { throw std::logic_error(std::string("@ERROR json: parse at ") + std::string(p).substr(0, 40)); }
};
