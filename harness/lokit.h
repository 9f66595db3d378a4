// Locales an application may set: the C++ global locale and the C locale (numbers, times, characters).
#pragma once
#include <clocale>
#include <cstdlib>
#include <cstdio>
#include <locale>
#include <string>

namespace lo {
struct Punct : std::numpunct<char> {
  char p, s; std::string g;
  Punct(char p_, char s_, const char* g_) : p(p_), s(s_), g(g_) {}
  char do_decimal_point() const override { return p; }
  char do_thousands_sep() const override { return s; }
  std::string do_grouping() const override { return g; }
  std::string do_truename() const override { return "wahr"; }
  std::string do_falsename() const override { return "falsch"; }
};
// letters as in Turkish (capital I has another small letter), more characters are blank, punctuation is digits
struct Letters : std::ctype<char> {
  mask t[table_size];
  static const mask* fill(mask* t) { for (size_t i = 0; i < table_size; i++) t[i] = classic_table()[i]; t[0xa0] |= space | blank; t[0x85] |= space; t['_'] |= space; t[0xb2] |= digit; return t; }
  Letters() : std::ctype<char>(fill(t)) {}
  char do_tolower(char c) const override { return c == 'I' ? '\xfd' : std::ctype<char>::do_tolower(c); }
  const char* do_tolower(char* b, const char* e) const override { for (; b != e; ++b) *b = do_tolower(*b); return e; }
  char do_toupper(char c) const override { return c == 'i' ? '\xdd' : std::ctype<char>::do_toupper(c); }
  const char* do_toupper(char* b, const char* e) const override { for (; b != e; ++b) *b = do_toupper(*b); return e; }
};
struct Days : std::time_put<char> {
  iter_type do_put(iter_type o, std::ios_base& b, char f, const tm* t, char c, char m) const override { if (c == 'a' || c == 'A' || c == 'b' || c == 'B' || c == 'p') { *o++ = 'x'; *o++ = c; return o; } return std::time_put<char>::do_put(o, b, f, t, c, m); }
};
inline const char* name(int i) {
  static const char* n[] = {"classic", "decimal comma, groups of three, other names of days", "groups of three", "groups of one apart by a blank", "other letters, blanks and digits", "Turkish C locale", "Turkish C locale, C++ locale with decimal comma"};
  return n[i];
}
const int COUNT = 7;
// the C locale is the Turkish one (ISO-8859-9), compiled by localedef and kept next to this file
inline bool c_turkish() {
  std::string d = __FILE__; size_t p = d.rfind('/'); d = (p == std::string::npos ? std::string(".") : d.substr(0, p)) + "/locale";
  setenv("LOCPATH", d.c_str(), 1); bool ok = setlocale(LC_NUMERIC, "tr") && setlocale(LC_TIME, "tr") && setlocale(LC_CTYPE, "tr"); unsetenv("LOCPATH");
  return ok && *localeconv()->decimal_point == ',';
}
inline bool set(int i) {
  static std::locale* L[5];
  if (!L[0]) {
    const std::locale& c = std::locale::classic();
    L[0] = new std::locale(c); L[1] = new std::locale(std::locale(c, new Punct(',', '.', "\3")), new Days); L[2] = new std::locale(c, new Punct('.', ',', "\3")); L[3] = new std::locale(c, new Punct(',', ' ', "\1")); L[4] = new std::locale(c, new Letters);
  }
  std::locale::global(*L[i == 5 ? 0 : i == 6 ? 1 : i]);
  if (i >= 5) return c_turkish();
  setlocale(LC_NUMERIC, "C"); setlocale(LC_TIME, "C"); setlocale(LC_CTYPE, "C"); return true;
}
}
