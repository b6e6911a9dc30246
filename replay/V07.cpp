// replay of V07: languages made from all kinds of short codes, against the rule of the documentation
#include "rp.hpp"
#include <uima/language.hpp>
using namespace uima;
using namespace rp;
typedef std::string T;
static bool al(char c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
static T low(T s) { for (char &c : s) if (c >= 'A' && c <= 'Z') c += 32; return s; }
static T code(T const &s) {
  if (s.empty()) return "";
  if (s.size() == 2 && al(s[0]) && al(s[1])) return low(s);
  if (s.size() == 5 && al(s[0]) && al(s[1]) && (s[2] == '-' || s[2] == '_') && al(s[3]) && al(s[4])) return low(s.substr(0, 2)) + "-" + low(s.substr(3));
  return "??";
}
static T gen() {
  static const char odd[] = "-_?1 {@[`azAZxyzZ.";
  T s;
  size_t n = chance(45) ? 5 : chance(60) ? 2 : below(40);
  for (size_t i = 0; i < n; i++) s += i == 2 && chance(80) ? (chance(50) ? '-' : '_') : chance(6) ? odd[below(sizeof odd - 1)] : chance(50) ? 'a' + below(26) : 'A' + below(26);
  return s;
}
static void is(Language const &l, T const &e, T const &m) {
  if (l.asString() != e) fail("code is " + l.asString() + " instead of " + e + ": " + m);
  if (T(l.getLanguageCode()) != e.substr(0, 2)) fail("language is " + T(l.getLanguageCode()) + ": " + m);
  T t = e.size() == 5 ? e.substr(3) : "";
  if (T(l.getTerritoryCode()) != t) fail("territory is " + T(l.getTerritoryCode()) + " instead of " + t + ": " + m);
  if (l.isValid() != (e != "??")) fail("isValid: " + m);
  if (l.hasLanguage() != !e.empty()) fail("hasLanguage: " + m);
  if (l.hasTerritory() != !t.empty()) fail("hasTerritory: " + m);
  long a = e.empty() ? 0 : (e[0] << 24 | e[1] << 16), b = t.empty() ? 0 : (t[0] << 8 | t[1]);
  if (l.getLanguage() != a) fail("getLanguage: " + m);
  if (l.getTerritory() != b) fail("getTerritory: " + m);
  if (l.asNumber() != (a | b)) fail("asNumber is " + S(l.asNumber()) + " instead of " + S(a | b) + ": " + m);
}
int main(int argc, char **argv) {
  init(argc, argv);
  is(Language(), "", "default");
  for (int round = 0; round < 40000; round++) {
    what.clear();
    T a = gen(), b = chance(30) ? gen() : chance(50) ? a : code(a).substr(0, 2);
    if (chance(20) && a.size() == 5) b = a.substr(0, 3) + b.substr(0, 2);
    if (round % 50 == 0) a = "";
    T x = code(a), y = code(b), m = "\"" + a + "\" and \"" + b + "\"";
    Language l(a.c_str()), r(b), q("en-us");
    is(l, x, m); is(r, y, m);
    icu::UnicodeString us(a.c_str(), "");
    UnicodeStringRef ur(us);
    is(Language(us), x, m + " (UnicodeString)"); is(Language(ur), x, m + " (UnicodeStringRef)");
    q.setValue(a); is(q, x, m + " (setValue)");
    is(Language((Language::TyLanguageAsNumber) l.asNumber()), x, m + " (number)");
    if ((l == r) != (x == y)) fail("==: " + m);
    if ((l != r) != (x != y)) fail("!=: " + m);
    if ((l < r) != (x < y)) fail("<: " + m);
    bool e = x == y || x.empty() || y.empty() || (x.substr(0, 2) == y.substr(0, 2) && (x.size() < 5 || y.size() < 5));
    if (l.matches(r) != e) fail("matches: " + m);
  }
  printf("replay found no failing input\n");
  return 0;
}
