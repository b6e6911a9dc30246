// replay of V06: string references over exactly sized buffers (address sanitizer sees every unit read outside), against std::u16string
#include "rp.hpp"
#include <uima/unistrref.hpp>
#include <unicode/ustring.h>
using namespace uima;
using namespace rp;
typedef std::u16string W;
static const UChar alpha[] = {0, 'a', 'b', 'c', 0xd800, 0xdc00, 0xdbff, 0xdfff, 0xe000, 0xffff, 0x7fff, 0x8000};
static W gen(size_t mx, int k) { W w; for (size_t i = 0, n = len(mx); i < n; i++) w += k == 0 ? alpha[below(sizeof alpha / sizeof *alpha)] : k == 1 ? (UChar)('a' + below(2)) : (UChar) rnd(); return w; }
static std::string show(W const &w) { std::string s = "\""; char b[16]; for (UChar c : w) { if (c >= 'a' && c <= 'z') s += (char)c; else { snprintf(b, 16, "\\u%04x", c); s += b; } } return s + "\""; }
struct Ref { UChar *p; W w; UnicodeStringRef r; Ref(W const &x, bool null = false) : p(0), w(x) { if (null && x.empty()) { p = 0; r = UnicodeStringRef(); } else { p = new UChar[x.size()]; std::copy(x.begin(), x.end(), p); r = UnicodeStringRef(p, (int32_t) x.size()); } } ~Ref() { delete[] p; } };
static int sg(int x) { return x < 0 ? -1 : x > 0 ? 1 : 0; }
static int cmpu(W const &a, W const &b) { for (size_t i = 0; i < a.size() && i < b.size(); i++) if (a[i] != b[i]) return a[i] < b[i] ? -1 : 1; return a.size() < b.size() ? -1 : a.size() > b.size() ? 1 : 0; }
static std::vector<UChar32> cps(W const &a) { std::vector<UChar32> v; for (size_t i = 0; i < a.size(); i++) { if (a[i] >= 0xd800 && a[i] < 0xdc00 && i + 1 < a.size() && a[i + 1] >= 0xdc00 && a[i + 1] < 0xe000) { v.push_back(0x10000 + ((a[i] - 0xd800) << 10) + (a[i + 1] - 0xdc00)); i++; } else v.push_back(a[i]); } return v; }
static int cmpc(W const &a, W const &b) { std::vector<UChar32> x = cps(a), y = cps(b); return x < y ? -1 : y < x ? 1 : 0; }
static void pin(W const &w, int32_t &s, int32_t &l) { int32_t n = w.size(); if (s < 0) s = 0; if (s > n) s = n; if (l < 0) l = 0; if (l > n - s) l = n - s; }
static W cut(W const &w, int32_t s, int32_t l) { pin(w, s, l); return w.substr(s, l); }
static int find1(W const &w, W const &x, int32_t s, int32_t l, bool last) {
  if (x.empty()) return -1;
  pin(w, s, l);
  int r = -1;
  for (int32_t q = s; q + (int32_t) x.size() <= s + l; q++) if (w.compare(q, x.size(), x) == 0) { r = q; if (!last) break; }
  return r;
}
#define EQ(c, e, m) do { long long c_ = (c), e_ = (e); if (c_ != e_) fail(std::string(#c) + " is " + S(c_) + " instead of " + S(e_) + ": " + m); } while (0)
int main(int argc, char **argv) {
  init(argc, argv);
  for (int round = 0; round < 60000; round++) {
    what.clear();
    int k = below(3);
    W a = gen(12, k), b = chance(50) ? gen(6, k) : a.substr(below(a.size() + 1));
    if (chance(20)) b = a;
    if (chance(20)) b = a.substr(0, below(a.size() + 1));
    if (chance(30) && !b.empty()) b[below(b.size())] = alpha[below(sizeof alpha / sizeof *alpha)];
    if (chance(5)) { std::swap(a, b); }
    Ref A(a, chance(30)), B(b, chance(30));
    UnicodeStringRef const &r = A.r, &t = B.r;
    std::string m = show(a) + " and " + show(b);
    EQ(r == t, a == b, m); EQ(r != t, a != b, m);
    EQ(sg(r.compare(t)), cmpu(a, b), m); EQ(r < t, cmpu(a, b) < 0, m); EQ(r <= t, cmpu(a, b) <= 0, m); EQ(r > t, cmpu(a, b) > 0, m); EQ(r >= t, cmpu(a, b) >= 0, m);
    EQ(sg(r.compare(r)), 0, m);
    icu::UnicodeString bu(b.data(), (int32_t) b.size());
    EQ(sg(r.compare(bu)), cmpu(a, b), m);
    EQ(sg(r.compare(B.p, (int32_t) b.size())), cmpu(a, b), m);
    EQ(sg(r.compareCodePointOrder(t)), cmpc(a, b), m);
    EQ(sg(r.compareCodePointOrder(B.p, (int32_t) b.size())), cmpc(a, b), m);
    int32_t s = (int32_t) below(a.size() + 3) - 1, l = (int32_t) below(a.size() + 4) - 1;
    if (chance(3)) s = 0x7fffffff;
    if (chance(3)) l = 0x7fffffff;
    W c = cut(a, s, l);
    size_t p = below(b.size() + 1), q = below(b.size() - p + 1);
    W d = b.substr(p, q);
    std::string m2 = m + ", start " + S(s) + " length " + S(l) + " source start " + S(p) + " length " + S(q);
    EQ(sg(r.compare(s, l, t)), cmpu(c, b), m2);
    EQ(sg(r.compare(s, l, t, p, q)), cmpu(c, d), m2);
    EQ(sg(r.compare(s, l, B.p, p, q)), cmpu(c, d), m2);
    if (l >= 0 && l <= (int32_t) b.size()) EQ(sg(r.compare(s, l, B.p)), cmpu(c, b.substr(0, l)), m2);
    if (s >= 0 && l >= 0 && l < 1000 && s < 1000) EQ(sg(r.compareBetween(s, s + l, t, p, p + q)), cmpu(c, d), m2);
    EQ(sg(r.compareCodePointOrder(s, l, t)), cmpc(c, b), m2);
    EQ(sg(r.compareCodePointOrder(s, l, t, p, q)), cmpc(c, d), m2);
    EQ(sg(r.compareCodePointOrder(s, l, B.p, p, q)), cmpc(c, d), m2);
    EQ(r.startsWith(t), a.substr(0, b.size()) == b, m); EQ(r.startsWith(t, p, q), a.substr(0, q) == d, m2);
    EQ(r.startsWith(B.p, (int32_t) b.size()), a.substr(0, b.size()) == b, m); EQ(r.startsWith(B.p, p, q), a.substr(0, q) == d, m2);
    auto ends = [&](W const &x) { return x.size() <= a.size() && a.substr(a.size() - x.size()) == x; };
    EQ(r.endsWith(t), ends(b), m); EQ(r.endsWith(t, p, q), ends(d), m2); EQ(r.endsWith(B.p, (int32_t) b.size()), ends(b), m); EQ(r.endsWith(B.p, p, q), ends(d), m2);
    EQ(r.indexOf(t), find1(a, b, 0, a.size(), false), m); EQ(r.lastIndexOf(t), find1(a, b, 0, a.size(), true), m);
    if (s >= 0) { EQ(r.indexOf(t, s), find1(a, b, s, 0x7fffffff, false), m2); EQ(r.lastIndexOf(t, s), find1(a, b, s, 0x7fffffff, true), m2); }
    EQ(r.indexOf(t, s, l), find1(a, b, s, l, false), m2); EQ(r.lastIndexOf(t, s, l), find1(a, b, s, l, true), m2);
    EQ(r.indexOf(t, p, q, s, l), find1(a, d, s, l, false), m2); EQ(r.lastIndexOf(t, p, q, s, l), find1(a, d, s, l, true), m2);
    EQ(r.indexOf(B.p, p, q, s, l), find1(a, d, s, l, false), m2); EQ(r.lastIndexOf(B.p, p, q, s, l), find1(a, d, s, l, true), m2);
    UChar u = !a.empty() && chance(70) ? a[below(a.size())] : alpha[below(sizeof alpha / sizeof *alpha)];
    EQ(r.indexOf(u), find1(a, W(1, u), 0, a.size(), false), m2 + " unit " + S(u)); EQ(r.lastIndexOf(u), find1(a, W(1, u), 0, a.size(), true), m2 + " unit " + S(u));
    EQ(r.indexOf(u, s, l), find1(a, W(1, u), s, l, false), m2 + " unit " + S(u)); EQ(r.lastIndexOf(u, s, l), find1(a, W(1, u), s, l, true), m2 + " unit " + S(u));
    if (s >= 0) { EQ(r.indexOf(u, s), find1(a, W(1, u), s, 0x7fffffff, false), m2 + " unit " + S(u)); EQ(r.lastIndexOf(u, s), find1(a, W(1, u), s, 0x7fffffff, true), m2 + " unit " + S(u)); }
    std::vector<UChar32> cp = cps(a);
    UChar32 x = !cp.empty() && chance(70) ? cp[below(cp.size())] : 0x10000 + below(0x100000);
    W xw; if (x > 0xffff) { xw += (UChar)(0xd7c0 + (x >> 10)); xw += (UChar)(0xdc00 | (x & 0x3ff)); } else xw += (UChar) x;
    EQ(r.indexOf(x), find1(a, xw, 0, a.size(), false), m2 + " code point " + S(x)); EQ(r.lastIndexOf(x), find1(a, xw, 0, a.size(), true), m2 + " code point " + S(x));
    EQ(r.indexOf(x, s, l), find1(a, xw, s, l, false), m2 + " code point " + S(x)); EQ(r.lastIndexOf(x, s, l), find1(a, xw, s, l, true), m2 + " code point " + S(x));
    EQ(r.length(), a.size(), m); EQ(r.isEmpty(), a.empty(), m); EQ(r.getSizeInBytes(), 2 * a.size(), m);
    for (int32_t i = -2; i < (int32_t) a.size() + 2; i++) {
      bool in = i >= 0 && i < (int32_t) a.size();
      EQ(r.charAt(i), in ? a[i] : 0xffff, m + " offset " + S(i));
      if (in) EQ(r[i], a[i], m + " offset " + S(i));
      bool tr = in && U16_IS_TRAIL(a[i]) && i > 0 && U16_IS_LEAD(a[i - 1]), ld = in && U16_IS_LEAD(a[i]) && i + 1 < (int32_t) a.size() && U16_IS_TRAIL(a[i + 1]);
      EQ(r.char32At(i), !in ? 0xffff : tr ? U16_GET_SUPPLEMENTARY(a[i - 1], a[i]) : ld ? U16_GET_SUPPLEMENTARY(a[i], a[i + 1]) : a[i], m + " offset " + S(i));
      EQ(r.getChar32Start(i), !in ? 0 : tr ? i - 1 : i, m + " offset " + S(i));
      // getChar32Limit: the offset itself unless it is inside a surrogate pair
      EQ(r.getChar32Limit(i), !in ? (int32_t) a.size() : tr ? i + 1 : i, m + " offset " + S(i));
    }
    { size_t ds = below(3); std::vector<UChar> out(ds + c.size() + 2, 0x1111); UChar *o = new UChar[ds + c.size()]; for (size_t i = 0; i < ds + c.size(); i++) o[i] = 0x1111;
      r.extract(s, l, o, ds);
      for (size_t i = 0; i < ds + c.size(); i++) EQ(o[i], i < ds ? 0x1111 : c[i - ds], m2);
      delete[] o; }
    { icu::UnicodeString us("old"); r.extract(s, l, us); if (W(us.getBuffer(), us.length()) != c) fail("extract into a string gives " + show(W(us.getBuffer(), us.length())) + ": " + m2);
      std::string st("old"); bool asc = true; for (UChar z : c) asc = asc && z > 0 && z < 0x80; if (asc) { r.extract(s, l, st, "utf-8"); if (st != std::string(c.begin(), c.end())) fail("extract into a std::string gives " + st + ": " + m2); } }
    EQ(sg(r.caseCompare(s, l, t, p, q, U_FOLD_CASE_DEFAULT)), sg(icu::UnicodeString(c.data(), (int32_t) c.size()).caseCompare(d.data(), (int32_t) d.size(), (uint32_t) U_FOLD_CASE_DEFAULT)), m2);
    UnicodeStringRef e(r), f; f = t; EQ(e.getBuffer() == r.getBuffer() && e.length() == r.length(), 1, m); EQ(f.getBuffer() == t.getBuffer() && f.length() == t.length(), 1, m);
    e.setTo(t); EQ(e.getBuffer() == t.getBuffer() && e.length() == t.length(), 1, m);
    e.setTo(A.p, a.size()); EQ(e.getBuffer() == A.p && e.length() == (int32_t) a.size(), 1, m);
    UnicodeStringRef h(bu); EQ(h.getBuffer() == bu.getBuffer() && h.length() == bu.length(), 1, m);
    if (A.p) { UnicodeStringRef g(A.p, A.p + a.size()); EQ(g.length(), a.size(), m); }
  }
  printf("replay found no failing input\n");
  return 0;
}
