// Shared parts of the replay drivers: deterministic random numbers, hint values from solver counterexamples, a CAS built
// straight from the library's own classes, and failure reporting.  Drivers are compiled with -fno-access-control together
// with the library sources of the current tree and only run after the verifier has reported an undischarged obligation.
#ifndef RP_HPP
#define RP_HPP
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <iostream>
#include <fstream>
#include <sstream>
#include <algorithm>
#include <uima/api.hpp>
#include <uima/internal_casimpl.hpp>
#include <uima/casdefinition.hpp>
#include <uima/lowlevel_typesystem.hpp>
#include <uima/lowlevel_fsheap.hpp>
#include <uima/internal_typeshortcuts.hpp>
#include <uima/internal_fspromoter.hpp>
namespace rp {
  static uint64_t st = 88172645463325252ULL;
  static std::vector<long long> hints;
  inline uint64_t rnd() { st ^= st << 13; st ^= st >> 7; st ^= st << 17; return st * 2685821657736338717ULL; }
  inline uint64_t below(uint64_t n) { return n ? (rnd() >> 11) % n : 0; }
  inline bool chance(int pct) { return below(100) < (uint64_t)pct; }
  // interesting integers: small, boundary, hint, random
  inline int64_t val() {
    static const int64_t b[] = {0, 1, -1, 2, 3, 7, 8, 10, 13, 127, 128, -128, -129, 255, 256, 32767, 32768, -32768, -32769, 65535, 65536, 0x00c0ffee, 2147483647LL, -2147483648LL,
        2147483648LL, 4294967295LL, 4294967296LL, -4294967296LL, 4294967297LL, 9223372036854775807LL, (int64_t)0x8000000000000000ULL, 0x0102030405060708LL, (int64_t)0x8182838485868788ULL};
    switch (below(hints.empty() ? 3 : 4)) {
      case 0: return b[below(sizeof b / sizeof *b)];
      case 1: return (int64_t)rnd();
      case 2: return (int64_t)below(40) - 10;
      default: return (int64_t)((uint64_t)hints[below(hints.size())] + below(3) - 1);
    }
  }
  inline size_t len(size_t mx) {
    static const size_t b[] = {0, 1, 2, 3, 4, 7, 8, 15, 16, 31, 63, 64, 255};
    size_t r = chance(50) ? b[below(sizeof b / sizeof *b)] : below(mx + 1);
    if (!hints.empty() && chance(20)) { long long h = hints[below(hints.size())]; if (h >= 0 && (size_t)h <= mx) r = h; }
    return r > mx ? mx : r;
  }
  static std::string what;
  inline void fail(const std::string &m) {
    printf("FAIL %s\n  history: %s\n", m.c_str(), what.size() > 3000 ? what.substr(what.size() - 3000).c_str() : what.c_str());
    fflush(stdout);
    _exit(1);
  }
  template <class T> std::string S(T const &t) { std::ostringstream o; o << t; return o.str(); }
  inline void note(const std::string &s) { what += s; what += "; "; if (what.size() > 100000) what.erase(0, 50000); }
  inline void init(int argc, char **argv) {
    if (argc > 1) { std::ifstream f(argv[1]); std::string l; while (std::getline(f, l)) hints.push_back((long long)strtoull(l.c_str(), 0, 10)); }
    uint64_t seed = argc > 2 ? strtoull(argv[2], 0, 10) : 1;
    st ^= seed * 0x9E3779B97F4A7C15ULL;
    if (!st) st = 1;
    for (int i = 0; i < 20; i++) rnd();
    setvbuf(stdout, 0, _IOLBF, 0);
  }
#define CHECK(c, m) do { if (!(c)) rp::fail(std::string(m) + "  [" #c "]"); } while (0)

  // a random type system below the predefined one, committed, and a CAS over it
  struct Env {
    uima::internal::CASDefinition *def;
    uima::internal::CASImpl *cas;
    uima::lowlevel::TypeSystem *ts;
    uima::lowlevel::FSHeap *heap;
    std::vector<uima::lowlevel::TyFSType> types;      // created here
    std::vector<uima::lowlevel::TyFSFeature> feats;   // created here
    std::vector<uima::lowlevel::TyFSType> strsub;
    std::map<uima::lowlevel::TyFSType, uima::lowlevel::TyFSType> parent;
    std::map<uima::lowlevel::TyFSFeature, uima::lowlevel::TyFSType> intro, range;
  };
  inline void startup() {
    static bool done = false;
    if (!done) { done = true; uima::ResourceManager::createInstance("replay"); }
  }
  inline Env *makeEnv(int ntypes, int nfeats, bool commit = true) {
    using namespace uima;
    startup();
    Env *e = new Env;
    e->def = new uima::internal::CASDefinition((AnnotatorContext const *)NULL);
    e->def->init();
    e->ts = e->def->iv_typeSystem;
    lowlevel::TypeSystem &ts = *e->ts;
    lowlevel::TyFSType roots[] = {e->ts->getTopType(), uima::internal::gs_tyAnnotationType};
    for (int i = 0; i < ntypes; i++) {
      lowlevel::TyFSType p = (i == 0 || chance(25)) ? roots[below(2)] : e->types[chance(50) ? e->types.size() - 1 : below(e->types.size())];
      std::string n = "t.T" + S(i);
      lowlevel::TyFSType t = ts.createType(p, icu::UnicodeString(n.c_str()), icu::UnicodeString("replay"));
      e->types.push_back(t);
      e->parent[t] = p;
    }
    for (int i = 0; i < 2; i++) {
      std::vector<icu::UnicodeString> al;
      al.push_back(icu::UnicodeString("a"));
      al.push_back(icu::UnicodeString("bb"));
      e->strsub.push_back(ts.createStringSubtype(icu::UnicodeString(("t.S" + S(i)).c_str()), al, icu::UnicodeString("replay")));
    }
    using namespace uima::internal;
    lowlevel::TyFSType rg[] = {gs_tyIntegerType, gs_tyFloatType, gs_tyStringType, gs_tyBooleanType, gs_tyByteType, gs_tyShortType, gs_tyLongType, gs_tyDoubleType,
        e->ts->getTopType(), gs_tyAnnotationType, gs_tyIntArrayType, gs_tyFSArrayType, gs_tyStringArrayType, gs_tyFloatArrayType};
    for (int i = 0; i < nfeats && ntypes > 0; i++) {
      lowlevel::TyFSType t = e->types[below(e->types.size())];
      lowlevel::TyFSType r = i < 8 ? rg[i] : (chance(15) ? e->types[below(e->types.size())] : chance(8) ? e->strsub[below(2)] : rg[below(sizeof rg / sizeof *rg)]);
      lowlevel::TyFSFeature f = ts.createFeature(t, r, false, icu::UnicodeString(("f" + S(i)).c_str()), icu::UnicodeString("replay"));
      e->feats.push_back(f);
      e->intro[f] = t;
      e->range[f] = r;
    }
    e->cas = 0;
    e->heap = 0;
    if (commit) {
      e->def->commitTypeSystem();
      e->def->commitIndexDefinition();
      e->cas = CASImpl::createCASImpl(*e->def, false);
      e->heap = &e->cas->getHeap();
    }
    return e;
  }
}
#endif
