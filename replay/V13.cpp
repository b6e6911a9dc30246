// replay of V13: random type systems; numbers, offsets, appropriateness and the offset table against the declared features
#include "rp.hpp"
using namespace uima;
using namespace uima::lowlevel;
using namespace rp;
int main(int argc, char **argv) {
  init(argc, argv);
  for (int round = 0; round < 150; round++) {
    what.clear();
    Env *e = makeEnv(round % 4 == 0 ? 0 : 1 + len(round == 75 ? 250 : 30), 0, false);
    lowlevel::TypeSystem &ts = *e->ts;
    using namespace uima::internal;
    for (size_t i = 0, m = round % 5 == 2 ? len(60) : 0; i < m; i++) {   // a deep branch
      TyFSType p = i == 0 || e->types.empty() ? ts.getTopType() : chance(95) ? e->types.back() : e->types[below(e->types.size())];
      e->types.push_back(ts.createType(p, icu::UnicodeString(("t.D" + S(i)).c_str()), icu::UnicodeString("replay")));
    }
    TyFSType rg[] = {gs_tyIntegerType, gs_tyFloatType, gs_tyStringType, gs_tyBooleanType, gs_tyLongType, ts.getTopType(), gs_tyIntArrayType};
    size_t nf = round == 77 ? 400 : len(80), hot = below(3);
    if (e->types.empty()) e->types.push_back(ts.createType(chance(50) ? ts.getTopType() : gs_tyAnnotationType, icu::UnicodeString("t.X"), icu::UnicodeString("replay")));
    for (size_t i = 0; i < nf; i++) {
      TyFSType t = hot == 0 ? e->types[below(e->types.size())] : hot == 1 ? e->types[below(2) % e->types.size()] : chance(60) ? e->types.back() : chance(50) ? e->types[0] : (TyFSType) gs_tyAnnotationType;
      if (chance(10)) {   // a type declared between the features
        e->types.push_back(ts.createType(t, icu::UnicodeString(("t.L" + S(i)).c_str()), icu::UnicodeString("replay")));
      }
      try { ts.createFeature(t, rg[below(sizeof rg / sizeof *rg)], chance(50), icu::UnicodeString(("g" + S(i)).c_str()), icu::UnicodeString("replay")); }
      catch (Exception &) { }
    }
    size_t n = ts.iv_vecTypeNames.size(), m = ts.iv_vecFeatureBaseNames.size();
    std::vector<TyFSType> par(n, 0), owner(m, 0);
    std::vector<size_t> cnt(n, 0);
    for (size_t t = 2; t < n; t++) par[t] = ts.iv_vecParents[t];
    for (size_t t = 1; t < n; t++) {
      std::string s = "type " + S(t) + " below " + S(par[t]) + " introduces";
      for (TyFSFeature f : ts.iv_vecIntroducedFeatures[t]) { owner[f] = t; s += " " + S(f); }
      note(s);
    }
    ts.commit();
    if (!ts.isCommitted()) fail("not committed after commit()");
    auto anc = [&](TyFSType a, TyFSType b) { while (b) { if (a == b) return true; b = par[b]; } return false; };
    for (size_t t = 1; t < n; t++) {
      std::set<TyFSFeature> exp;
      for (size_t f = 1; f < m; f++) if (owner[f] != 1 && anc(owner[f], t)) exp.insert(f);
      std::string T = "type " + S(t);
      if (ts.getFeatureNumber(t) != exp.size()) fail(T + " has feature number " + S(ts.getFeatureNumber(t)) + " instead of " + S(exp.size()));
      std::vector<TyFSFeature> v;
      for (size_t i = 0, k = below(3); i < k; i++) v.push_back(7777);
      ts.getAppropriateFeatures(t, v);
      std::multiset<TyFSFeature> got(v.begin(), v.end());
      if (got.size() != exp.size() || std::set<TyFSFeature>(v.begin(), v.end()) != exp) fail("getAppropriateFeatures(" + T + ") does not give exactly its " + S(exp.size()) + " features");
      std::set<size_t> offs;
      for (size_t f = 1; f < m; f++) {
        bool r = ts.isAppropriateFeature(t, f);
        if (r != (exp.count(f) > 0)) fail("isAppropriateFeature(" + T + ", feature " + S(f) + ") returns " + S(r));
        if (!r) continue;
        size_t o = ts.getFeatureOffset(f);
        if (o < 1 || o > exp.size()) fail("offset " + S(o) + " of feature " + S(f) + " is not in 1.." + S(exp.size()) + " of " + T);
        if (!offs.insert(o).second) fail("two features of " + T + " have offset " + S(o));
        if (ts.getFeatureFromOffset(t, o) != f) fail("the feature at offset " + S(o) + " of " + T + " is " + S(ts.getFeatureFromOffset(t, o)) + " instead of " + S(f));
      }
    }
    delete e->def;
    delete e;
  }
  printf("replay found no failing input\n");
  return 0;
}
