// replay of V04: random type trees; subsumption, parents, common supertypes and subtype lists against the declared tree
#include "rp.hpp"
using namespace uima;
using namespace uima::lowlevel;
using namespace rp;
int main(int argc, char **argv) {
  init(argc, argv);
  for (int round = 0; round < 150; round++) {
    what.clear();
    Env *e = makeEnv(round == 100 ? 1300 : round % 3 == 0 ? 0 : 1 + len(60), 0, false);
    lowlevel::TypeSystem &ts = *e->ts;
    if (round % 8 == 5) for (size_t i = 0, m = 20 + len(255); i < m; i++) {   // a deep branch
      TyFSType p = i == 0 ? ts.getTopType() : chance(95) ? e->types.back() : e->types[below(e->types.size())];
      TyFSType t = ts.createType(p, icu::UnicodeString(("t.D" + S(i)).c_str()), icu::UnicodeString("replay"));
      e->types.push_back(t); e->parent[t] = p;
    }
    size_t n = ts.iv_vecTypeNames.size();
    std::vector<TyFSType> par(n, 0);
    for (size_t t = 1; t < n; t++) par[t] = t == 1 ? 0 : ts.iv_vecParents[t];
    for (auto &p : e->parent) CHECK(par[p.first] == p.second, "parent recorded for type " + S(p.first) + " is not the declared one");
    std::vector<std::vector<TyFSType> > ch(n);
    for (size_t t = 2; t < n; t++) ch[par[t]].push_back(t);
    for (size_t t = 1; t < n; t++) { std::string s = "type " + S(t) + " below " + S(par[t]); note(s); }
    auto anc = [&](TyFSType a, TyFSType b) { if (b < 1 || b >= n) return a == b; while (b) { if (a == b) return true; b = par[b]; } return false; };
    for (size_t a = 0; a < n + 2; a++) for (size_t b = 0; b < n + 2; b++) {
      if (a != b && (a == 0 || b == 0)) continue;
      bool r = ts.subsumes(a, b);
      if (r != anc(a, b)) fail("subsumes(" + S(a) + ", " + S(b) + ") returns " + S(r) + " in a type system with " + S(n - 1) + " types");
    }
    for (size_t a = 1; a < n; a++) {
      if (ts.getParentType(a) != par[a]) fail("parent of type " + S(a) + " is " + S(ts.getParentType(a)) + " instead of " + S(par[a]));
      std::vector<TyFSType> v(3, 7777), w;
      size_t k0 = chance(50) ? 3 : 0; v.resize(k0);
      ts.getSubsumedTypes(a, v);
      for (size_t i = 0; i < k0; i++) if (v[i] != 7777) fail("getSubsumedTypes changes what was in the result");
      std::multiset<TyFSType> got(v.begin() + k0, v.end()), exp;
      for (size_t b = 1; b < n; b++) if (anc(a, b)) exp.insert(b);
      if (got != exp) fail("getSubsumedTypes(" + S(a) + ") gives " + S(got.size()) + " types instead of the " + S(exp.size()) + " subsumed ones");
      w.assign(below(5), 7777);
      ts.getDirectSubTypes(a, w);
      std::multiset<TyFSType> dg(w.begin(), w.end()), de(ch[a].begin(), ch[a].end());
      if (dg != de) fail("getDirectSubTypes(" + S(a) + ") does not give exactly the direct subtypes");
      for (size_t b = 1; b < n; b++) if (n < 40 || (n < 300 ? chance(20) : below(200) == 0)) {
        TyFSType r = ts.getMostSpecificCommonSupertype(a, b), x = a;
        while (!anc(x, b)) x = par[x];
        if (r != x) fail("common supertype of " + S(a) + " and " + S(b) + " is " + S(r) + " instead of " + S(x));
      }
    }
    delete e->def;
    delete e;
  }
  printf("replay found no failing input\n");
  return 0;
}
