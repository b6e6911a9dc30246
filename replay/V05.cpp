// replay of V05: random keys and structures; every comparison against the first key that differs, plus order laws
#include "rp.hpp"
#include <uima/lowlevel_indexdefinition.hpp>
#include <uima/lowlevel_indexcomparator.hpp>
using namespace uima;
using namespace uima::lowlevel;
using namespace rp;
typedef std::basic_string<UChar> US;
struct V { int64_t i; double d; US s; V() : i(0), d(0) {} };
enum K { INT, FLT, STR, BOO, BYT, SHO, LNG, DBL, PRIO };
static const char *KN[] = {"int", "float", "string", "boolean", "byte", "short", "long", "double", "type priority"};
int main(int argc, char **argv) {
  init(argc, argv);
  using namespace uima::internal;
  for (int round = 0; round < 400; round++) {
    what.clear();
    startup();
    CASDefinition *def = new CASDefinition((AnnotatorContext const *)NULL);
    def->init();
    lowlevel::TypeSystem &ts = *def->iv_typeSystem;
    std::vector<TyFSType> T;
    T.push_back(ts.createType(ts.getTopType(), icu::UnicodeString("t.A"), icu::UnicodeString("r")));
    for (int i = 0; i < 3; i++) T.push_back(ts.createType(T[below(T.size())], icu::UnicodeString(("t.B" + S(i)).c_str()), icu::UnicodeString("r")));
    TyFSType rg[] = {gs_tyIntegerType, gs_tyFloatType, gs_tyStringType, gs_tyBooleanType, gs_tyByteType, gs_tyShortType, gs_tyLongType, gs_tyDoubleType};
    std::vector<TyFSFeature> F; std::vector<K> FK;
    for (int i = 0; i < 12; i++) {
      K k = (K)(i < 8 ? i : below(8));
      F.push_back(ts.createFeature(T[0], rg[k], false, icu::UnicodeString(("f" + S(i)).c_str()), icu::UnicodeString("r")));
      FK.push_back(k);
    }
    if (chance(30)) ts.addTypePriority(T[2], T[1]);
    def->commitTypeSystem();
    def->commitIndexDefinition();
    CASImpl *cas = CASImpl::createCASImpl(*def, false);
    FSHeap &h = cas->getHeap();
    // keys
    IndexComparator *c = new IndexComparator(*def->iv_indexDefinition, T[0]);
    std::vector<int> key; std::vector<bool> rev;
    size_t nk = below(5);
    if (chance(20)) {
      std::vector<TyFSFeature> v;
      for (size_t i = 0; i < nk; i++) { int f = below(F.size()); v.push_back(F[f]); key.push_back(f); rev.push_back(false); note(std::string("key ") + KN[FK[f]]); }
      delete c;
      c = new IndexComparator(*def->iv_indexDefinition, T[0], v);
    } else for (size_t i = 0; i < nk; i++) {
      bool r = chance(40);
      int f = chance(20) ? -1 : (int)below(F.size());
      c->addKey(f < 0 ? (TyFSFeature)lowlevel::TypeSystem::INVALID_FEATURE : F[f], r ? IndexComparator::REVERSE_STANDARD_COMPARE : IndexComparator::STANDARD_COMPARE);
      key.push_back(f); rev.push_back(r);
      note(std::string(r ? "reverse key " : "key ") + (f < 0 ? "type priority" : KN[FK[f]]));
    }
    if (c->getKeyFeatures().size() != nk || c->getComparisonOps().size() != nk) fail("the comparator does not have the keys added");
    for (size_t i = 0; i < nk; i++) if (c->getKeyFeatures()[i] != (key[i] < 0 ? 0 : F[key[i]]) || c->getComparisonOps()[i] != (rev[i] ? IndexComparator::REVERSE_STANDARD_COMPARE : IndexComparator::STANDARD_COMPARE)) fail("key " + S(i) + " is not the one added");
    // structures: few distinct values, so that keys often agree
    size_t n = 3 + below(6);
    std::vector<TyFS> fs; std::vector<TyFSType> ty; std::vector<std::vector<V> > val_(n);
    std::vector<int64_t> pool; for (int i = 0; i < 3; i++) pool.push_back(val());
    std::vector<US> sp; sp.push_back(US());
    for (int i = 0; i < 4; i++) { US s = sp[below(sp.size())]; size_t m = len(6); if (chance(20) && !s.empty()) s.erase(s.size() - 1); for (size_t j = 0; j < m; j++) s += (UChar)(1 + below(chance(80) ? 3 : 65535)); sp.push_back(s); }
    for (size_t i = 0; i < n; i++) {
      TyFSType t = T[below(T.size())];
      TyFS f = h.createFS(t);
      fs.push_back(f); ty.push_back(t);
      std::string d;
      for (size_t q = 0; q < F.size(); q++) {
        V v;
        int64_t x = chance(60) ? pool[below(3)] : (int64_t)((uint64_t)pool[below(3)] + below(3) - 1);
        bool set = !chance(15);
        switch (FK[q]) {
          case INT: v.i = (int)x; if (!set) v.i = 0; else h.setIntValue(f, F[q], (int)x); break;
          case BYT: v.i = (char)x; if (!set) v.i = 0; else h.setByteValue(f, F[q], (char)x); break;
          case SHO: v.i = (short)x; if (!set) v.i = 0; else h.setShortValue(f, F[q], (short)x); break;
          case BOO: v.i = x & 1; if (!set) v.i = 0; else h.setBooleanValue(f, F[q], x & 1); break;
          case LNG: v.i = x; if (!set) v.i = 0; else h.setLongValue(f, F[q], x); break;
          case FLT: v.d = (float)x / 3; if (!set) v.d = 0; else h.setFloatValue(f, F[q], (float)x / 3); v.d = (float)v.d; if (set) v.d = (float)((float)x / 3); break;
          case DBL: v.d = (double)x / 3; if (!set) v.d = 0; else h.setDoubleValue(f, F[q], (double)x / 3); break;
          case STR: v.s = sp[below(sp.size())]; if (!set) v.s = US(); else h.setStringValue(f, F[q], h.addString(UnicodeStringRef(v.s.data(), (int)v.s.size()))); break;
          default: break;
        }
        d += S(v.i) + "/" + S(v.d) + "/" + S(v.s.size()) + " ";
        val_[i].push_back(v);
      }
      note("structure " + S(f) + ": " + d);
    }
    std::vector<std::vector<int> > r(n, std::vector<int>(n));
    for (size_t a = 0; a < n; a++) for (size_t b = 0; b < n; b++) {
      int e = 0;
      for (size_t i = 0; i < nk && e == 0; i++) {
        bool L, G;
        if (key[i] < 0) { L = ts.getTypePriorityNumber(ty[a]) < ts.getTypePriorityNumber(ty[b]); G = ts.getTypePriorityNumber(ty[b]) < ts.getTypePriorityNumber(ty[a]); if (ty[a] != ty[b] && !L && !G) fail("two types with one priority"); }
        else {
          V const &x = val_[a][key[i]], &y = val_[b][key[i]];
          switch (FK[key[i]]) {
            case FLT: case DBL: L = x.d < y.d; G = x.d > y.d; break;
            case STR: L = x.s < y.s; G = x.s > y.s; break;
            default: L = x.i < y.i; G = x.i > y.i;
          }
        }
        if (L) e = rev[i] ? -1 : 1;
        if (G) e = rev[i] ? 1 : -1;
      }
      r[a][b] = c->compare(h, fs[a], fs[b]);
      int s = r[a][b] < 0 ? -1 : r[a][b] > 0 ? 1 : 0;
      if (s != e) fail("compare(" + S(fs[a]) + ", " + S(fs[b]) + ") returns " + S(r[a][b]) + " instead of " + S(e));
    }
    for (size_t a = 0; a < n; a++) for (size_t b = 0; b < n; b++) {
      if (r[a][b] != -r[b][a]) fail("comparison is not antisymmetric");
      for (size_t d = 0; d < n; d++) if (r[a][b] >= 0 && r[b][d] >= 0 && r[a][d] < 0) fail("comparison is not transitive");
    }
    delete c;
    delete cas;
    delete def;
  }
  printf("replay found no failing input\n");
  return 0;
}
