// random histories over an index repository with an ordered, a set and a FIFO index on a small type hierarchy
#include "rp.hpp"
#include <uima/lowlevel_indexdefinition.hpp>
#include <uima/lowlevel_indexcomparator.hpp>
#include <uima/lowlevel_indexrepository.hpp>
#include <uima/lowlevel_indexiterator.hpp>
#include <uima/lowlevel_internal_indexes.hpp>
#include <uima/lowlevel_fsfilter.hpp>
using namespace uima;
using namespace uima::lowlevel;
using namespace rp;
struct Odd : public uima::lowlevel::FSFilter {
  std::set<TyFS> out;
  bool isFiltered(TyFS f) const { return out.count(f) > 0; }
};
typedef std::vector<TyFS> VF;
static VF walk(IndexIterator *it, size_t mx) {
  VF r;
  for (it->moveToFirst(); it->isValid() && r.size() <= mx; it->moveToNext()) r.push_back(it->get());
  return r;
}
static VF back(IndexIterator *it, size_t mx) {
  VF r;
  for (it->moveToLast(); it->isValid() && r.size() <= mx; it->moveToPrevious()) r.push_back(it->get());
  std::reverse(r.begin(), r.end());
  return r;
}
static VF sorted(VF v) { std::sort(v.begin(), v.end()); return v; }
// accepted: what the restricted iterator has to visit; full: what the unrestricted one visits
static void restricted(const char *nm, IndexIterator *it, IndexIterator *un, VF const &full, VF const &acc, VF const &probe) {
  VF a = walk(it, full.size()), b = back(it, full.size());
  if (a != acc) fail(std::string(nm) + ": forward iteration does not visit exactly the accepted structures, in order");
  if (b != acc) fail(std::string(nm) + ": backward iteration does not visit exactly the accepted structures, in order");
  for (size_t i = 0; i < probe.size(); i++) {
    it->moveToFirst(); un->moveToFirst();
    bool w = un->moveTo(probe[i]), r = it->moveTo(probe[i]);
    size_t p = 0;
    if (w) {
      // position of the unrestricted iterator
      VF rest; { IndexIterator *c = un->clone(); while (c->isValid()) { rest.push_back(c->get()); c->moveToNext(); } delete c; }
      p = full.size() - rest.size();
      while (p < full.size() && std::find(acc.begin(), acc.end(), full[p]) == acc.end()) p++;
      if (r != (p < full.size())) fail(std::string(nm) + ": moveTo(" + S(probe[i]) + ") returns " + S(r));
      if (r && (!it->isValid() || it->get() != full[p])) fail(std::string(nm) + ": moveTo(" + S(probe[i]) + ") is at " + (it->isValid() ? S(it->get()) : std::string("no structure")) + " instead of " + S(full[p]));
      if (!r && it->isValid()) fail(std::string(nm) + ": moveTo(" + S(probe[i]) + ") finds nothing and leaves a valid iterator");
    } else if (r) fail(std::string(nm) + ": moveTo(" + S(probe[i]) + ") returns true for a structure that is not there");
  }
}
static int ixmain(int argc, char **argv, bool restrictions, bool byid) {
  init(argc, argv);
  for (int round = 0; round < 150; round++) {
    what.clear();
    startup();
    uima::internal::CASDefinition *def = new uima::internal::CASDefinition((AnnotatorContext const *)NULL);
    def->init();
    lowlevel::TypeSystem &ts = *def->iv_typeSystem;
    std::vector<TyFSType> T;
    std::vector<int> par;
    T.push_back(ts.createType(ts.getTopType(), icu::UnicodeString("t.A"), icu::UnicodeString("r"))); par.push_back(-1);
    TyFSFeature A = ts.createFeature(T[0], uima::internal::gs_tyIntegerType, false, icu::UnicodeString("a"), icu::UnicodeString("r"));
    int nt = 1 + below(5);
    for (int i = 1; i < nt; i++) {
      int p = below(i);
      T.push_back(ts.createType(T[p], icu::UnicodeString(("t.A" + S(i)).c_str()), icu::UnicodeString("r"))); par.push_back(p);
    }
    TyFSType other = ts.createType(ts.getTopType(), icu::UnicodeString("t.Other"), icu::UnicodeString("r"));
    def->commitTypeSystem();
    const char *nm[3] = {"ordered", "set", "fifo"};
    IndexDefinition::EnIndexKind kd[3] = {IndexDefinition::enOrdered, IndexDefinition::enSet, IndexDefinition::enFIFO};
    std::vector<TyFSFeature> kf(1, A);
    std::vector<IndexComparator::EnKeyFeatureComp> kc(1, chance(30) ? IndexComparator::REVERSE_STANDARD_COMPARE : IndexComparator::STANDARD_COMPARE);
    for (int k = 0; k < 3; k++) def->iv_indexDefinition->defineIndex(kd[k], T[0], k == 2 ? std::vector<TyFSFeature>() : kf, k == 2 ? std::vector<IndexComparator::EnKeyFeatureComp>() : kc, icu::UnicodeString(nm[k]));
    def->commitIndexDefinition();
    uima::internal::CASImpl *cas = uima::internal::CASImpl::createCASImpl(*def, false);
    FSHeap &h = cas->getHeap();
    IndexRepository &repo = *cas->iv_indexRepository;
    VF all, undef;
    std::map<TyFS, int> key, tp;
    // model: per index kind and type the structures held
    std::vector<std::vector<VF> > M(3, std::vector<VF>(nt));
    VF byidfs;
    int ops = 5 + below(40), range = 1 + below(8);
    for (int op = 0; op < ops; op++) {
      int k = below(100);
      if (k < 50 || all.empty()) {
        TyFS f;
        if (!all.empty() && chance(15)) f = all[below(all.size())];
        else if (chance(5)) { f = !undef.empty() && chance(30) ? undef[below(undef.size())] : h.createFS(other); note("other " + S(f)); repo.add(f); undef.push_back(f); continue; }
        else {
          int t = below(nt);
          f = h.createFS(T[t]); tp[f] = t; key[f] = below(range);
          h.setIntValue(f, A, key[f]);
          all.push_back(f);
        }
        int only = byid && chance(15) ? (int)below(3) : -1;
        note("add " + S(f) + " type " + S(tp[f]) + " key " + S(key[f]) + (only >= 0 ? " to " + S(only) : std::string()));
        if (only >= 0) repo.add(f, icu::UnicodeString(nm[only])); else repo.add(f);
        for (int x = 0; x < 3; x++) if (only < 0 || only == x) {
          VF &m = M[x][tp[f]];
          bool dup = false;
          if (x == 1) for (size_t i = 0; i < m.size(); i++) dup = dup || key[m[i]] == key[f];
          if (!dup) m.push_back(f);
        }
      } else if (k < 75) {
        TyFS f = all[below(all.size())];
        int only = byid && chance(15) ? (int)below(3) : -1;
        note("remove " + S(f) + (only >= 0 ? " from " + S(only) : std::string()));
        if (only >= 0) repo.remove(f, icu::UnicodeString(nm[only])); else repo.remove(f);
        for (int x = 0; x < 3; x++) if (only < 0 || only == x) {
          VF &m = M[x][tp[f]];
          for (size_t i = 0; i < m.size(); i++) if (x == 1 ? key[m[i]] == key[f] : m[i] == f) { m.erase(m.begin() + i); break; }
        }
      } else if (k < 77 && !undef.empty()) {
        TyFS f = undef[below(undef.size())];
        note("remove other " + S(f)); repo.remove(f);
        undef.erase(std::find(undef.begin(), undef.end(), f));
      } else if (k < 80) {
        note("reset"); repo.reset(); undef.clear();
        for (int x = 0; x < 3; x++) for (int t = 0; t < nt; t++) M[x][t].clear();
      }
      if (chance(40)) continue;
      for (int x = 0; x < 3; x++) for (int t = 0; t < nt; t++) {
        if (chance(50)) continue;
        VF exp;
        for (int s = 0; s < nt; s++) { int a = s; while (a >= 0 && a != t) a = par[a]; if (a == t) exp.insert(exp.end(), M[x][s].begin(), M[x][s].end()); }
        IndexABase const &ix = repo.getLowlevelIndex(icu::UnicodeString(nm[x]), T[t]);
        note(std::string("iterate ") + nm[x] + " of type " + S(t));
        if (ix.getSize() != exp.size()) fail(std::string("the ") + nm[x] + " index of type " + S(t) + " reports " + S(ix.getSize()) + " structures instead of " + S(exp.size()));
        if (!restrictions && !ts.isMaximalType(T[t]) && chance(30)) {
          std::set<TyFSType> tset;
          VF acc;
          for (int s = 0; s < nt; s++) { int a = s; while (a >= 0 && a != t) a = par[a]; if (a == t && chance(60)) { tset.insert(T[s]); acc.insert(acc.end(), M[x][s].begin(), M[x][s].end()); } }
          note("iterate over some types first");
          IndexIterator *si = ix.createTypeSetIterator(tset);
          if (sorted(walk(si, exp.size())) != sorted(acc)) fail(std::string("an iterator over some types of the ") + nm[x] + " index of type " + S(t) + " does not list exactly the structures of these types that are in the index");
          delete si;
        }
        IndexIterator *it = ix.createIterator();
        VF got = walk(it, exp.size()), bk = back(it, exp.size());
        if (sorted(got) != sorted(exp)) fail(std::string("the ") + nm[x] + " index of type " + S(t) + " does not list exactly the structures of the type and its subtypes that are in the index");
        if (x == 2) for (int s = 0; s < nt; s++) {
          VF part;
          for (size_t i = 0; i < got.size(); i++) if (tp[got[i]] == s) part.push_back(got[i]);
          if (!part.empty() && part != M[2][s]) fail("the fifo index of type " + S(t) + " does not list the structures of type " + S(s) + " in the order they were added");
        }
        if (bk != got) fail("backward iteration is not the reverse of forward iteration");
        if (x == 0) for (size_t i = 0; i + 1 < got.size(); i++) if (kc[0] == IndexComparator::STANDARD_COMPARE ? key[got[i]] > key[got[i + 1]] : key[got[i]] < key[got[i + 1]]) fail("structures " + S(got[i]) + ", " + S(got[i + 1]) + " are iterated in the wrong order");
        if (!all.empty()) {
          TyFS f = all[below(all.size())];
          TyFS e = ix.find(f);
          bool any = false, ok = false;
          for (size_t i = 0; i < exp.size(); i++) { bool q = x == 2 ? exp[i] == f : key[exp[i]] == key[f]; any = any || q; ok = ok || (q && exp[i] == e); }
          if (any ? !ok : e != 0) fail(std::string("find(") + S(f) + ") on the " + nm[x] + " index of type " + S(t) + " returns " + S(e));
        }
        if (restrictions) {
          VF probe;
          for (int i = 0; i < 3 && !all.empty(); i++) probe.push_back(all[below(all.size())]);
          Odd flt;
          for (size_t i = 0; i < all.size(); i++) if (chance(50)) flt.out.insert(all[i]);
          VF acc;
          for (size_t i = 0; i < got.size(); i++) if (!flt.out.count(got[i])) acc.push_back(got[i]);
          IndexIterator *fi = ix.createFilteredIterator(&flt);
          if (x != 1) restricted("filtered iterator", fi, it, got, acc, probe);
          delete fi;
          std::set<TyFSType> tset;
          std::set<int> tn;
          for (int s = 0; s < nt; s++) { int a = s; while (a >= 0 && a != t) a = par[a]; if (a == t && chance(50)) { tset.insert(T[s]); tn.insert(s); } }
          if (!ts.isMaximalType(T[t])) {
            acc.clear();
            for (size_t i = 0; i < got.size(); i++) if (tn.count(tp[got[i]])) acc.push_back(got[i]);
            IndexIterator *si = ix.createTypeSetIterator(tset);
            if (x != 1) restricted("type set iterator", si, it, got, acc, probe);
            delete si;
          }
        }
        delete it;
      }
      if (!all.empty()) {
        TyFS f = all[below(all.size())];
        bool in = false;
        for (int x = 0; x < 3; x++) in = in || std::find(M[x][tp[f]].begin(), M[x][tp[f]].end(), f) != M[x][tp[f]].end();
        if (repo.contains(f) != in) fail("contains(" + S(f) + ") is " + S(!in));
      }
      VF want(undef), ser(1, 999999);
      for (int x = 0; x < 3; x++) for (int t = 0; t < nt; t++) want.insert(want.end(), M[x][t].begin(), M[x][t].end());
      std::sort(want.begin(), want.end());
      want.erase(std::unique(want.begin(), want.end()), want.end());
      repo.getIndexedFSs(ser);
      if (ser != want) fail("getIndexedFSs does not list each indexed structure exactly once");
    }
    delete cas; delete def;
  }
  printf("replay found no failing input\n");
  return 0;
}
