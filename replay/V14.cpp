// replay of V14: random histories of add, remove, find, reset and iteration over an ordered and a FIFO index
#include "rp.hpp"
#include <uima/lowlevel_indexdefinition.hpp>
#include <uima/lowlevel_indexcomparator.hpp>
#include <uima/lowlevel_indexrepository.hpp>
#include <uima/lowlevel_indexiterator.hpp>
#include <uima/lowlevel_internal_indexes.hpp>
namespace uima { namespace lowlevel { namespace internal { int compareWithoutEquality(IndexComparator const *, uima::lowlevel::FSHeap const &, TyFS, TyFS); } } }
using namespace uima;
using namespace uima::lowlevel;
using namespace rp;
typedef uima::lowlevel::internal::OrderedSingleIndex OI;
typedef uima::lowlevel::internal::FIFOSingleIndex FI;
int main(int argc, char **argv) {
  init(argc, argv);
  for (int round = 0; round < 300; round++) {
    what.clear();
    startup();
    uima::internal::CASDefinition *def = new uima::internal::CASDefinition((AnnotatorContext const *)NULL);
    def->init();
    lowlevel::TypeSystem &ts = *def->iv_typeSystem;
    TyFSType T = ts.createType(ts.getTopType(), icu::UnicodeString("t.A"), icu::UnicodeString("r"));
    TyFSFeature A = ts.createFeature(T, uima::internal::gs_tyIntegerType, false, icu::UnicodeString("a"), icu::UnicodeString("r"));
    TyFSFeature B = ts.createFeature(T, uima::internal::gs_tyIntegerType, false, icu::UnicodeString("b"), icu::UnicodeString("r"));
    def->commitTypeSystem();
    def->commitIndexDefinition();
    uima::internal::CASImpl *cas = uima::internal::CASImpl::createCASImpl(*def, false);
    FSHeap &h = cas->getHeap();
    IndexComparator *c = new IndexComparator(*def->iv_indexDefinition, T);
    int nk = below(3);
    bool rev[2] = {chance(40), chance(40)};
    for (int i = 0; i < nk; i++) c->addKey(i ? B : A, rev[i] ? IndexComparator::REVERSE_STANDARD_COMPARE : IndexComparator::STANDARD_COMPARE);
    note("index with " + S(nk) + " keys");
    IndexRepository &repo = *cas->iv_indexRepository;
    OI *o = new OI(repo, T, c);
    FI *q = new FI(repo, T);
    int range = 1 + below(chance(30) ? 20 : 5);
    std::vector<TyFS> all, ord, fifo;      // ord: the ordered index as a set of positions, checked against its iterator
    std::map<TyFS, std::pair<int, int> > key;
    int ops = chance(20) ? 150 : 8 + below(30);
    for (int op = 0; op < ops; op++) {
      int k = below(100);
      if (k < 45 || all.empty()) {
        TyFS f;
        if (!all.empty() && chance(10)) f = all[below(all.size())];
        else {
          f = h.createFS(T);
          int a = (int)below(range), b = (int)below(range);
          h.setIntValue(f, A, a); h.setIntValue(f, B, b);
          key[f] = std::make_pair(a, b);
          all.push_back(f);
        }
        note("add " + S(f) + " (" + S(key[f].first) + "," + S(key[f].second) + ")");
        ((IndexABase *)o)->add(f); ((IndexABase *)q)->add(f);
        ord.push_back(f); fifo.push_back(f);
      } else if (k < 75) {
        TyFS f = all[below(all.size())];
        note("remove " + S(f));
        ((IndexABase *)o)->remove(f); ((IndexABase *)q)->remove(f);
        std::vector<TyFS>::iterator i = std::find(ord.begin(), ord.end(), f);
        if (i != ord.end()) ord.erase(i);
        i = std::find(fifo.begin(), fifo.end(), f);
        if (i != fifo.end()) fifo.erase(i);
      } else if (k < 78) {
        note("reset");
        ((IndexABase *)o)->reset(); ((IndexABase *)q)->reset();
        ord.clear(); fifo.clear();
      }
      if (o->getSize() != ord.size()) fail("the ordered index has " + S(o->getSize()) + " structures instead of " + S(ord.size()));
      if (q->getSize() != fifo.size()) fail("the FIFO index has " + S(q->getSize()) + " structures instead of " + S(fifo.size()));
      IndexIterator *it = o->createIterator();
      std::vector<TyFS> got;
      for (it->moveToFirst(); it->isValid() && got.size() <= ord.size(); it->moveToNext()) got.push_back(it->get());
      std::vector<TyFS> x(got), y(ord);
      std::sort(x.begin(), x.end()); std::sort(y.begin(), y.end());
      if (x != y) fail("the ordered index does not hold exactly the structures added and not removed");
      for (size_t i = 0; i + 1 < got.size(); i++) if (c->compare(h, got[i], got[i + 1]) < 0) fail("structures " + S(got[i]) + ", " + S(got[i + 1]) + " are iterated in the wrong order");
      std::vector<TyFS> back;
      for (it->moveToLast(); it->isValid() && back.size() <= ord.size(); it->moveToPrevious()) back.push_back(it->get());
      std::reverse(back.begin(), back.end());
      if (back != got) fail("backward iteration is not the reverse of forward iteration");
      TyFS f = all[below(all.size())];
      TyFS e = ((IndexABase const *)o)->find(f);
      bool any = false;
      for (size_t i = 0; i < got.size(); i++) any = any || c->compare(h, got[i], f) == 0;
      if (any ? e == 0 || std::find(got.begin(), got.end(), e) == got.end() || c->compare(h, e, f) != 0 : e != 0) fail("find(" + S(f) + ") on the ordered index returns " + S(e));
      size_t from = got.empty() ? 0 : below(got.size());
      it->moveToFirst();
      for (size_t i = 0; i < from; i++) it->moveToNext();
      size_t at = std::find(got.begin(), got.end(), f) - got.begin();
      if (at == got.size()) for (at = 0; at < got.size() && c->compare(h, got[at], f) > 0;) at++;
      bool ok = it->moveTo(f);
      if (ok != (at < got.size())) fail("moveTo(" + S(f) + ") returns " + S(ok));
      if (ok && it->get() != got[at]) fail("moveTo(" + S(f) + ") stops at " + S(it->get()) + " instead of " + S(got[at]));
      if (!ok && !got.empty() && (!it->isValid() || it->get() != got[from])) fail("a failed moveTo moves the iterator");
      delete it;
      it = q->createIterator();
      got.clear();
      for (it->moveToFirst(); it->isValid() && got.size() <= fifo.size(); it->moveToNext()) got.push_back(it->get());
      if (got != fifo) fail("the FIFO index does not hold the structures in the order they were added");
      from = got.empty() ? 0 : below(got.size());
      it->moveToFirst();
      for (size_t i = 0; i < from; i++) it->moveToNext();
      at = std::find(got.begin(), got.end(), f) - got.begin();
      ok = it->moveTo(f);
      if (ok != (at < got.size())) fail("moveTo(" + S(f) + ") on the FIFO index returns " + S(ok));
      if (ok && (!it->isValid() || it->get() != f)) fail("moveTo(" + S(f) + ") on the FIFO index stops elsewhere");
      if (!ok && !got.empty() && (!it->isValid() || it->get() != got[from])) fail("a failed moveTo moves the iterator of the FIFO index");
      delete it;
      e = ((IndexABase const *)q)->find(f);
      if (e != (std::find(fifo.begin(), fifo.end(), f) != fifo.end() ? f : 0)) fail("find(" + S(f) + ") on the FIFO index returns " + S(e));
      TyFS g = all[below(all.size())];
      int ab = c->compare(h, f, g), w = uima::lowlevel::internal::compareWithoutEquality(c, h, f, g);
      if (ab != 0 ? (w > 0) != (ab > 0) || w == 0 : (w == 0) != (f == g) || (w > 0) != (f < g)) fail("compareWithoutEquality(" + S(f) + ", " + S(g) + ") returns " + S(w));
    }
    delete o; delete q; delete c; delete cas; delete def;
  }
  printf("replay found no failing input\n");
  return 0;
}
