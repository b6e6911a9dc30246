// replay of V08: random list histories of the four kinds against a shadow graph of elements
#include "rp.hpp"
using namespace uima;
using namespace uima::lowlevel;
using namespace uima::internal;
using namespace rp;
typedef std::basic_string<UChar> US;
static Env *E;
static TyFSType TL;
template <class F> static std::string run(F f) {
  try { f(); return ""; }
  catch (InvalidFSObjectException &) { return "InvalidFSObjectException"; }
  catch (InvalidFSFeatureObjectException &) { return "InvalidFSFeatureObjectException"; }
  catch (FeatureNotAppropriateException &) { return "FeatureNotAppropriateException"; }
  catch (FSIsNotListException &) { return "FSIsNotListException"; }
  catch (ListIsEmptyException &) { return "ListIsEmptyException"; }
  catch (ListIsCircularException &) { return "ListIsCircularException"; }
  catch (Exception &) { return "another exception"; }
}
static void expect(const std::string &op, const std::string &want, const std::string &got) {
  if (want != got) fail(op + (got.empty() ? " returns" : " throws " + got) + ", expected " + (want.empty() ? "a return" : want));
}
static TyFS ref(FeatureStructure const &f) { return f.iv_tyFS; }
static size_t top() { return E->heap->iv_clTemporaryHeap.getTopOfHeap(); }
static std::vector<TyFS> plain;   // structures to put into lists
struct FsK { typedef TyFS V; typedef FeatureStructure T; typedef ListFS L; static const char *name() { return "FS"; }
  static V any() { return plain[below(plain.size())]; }
  static T mk(V const &v) { return FeatureStructure(v, *E->cas); }
  static V un(T const &t) { return ref(t); }
  static bool same(V a, V b) { return a == b; } static bool eq(V a, V b) { return a == b; }
  static TyFSType lt() { return gs_tyFSListType; } static TyFSType et() { return gs_tyEListType; } static TyFSType nt() { return gs_tyNEListType; }
  static L get(FeatureStructure const &f, Feature const &x) { return f.getListFSValue(x); } };
struct FlK { typedef float V; typedef float T; typedef FloatListFS L; static const char *name() { return "Float"; }
  static V any() { if (chance(60)) { static const float b[] = {0.0f, -0.0f, 1.5f, -1.0f, 1e-40f, 3e38f}; return b[below(6)]; } int32_t b = (int32_t)val(); float z; memcpy(&z, &b, 4); return z != z ? 2.5f : z; }
  static T mk(V const &v) { return v; } static V un(T const &t) { return t; }
  static bool same(V a, V b) { return memcmp(&a, &b, 4) == 0; } static bool eq(V a, V b) { return a == b; }
  static TyFSType lt() { return gs_tyFloatListType; } static TyFSType et() { return gs_tyEFloatListType; } static TyFSType nt() { return gs_tyNEFloatListType; }
  static L get(FeatureStructure const &f, Feature const &x) { return f.getFloatListFSValue(x); } };
struct InK { typedef int V; typedef int T; typedef IntListFS L; static const char *name() { return "Int"; }
  static V any() { return chance(50) ? (int)below(5) : (int)val(); }
  static T mk(V const &v) { return v; } static V un(T const &t) { return t; }
  static bool same(V a, V b) { return a == b; } static bool eq(V a, V b) { return a == b; }
  static TyFSType lt() { return gs_tyIntListType; } static TyFSType et() { return gs_tyEIntListType; } static TyFSType nt() { return gs_tyNEIntListType; }
  static L get(FeatureStructure const &f, Feature const &x) { return f.getIntListFSValue(x); } };
struct StK { typedef US V; typedef UnicodeStringRef T; typedef StringListFS L; static const char *name() { return "String"; }
  static V any() { US s; size_t n = chance(60) ? below(3) : below(20); for (size_t i = 0; i < n; i++) s += chance(70) ? (UChar)('a' + below(2)) : (UChar)(1 + below(65535)); return s; }
  static T mk(V const &v) { return UnicodeStringRef(v.data(), (int)v.size()); }
  static V un(T const &t) { return t.getBuffer() ? US(t.getBuffer(), t.length()) : US(); }
  static bool same(V const &a, V const &b) { return a == b; } static bool eq(V const &a, V const &b) { return a == b; }
  static TyFSType lt() { return gs_tyStringListType; } static TyFSType et() { return gs_tyEStringListType; } static TyFSType nt() { return gs_tyNEStringListType; }
  static L get(FeatureStructure const &f, Feature const &x) { return f.getStringListFSValue(x); } };
struct Any { virtual ~Any() {} virtual void step() = 0; virtual void check() = 0; };
static std::vector<Any *> all;
template <class K> struct Run : Any {
  typedef typename K::V V; typedef typename K::T T; typedef typename K::L L;
  struct Node { V head; TyFS tail; };
  std::map<TyFS, Node> nodes; std::set<TyFS> ends; std::vector<TyFS> refs;
  Feature feat; std::vector<TyFS> owners; std::map<TyFS, TyFS> fv;
  L at(TyFS r) { return L(FeatureStructure(r, *E->cas)); }
  std::vector<TyFS> chain(TyFS r) { std::vector<TyFS> c; while (nodes.count(r)) { c.push_back(r); r = nodes[r].tail; } c.push_back(r); return c; }
  TyFS pick() { return refs[chance(50) ? refs.size() - 1 - below(std::min<size_t>(refs.size(), 5)) : below(refs.size())]; }
  void add(TyFS r, V const &v, TyFS t) { if (nodes.count(r) || ends.count(r)) fail("a new list element overlaps another"); Node n; n.head = v; n.tail = t; nodes[r] = n; refs.push_back(r); }
  void end(TyFS r) { if (nodes.count(r) || ends.count(r)) fail("a new empty list overlaps another structure"); ends.insert(r); refs.push_back(r); }
  std::string at_(const char *op, TyFS r) { return std::string(op) + " on " + K::name() + " list " + S(r); }
  void fresh() {
    size_t t = top(); L l;
    if (chance(50)) { note(std::string("create empty ") + K::name() + " list"); l = L::createListFS(*E->cas); if (ref(l) < t) fail("an empty list is not fresh"); if (!l.isEmpty() || l.getLength() != 0) fail("a new empty list is not empty"); end(ref(l)); }
    else { V v = K::any(); note(std::string("create ") + K::name() + " list of one"); l = L::createListFS(*E->cas, K::mk(v)); if (ref(l) < t) fail("a list of one is not fresh"); TyFS e = ref(l.getTail()); if (e < t || e == ref(l)) fail("the end of a list of one is not fresh"); end(e); add(ref(l), v, e); }
  }
  void step() {
    if (refs.empty() || chance(8)) { fresh(); return; }
    TyFS r = pick(); size_t t = top();
    std::vector<TyFS> c = chain(r); size_t n = c.size() - 1;
    std::string got; L o = at(r);
    int op = below(14);
    if (chance(2)) {
      L bad; std::string w = "InvalidFSObjectException"; V v = K::any(); note("use of an invalid list");
      expect("isEmpty of an invalid list", w, run([&] { bad.isEmpty(); })); expect("getLength of an invalid list", w, run([&] { bad.getLength(); })); expect("getHead of an invalid list", w, run([&] { bad.getHead(); }));
      expect("setHead of an invalid list", w, run([&] { bad.setHead(K::mk(v)); })); expect("getTail of an invalid list", w, run([&] { bad.getTail(); })); expect("setTail of an invalid list", w, run([&] { bad.setTail(o); }));
      if (n) expect("setTail to an invalid list", w, run([&] { o.setTail(bad); }));
      expect("addFirst of an invalid list", w, run([&] { bad.addFirst(K::mk(v)); })); expect("addLast of an invalid list", w, run([&] { bad.addLast(K::mk(v)); })); expect("append to an invalid list", w, run([&] { bad.append(o); }));
      expect("append of an invalid list", w, run([&] { o.append(bad); })); expect("prepend to an invalid list", w, run([&] { bad.prepend(o); })); expect("prepend of an invalid list", w, run([&] { o.prepend(bad); }));
      expect("moveToNext of an invalid list", w, run([&] { bad.moveToNext(); })); expect("removeElement of an invalid list", w, run([&] { bad.removeElement(K::mk(v)); }));
      TyFS p = plain[below(plain.size())];
      expect("a list made of another structure", "FSIsNotListException", run([&] { L x(FeatureStructure(p, *E->cas)); }));
      if (top() != t) fail("a refused operation allocates");
      return;
    }
    if (op == 0 || op == 1) {
      V v = K::any(); note(at_("addFirst", r)); L x(o.addFirst(K::mk(v)));
      if (ref(x) != ref(o) || ref(x) < t) fail("addFirst does not return the list with the new element in front");
      add(ref(x), v, r);
    } else if (op < 5) {
      V v = K::any(); note(at_("addLast", r)); L x(o.addLast(K::mk(v)));
      if (ref(x) < t) fail("addLast does not return the new element");
      if (ref(o) != (n ? r : ref(x))) fail("after addLast the object is at another element");
      add(ref(x), v, c[n]); if (n) nodes[c[n - 1]].tail = ref(x);
    } else if (op < 7) {
      bool pre = op == 6; TyFS q = pick(); std::vector<TyFS> d = chain(q);
      if (q != r) for (size_t i = 0; i < d.size(); i++) if (std::count(c.begin(), c.end(), d[i])) return;
      note(at_(pre ? "prepend" : "append", r) + " of " + S(q));
      L p = at(q), x;
      got = run([&] { x = L(pre ? o.prepend(p) : o.append(p)); });
      expect(pre ? "prepend" : "append", q == r && n ? "ListIsCircularException" : "", got);
      if (!got.empty()) { if (top() != t) fail("a refused join allocates"); return; }
      std::vector<TyFS> &a = pre ? d : c, &z = pre ? c : d; size_t m = a.size() - 1;
      TyFS want = m ? a[0] : z[0];
      if (ref(o) != want || ref(x) != want) fail("a joined list starts at another element");
      if (m) nodes[a[m - 1]].tail = z[0];
      if (top() != t) fail("joining lists allocates");
    } else if (op < 11) {
      V v = n && chance(75) ? nodes[c[below(n)]].head : K::any();
      size_t i = 0; while (i < n && !K::eq(nodes[c[i]].head, v)) i++;
      // an element shared by several lists has other predecessors too: they keep their link
      note(at_("removeElement", r) + " expected at " + S(i) + " of " + S(n));
      L x; x = L(o.removeElement(K::mk(v)));
      if (i == n) { if (x.isValid() || ref(x)) fail("removeElement finds a value that the list does not hold"); if (ref(o) != r || top() != t) fail("removeElement without a match changes something"); return; }
      if (ref(x) != c[i]) fail("removeElement returns another element");
      TyFS e = ref(x.getTail()); if (e < t) fail("the removed element does not become a list of its own");
      end(e); nodes[c[i]].tail = e; if (i) nodes[c[i - 1]].tail = c[i + 1];
      if (ref(o) != (i ? r : c[1])) fail("after removeElement the object is at another element");
    } else if (op == 11) {
      V v = K::any(); note(at_("setHead", r)); got = run([&] { o.setHead(K::mk(v)); }); expect("setHead", n ? "" : "ListIsEmptyException", got);
      if (n) nodes[r].head = v; if (top() != t) fail("setHead allocates a structure");
    } else if (op == 12) {
      TyFS q = pick(); std::vector<TyFS> d = chain(q); if (std::count(d.begin(), d.end(), r) && n) return;
      note(at_("setTail", r) + " to " + S(q)); L p = at(q); got = run([&] { o.setTail(p); }); expect("setTail", n ? "" : "ListIsEmptyException", got);
      if (n) nodes[r].tail = q; if (top() != t) fail("setTail allocates a structure");
    } else {
      // list features
      if (owners.empty() || chance(20)) { TyFS x = ref(E->cas->createFS(FSPromoter::promoteType(TL, *E->ts))); owners.push_back(x); fv[x] = 0; note("create owner " + S(x)); t = top(); }
      TyFS w = owners[below(owners.size())]; FeatureStructure f(w, *E->cas);
      if (fv[w] && chance(50)) { note("set list feature of " + S(w) + " to " + S(r)); f.setFSValue(feat, o); fv[w] = r; }
      bool h = f.hasListElements(feat); if (h != (fv[w] && nodes.count(fv[w]))) fail("hasListElements differs"); if (top() != t) fail("hasListElements allocates");
      L x = K::get(f, feat); note(std::string("get") + K::name() + "ListFSValue of " + S(w));
      if (fv[w]) { if (ref(x) != fv[w]) fail("the list feature refers to another list"); }
      else { if (ref(x) < t || !x.isEmpty()) fail("an unset list feature does not become a fresh empty list"); end(ref(x)); fv[w] = ref(x); t = top(); }
      TyFS p = plain[below(plain.size())]; FeatureStructure g(p, *E->cas), inv;
      expect("list getter on an invalid object", "InvalidFSObjectException", run([&] { K::get(inv, feat); })); expect("hasListElements on an invalid object", "InvalidFSObjectException", run([&] { inv.hasListElements(feat); }));
      Feature nof; expect("list getter with an invalid feature", "InvalidFSFeatureObjectException", run([&] { K::get(f, nof); })); expect("hasListElements with an invalid feature", "InvalidFSFeatureObjectException", run([&] { f.hasListElements(nof); }));
      expect("list getter with a feature of another type", "FeatureNotAppropriateException", run([&] { K::get(g, feat); })); expect("hasListElements with a feature of another type", "FeatureNotAppropriateException", run([&] { g.hasListElements(feat); }));
      Feature num = FSPromoter::promoteFeature(E->feats.back(), *E->ts);
      expect("list getter with a feature of another range", "FSIsNotListException", run([&] { K::get(f, num); })); expect("hasListElements with a feature of another range", "FSIsNotListException", run([&] { f.hasListElements(num); }));
      if (top() != t) fail("a refused list access allocates");
    }
  }
  void check() {
    for (typename std::map<TyFS, Node>::iterator i = nodes.begin(); i != nodes.end(); ++i) {
      if (E->heap->getType(i->first) != K::nt()) fail("list element " + S(i->first) + " has another type");
      L o = at(i->first);
      if (o.isEmpty()) fail("list element " + S(i->first) + " is empty");
      if (!K::same(K::un(o.getHead()), i->second.head)) fail(std::string(K::name()) + " list element " + S(i->first) + " has another value");
      if (ref(o.getTail()) != i->second.tail) fail(std::string(K::name()) + " list element " + S(i->first) + " is followed by " + S(ref(o.getTail())) + ", expected " + S(i->second.tail));
      L p = o; p.moveToNext(); if (ref(p) != i->second.tail) fail("moveToNext goes elsewhere");
    }
    for (std::set<TyFS>::iterator i = ends.begin(); i != ends.end(); ++i) {
      if (E->heap->getType(*i) != K::et()) fail("the empty list " + S(*i) + " has another type");
      L o = at(*i); if (!o.isEmpty() || o.getLength() != 0) fail("the empty list " + S(*i) + " is not empty");
      expect("getHead of an empty list", "ListIsEmptyException", run([&] { o.getHead(); })); expect("getTail of an empty list", "ListIsEmptyException", run([&] { o.getTail(); })); expect("moveToNext of an empty list", "ListIsEmptyException", run([&] { o.moveToNext(); }));
    }
    if (refs.size()) { TyFS r = pick(); size_t n = chain(r).size() - 1; L o = at(r); if (o.getLength() != n) fail(at_("getLength", r) + " gives " + S(o.getLength()) + ", the list has " + S(n)); }
    for (size_t i = 0; i < owners.size(); i++) if (E->heap->getFSValue(owners[i], FSPromoter::demoteFeature(feat)) != fv[owners[i]]) fail("a list feature changed");
  }
};
int main(int argc, char **argv) {
  init(argc, argv);
  for (int round = 0; round < 40; round++) {
    what.clear(); plain.clear(); all.clear();
    E = makeEnv(3, 8, false);
    TL = E->ts->createType(E->ts->getTopType(), icu::UnicodeString("t.Owner"), icu::UnicodeString("replay"));
    TyFSType lts[] = {gs_tyFSListType, gs_tyFloatListType, gs_tyIntListType, gs_tyStringListType};
    TyFSFeature lf[4];
    for (int i = 0; i < 4; i++) lf[i] = E->ts->createFeature(TL, lts[i], false, icu::UnicodeString(("l" + S(i)).c_str()), icu::UnicodeString("replay"));
    E->feats.push_back(E->ts->createFeature(TL, gs_tyIntegerType, false, icu::UnicodeString("num"), icu::UnicodeString("replay")));
    E->def->commitTypeSystem(); E->def->commitIndexDefinition();
    E->cas = CASImpl::createCASImpl(*E->def, false); E->heap = &E->cas->getHeap();
    for (int i = 0; i < 4; i++) plain.push_back(ref(E->cas->createFS(FSPromoter::promoteType(E->types[below(E->types.size())], *E->ts))));
    Run<FsK> *a = new Run<FsK>; Run<FlK> *b = new Run<FlK>; Run<InK> *c = new Run<InK>; Run<StK> *d = new Run<StK>;
    a->feat = FSPromoter::promoteFeature(lf[0], *E->ts); b->feat = FSPromoter::promoteFeature(lf[1], *E->ts); c->feat = FSPromoter::promoteFeature(lf[2], *E->ts); d->feat = FSPromoter::promoteFeature(lf[3], *E->ts);
    all.push_back(a); all.push_back(b); all.push_back(c); all.push_back(d);
    for (int i = 0; i < 250; i++) {
      all[below(4)]->step();
      if (i % 3 == 0 || i > 240) for (int k = 0; k < 4; k++) all[k]->check();
    }
  }
  printf("no failing history found\n");
  return 0;
}
