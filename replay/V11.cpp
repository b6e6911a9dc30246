// replay of V11: random use of the FeatureStructure API, fitting and not fitting, against a shadow store
#include "rp.hpp"
using namespace uima;
using namespace uima::lowlevel;
using namespace uima::internal;
using namespace rp;
typedef std::basic_string<UChar> US;
struct Val { int64_t i; US s; bool set; Val() : i(0), set(false) {} };
struct Obj { TyFSType t; CAS *cas; std::map<TyFSFeature, Val> v; };
static Env *E;
static CAS *view[2];
static std::map<TyFS, Obj> objs;
static std::vector<TyFS> refs;
static bool anc(TyFSType a, TyFSType b) { for (;;) { if (a == b) return true; TyFSType p = E->parent.count(b) ? E->parent[b] : (TyFSType)0; if (!p) { if (E->parent.count(b)) return false; p = E->ts->iv_vecParents[b]; } if (p == b || p == 0) return false; b = p; } }
static bool approp(TyFSType t, TyFSFeature f) { return E->intro.count(f) && anc(E->intro[f], t); }
static uint64_t sum() { FSHeap *h = E->heap; uint64_t r = 0; for (size_t i = 1; i < h->iv_clTemporaryHeap.getTopOfHeap(); i++) r = r * 1000003ULL + h->iv_clTemporaryHeap.getHeapValue(i);
  return r * 31 + h->iv_clTemporaryStringRefHeap.getTopOfHeap() * 7ULL + h->iv_clTemporary64BitHeap.getTopOfHeap() * 777ULL; }
template <class F> static std::string run(F f) {
  try { f(); return ""; }
  catch (InvalidFSObjectException &) { return "InvalidFSObjectException"; }
  catch (InvalidFSFeatureObjectException &) { return "InvalidFSFeatureObjectException"; }
  catch (InvalidFSTypeObjectException &) { return "InvalidFSTypeObjectException"; }
  catch (FeatureNotAppropriateException &) { return "FeatureNotAppropriateException"; }
  catch (IncompatibleValueTypeException &) { return "IncompatibleValueTypeException"; }
  catch (FSIsNotStringException &) { return "FSIsNotStringException"; }
  catch (FSIsNotArrayException &) { return "FSIsNotArrayException"; }
  catch (WrongStringValueException &) { return "WrongStringValueException"; }
  catch (CouldNotCreateFSOfFinalTypeException &) { return "CouldNotCreateFSOfFinalTypeException"; }
  catch (Exception &) { return "another exception"; }
}
static void expect(const std::string &op, const std::string &want, const std::string &got) {
  if (want != got) fail(op + (got.empty() ? " returns" : " throws " + got) + ", expected " + (want.empty() ? "a return" : want));
}
static TyFSType KT[] = {gs_tyIntegerType, gs_tyFloatType, gs_tyBooleanType, gs_tyByteType, gs_tyShortType, gs_tyLongType, gs_tyDoubleType};
static const char *KN[] = {"Int", "Float", "Boolean", "Byte", "Short", "Long", "Double"};
static int64_t norm(int k, int64_t v) {
  switch (k) { case 0: return (int)v; case 1: { int32_t b = (int32_t)v; float z; memcpy(&z, &b, 4); return z != z ? 0x40200000 : b; } case 2: return v & 1; case 3: return (char)v; case 4: return (short)v; case 5: return v; }
  double z; memcpy(&z, &v, 8); return z != z ? 0x4004000000000000LL : v;
}
static int64_t get(FeatureStructure const &f, Feature const &x, int k) {
  switch (k) { case 0: return f.getIntValue(x); case 1: { float z = f.getFloatValue(x); int32_t b; memcpy(&b, &z, 4); return b; } case 2: return f.getBooleanValue(x); case 3: return f.getByteValue(x); case 4: return f.getShortValue(x); case 5: return f.getLongValue(x); }
  double z = f.getDoubleValue(x); int64_t b; memcpy(&b, &z, 8); return b;
}
static void set(FeatureStructure &f, Feature const &x, int k, int64_t v) {
  switch (k) { case 0: f.setIntValue(x, (int)v); break; case 1: { int32_t b = (int32_t)v; float z; memcpy(&z, &b, 4); f.setFloatValue(x, z); break; } case 2: f.setBooleanValue(x, v != 0); break; case 3: f.setByteValue(x, (char)v); break;
    case 4: f.setShortValue(x, (short)v); break; case 5: f.setLongValue(x, v); break; default: { double z; memcpy(&z, &v, 8); f.setDoubleValue(x, z); } }
}
static bool prim(TyFSType r) { for (int i = 0; i < 7; i++) if (KT[i] == r) return true; return anc(gs_tyStringType, r); }
static FeatureStructure pick(TyFS &a) {
  if (chance(3)) { a = 0; return FeatureStructure(); }
  if (chance(2)) { a = 0; return FeatureStructure(0, *E->cas); }
  if (chance(2)) { a = 0; return FeatureStructure(E->heap->iv_clTemporaryHeap.getTopOfHeap() + below(3), *E->cas); }
  a = refs[chance(50) ? refs.size() - 1 - below(std::min<size_t>(refs.size(), 4)) : below(refs.size())];
  return FeatureStructure(a, *objs[a].cas);
}
static Feature pickf(TyFS a, TyFSFeature &f, int k) {
  if (chance(3)) { f = 0; return Feature(); }
  f = E->feats[below(E->feats.size())];
  if (chance(85)) for (int n = 0; n < 60 && !((a == 0 || approp(objs[a].t, f)) && (k < 0 || (k < 7 && E->range[f] == KT[k]) || (k == 7 && !prim(E->range[f])) || (k == 8 && anc(gs_tyStringType, E->range[f])))); n++) f = E->feats[below(E->feats.size())];
  return FSPromoter::promoteFeature(f, *E->ts);
}
static std::string first(TyFS a, TyFSFeature f) { return a == 0 ? "InvalidFSObjectException" : f == 0 ? "InvalidFSFeatureObjectException" : !approp(objs[a].t, f) ? "FeatureNotAppropriateException" : ""; }
static void verify(TyFS a) {
  Obj &o = objs[a];
  FeatureStructure f(a, *o.cas);
  if (!f.isValid()) fail("structure " + S(a) + " is invalid");
  if (FSPromoter::demoteType(f.getType()) != o.t) fail("structure " + S(a) + " has another type than it was created with");
  for (size_t j = 0; j < E->feats.size(); j++) {
    TyFSFeature x = E->feats[j]; if (!approp(o.t, x)) continue;
    Feature ft = FSPromoter::promoteFeature(x, *E->ts); Val &v = o.v[x]; TyFSType r = E->range[x];
    for (int k = 0; k < 7; k++) if (KT[k] == r && get(f, ft, k) != v.i) fail("structure " + S(a) + " feature " + S(x) + " reads " + S(get(f, ft, k)) + ", last set to " + S(v.i));
    if (anc(gs_tyStringType, r)) { UnicodeStringRef g = f.getStringValue(ft); if (v.set ? (g.getBuffer() == 0 || US(g.getBuffer(), g.length()) != v.s) : g.getBuffer() != 0) fail("structure " + S(a) + " string feature " + S(x) + " differs from the text last set"); }
    else if (!prim(r)) { FeatureStructure g = f.getFSValue(ft); if ((int64_t)g.iv_tyFS != v.i) fail("structure " + S(a) + " feature " + S(x) + " refers to " + S(g.iv_tyFS) + ", last set to " + S(v.i));
      CAS *want = v.i && anc(gs_tyAnnotationType, objs[v.i].t) ? objs[v.i].cas : o.cas;
      if (g.iv_cas != want) fail("getFSValue gives structure " + S(v.i) + " in another view"); }
    if (f.isUntouchedFSValue(ft) != (E->heap->getFeatureInternal(a, x) == 0)) fail("isUntouchedFSValue is wrong");
  }
}
static TyFS add(TyFS a, TyFSType t, CAS *c) { Obj &o = objs[a]; o.t = t; o.cas = c; o.v.clear(); refs.push_back(a); return a; }
int main(int argc, char **argv) {
  init(argc, argv);
  for (int round = 0; round < 100; round++) {
    what.clear(); objs.clear(); refs.clear();
    E = makeEnv(3 + below(8), 14 + below(20));
    view[0] = E->cas->getView(icu::UnicodeString("_InitialView"));
    view[1] = E->cas->createView(icu::UnicodeString("two"));
    view[0]->setDocumentText(UnicodeStringRef(icu::UnicodeString("x")));
    for (int i = 0; i < 6; i++) { TyFSType t = E->types[below(E->types.size())]; CAS *c = view[below(2)]; FeatureStructure f = c->createFS(FSPromoter::promoteType(t, *E->ts)); add(f.iv_tyFS, t, c); }
    Env *E2 = 0;
    for (int step = 0; step < 250; step++) {
      TyFS a, b; TyFSFeature f; std::string want, got; int op = below(10);
      if (op == 0 || refs.empty()) {
        CAS *c = view[below(2)];
        TyFSType t = chance(75) ? E->types[below(E->types.size())] : chance(30) ? 0 : chance(60) ? KT[below(7)] : gs_tyStringType;
        size_t top = E->heap->iv_clTemporaryHeap.getTopOfHeap(); FeatureStructure r;
        note("create type " + S(t));
        want = t == 0 ? "InvalidFSTypeObjectException" : prim(t) ? "CouldNotCreateFSOfFinalTypeException" : "";
        got = run([&] { r = c->createFS(t ? FSPromoter::promoteType(t, *E->ts) : Type()); });
        expect("createFS of type " + S(t), want, got);
        if (got.empty()) { if (r.iv_tyFS != top || r.iv_cas != c) fail("createFS gives structure " + S(r.iv_tyFS) + ", expected " + S(top)); add(r.iv_tyFS, t, c);
          if (E->heap->iv_clTemporaryHeap.getTopOfHeap() != top + 1 + E->ts->getFeatureNumber(t)) fail("createFS reserves another size than the type has features");
          if (anc(gs_tyAnnotationType, t) && E->heap->getFSValue(r.iv_tyFS, gs_tySofaRefFeature) != c->getSofa().iv_tyFS) fail("createFS records another subject of the annotation"); }
        else if (E->heap->iv_clTemporaryHeap.getTopOfHeap() != top) fail("a refused createFS allocates");
      } else if (op <= 3) {
        int k = below(7); FeatureStructure o = pick(a); Feature x = pickf(a, f, k);
        int64_t v = norm(k, val()); bool st = op != 3; uint64_t s0 = sum();
        note(std::string(st ? "set" : "get") + KN[k] + " " + S(a) + "." + S(f) + (st ? " = " + S(v) : ""));
        want = first(a, f); if (want.empty() && E->range[f] == E->ts->getTopType()) continue; if (want.empty() && E->range[f] != KT[k]) want = "IncompatibleValueTypeException";
        int64_t r = 0;
        got = run([&] { if (st) set(o, x, k, v); else r = get(o, x, k); });
        expect(std::string(st ? "set" : "get") + KN[k] + "Value of structure " + S(a) + " feature " + S(f), want, got);
        if (!got.empty() || !st) { if (sum() != s0) fail("a refused or reading access changed the CAS"); }
        if (got.empty() && st) objs[a].v[f].i = v;
        if (got.empty() && !st && r != objs[a].v[f].i) fail(std::string("get") + KN[k] + "Value gives " + S(r) + ", last set to " + S(objs[a].v[f].i));
      } else if (op <= 5) {
        FeatureStructure o = pick(a); Feature x = pickf(a, f, 7); bool st = op == 4; uint64_t s0 = sum();
        if (st) {
          int alien = chance(4) ? 1 : chance(3) ? 2 : 0; FeatureStructure p;
          if (alien == 1) { p = FeatureStructure(); b = 0; }
          else if (alien == 2) { if (!E2) E2 = makeEnv(2, 0); p = E2->cas->createFS(FSPromoter::promoteType(E2->types[0], *E2->ts)); b = 0; }
          else { b = refs[below(refs.size())]; if (f && chance(70)) for (int n = 0; n < 40 && !anc(E->range[f], objs[b].t); n++) b = refs[below(refs.size())]; p = FeatureStructure(b, *objs[b].cas); }
          note("setFS " + S(a) + "." + S(f) + " = " + (alien ? "alien" : S(b)));
          want = a == 0 ? "InvalidFSObjectException" : alien ? "InvalidFSObjectException" : first(a, f);
          if (want.empty()) { TyFSType t = objs[b].t, r = E->range[f]; if (t == gs_tyFSArrayType ? !(r == t || anc(t, r)) : !anc(r, t)) want = "IncompatibleValueTypeException"; }
          got = run([&] { if (step & 1) o.setFSValue(x, p); else o.setFeatureValue(x, p); });
          expect("setFSValue of structure " + S(a) + " feature " + S(f), want, got);
          if (got.empty()) objs[a].v[f].i = b; else if (sum() != s0) fail("a refused store changed the CAS");
        } else {
          note("getFS " + S(a) + "." + S(f));
          want = first(a, f); if (want.empty() && prim(E->range[f])) want = "FeatureNotAppropriateException";
          int k = below(4);
          if (want.empty() && k >= 2) { TyFS c = objs[a].v[f].i; TyFSType ty = k == 2 ? gs_tyIntArrayType : gs_tyFSArrayType; if (c && objs[c].t != ty) want = "FSIsNotArrayException"; }
          got = run([&] { if (k == 0) o.getFSValue(x); else if (k == 1) o.getFeatureValue(x); else if (k == 2) o.getIntArrayFSValue(x); else o.getArrayFSValue(x); });
          expect("get..FSValue of structure " + S(a) + " feature " + S(f), want, got);
          if (sum() != s0) fail("a reading access changed the CAS");
        }
      } else if (op <= 7) {
        FeatureStructure o = pick(a); Feature x = pickf(a, f, 8); bool st = op == 6; uint64_t s0 = sum();
        US s; for (size_t k = len(30); k > 0; k--) s += (UChar)(1 + below(chance(50) ? 65535 : 100));
        if (chance(40)) { s.clear(); s += 'a'; } else if (chance(40)) { s.clear(); s += 'b'; s += 'b'; }
        note(std::string(st ? "set" : "get") + "String " + S(a) + "." + S(f) + " length " + S(s.size()));
        want = first(a, f); if (want.empty() && !anc(gs_tyStringType, E->range[f])) want = "FSIsNotStringException";
        bool in = (s.size() == 1 && s[0] == 'a') || (s.size() == 2 && s[0] == 'b' && s[1] == 'b');
        if (st && want.empty() && E->range[f] != gs_tyStringType && !in) want = "WrongStringValueException";
        UnicodeStringRef g;
        got = run([&] { if (!st) g = o.getStringValue(x); else if (step & 1) o.setStringValue(x, UnicodeStringRef(s.data(), (int)s.size())); else o.setStringValueExternal(x, UnicodeStringRef(s.data(), (int)s.size())); });
        expect(std::string(st ? "set" : "get") + "StringValue of structure " + S(a) + " feature " + S(f), want, got);
        if (got.empty() && st) { objs[a].v[f].s = s; objs[a].v[f].set = true; }
        if ((!got.empty() || !st) && sum() != s0) fail("a refused or reading access changed the CAS");
      } else if (op == 8) {
        FeatureStructure o = pick(a), r; if (!a && chance(70)) continue;
        size_t top = E->heap->iv_clTemporaryHeap.getTopOfHeap();
        bool ty = chance(60); TyFSType t = ty ? (chance(90) ? E->types[below(E->types.size())] : chance(50) ? 0 : gs_tyShortType) : a ? objs[a].t : 0;
        note(std::string("clone ") + S(a) + " as " + S(t));
        want = a == 0 ? "InvalidFSObjectException" : t == 0 ? "InvalidFSTypeObjectException" : prim(t) ? "CouldNotCreateFSOfFinalTypeException" : "";
        got = run([&] { r = ty ? o.clone(t ? FSPromoter::promoteType(t, *E->ts) : Type()) : o.clone(); });
        if (!ty && a && objs[a].t == 0) continue;
        expect("clone of structure " + S(a), want, got);
        if (!got.empty()) { if (E->heap->iv_clTemporaryHeap.getTopOfHeap() != top) fail("a refused clone allocates"); continue; }
        if (r.iv_tyFS != top) fail("clone gives structure " + S(r.iv_tyFS) + ", expected " + S(top));
        Obj src = objs[a]; CAS *c = src.cas;
        bool an = anc(gs_tyAnnotationType, t);
        add(top, t, c);
        for (auto &p : src.v) if (approp(t, p.first) && approp(src.t, p.first)) objs[top].v[p.first] = p.second;
        if (an && anc(gs_tyAnnotationType, src.t) && E->heap->getFSValue(top, gs_tySofaRefFeature) != E->heap->getFSValue(a, gs_tySofaRefFeature)) fail("the clone of an annotation has another subject");
      } else {
        FeatureStructure o = pick(a), p = pick(b);
        if (o.isValid() != (a != 0)) fail("isValid is wrong for structure " + S(o.iv_tyFS));
        if ((o == p) != (o.iv_tyFS == p.iv_tyFS && o.iv_cas == p.iv_cas)) fail("operator== is wrong");
        if ((o < p) != (o.iv_tyFS < p.iv_tyFS && o.iv_cas == p.iv_cas)) fail("operator< is wrong");
        expect("getType of structure " + S(a), a ? "" : "InvalidFSObjectException", run([&] { o.getType(); }));
        if (a) { Feature x = pickf(a, f, -1); expect("isUntouchedFSValue", first(a, f), run([&] { o.isUntouchedFSValue(x); })); }
      }
      if (step % 25 == 24 || chance(5)) for (size_t i = 0; i < refs.size(); i++) verify(refs[i]); else if (!refs.empty()) verify(refs[below(refs.size())]);
    }
  }
  printf("ok\n");
  return 0;
}
