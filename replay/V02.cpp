// replay of V02: random feature writes, reads and copies against a shadow store
#include "rp.hpp"
using namespace uima;
using namespace uima::lowlevel;
using namespace rp;
typedef std::basic_string<UChar> US;
struct V { int64_t i; US s; bool set; V() : i(0), set(false) {} };
enum K { INT, FLT, STR, BOO, BYT, SHO, LNG, DBL, REF };
static K kind(Env *e, TyFSType r) {
  using namespace uima::internal;
  if (r == gs_tyIntegerType) return INT;
  if (r == gs_tyFloatType) return FLT;
  if (r == gs_tyBooleanType) return BOO;
  if (r == gs_tyByteType) return BYT;
  if (r == gs_tyShortType) return SHO;
  if (r == gs_tyLongType) return LNG;
  if (r == gs_tyDoubleType) return DBL;
  if (r == gs_tyStringType || r == e->strsub[0] || r == e->strsub[1]) return STR;
  return REF;
}
static const char *KN[] = {"int", "float", "string", "boolean", "byte", "short", "long", "double", "reference"};
static US rs() { US s; size_t n = below(300) == 0 ? 65000 + below(3000) : len(80); for (size_t i = 0; i < n; i++) s += (UChar)(1 + below(65535)); return s; }
int main(int argc, char **argv) {
  init(argc, argv);
  for (int round = 0; round < 500; round++) {
    what.clear();
    Env *e = makeEnv(2 + below(8), 12 + below(30));
    FSHeap *h = chance(50) ? e->heap : new FSHeap(*e->ts, 1 + len(100), 1 + len(60), 1 + len(20), 1 + len(20));
    bool api = h == e->heap;
    std::vector<TyFS> fss; std::map<TyFS, TyFSType> ty;
    std::map<std::pair<TyFS, TyFSFeature>, V> sh;
    for (int step = 0; step < 120; step++) {
      if (fss.empty() || chance(12)) {
        TyFSType t = e->types[below(e->types.size())];
        TyFS f = h->createFS(t);
        if (f == 0) fail("null reference created");
        fss.push_back(f); ty[f] = t; note("create " + S(f) + " type " + S(t));
        std::vector<TyFSFeature> fe; e->ts->getAppropriateFeatures(t, fe);
        for (size_t i = 0; i < fe.size(); i++) sh[std::make_pair(f, fe[i])] = V();
      } else if (chance(8)) {
        TyFS a = fss[below(fss.size())]; std::vector<TyFS> c;
        for (size_t i = 0; i < fss.size(); i++) if (ty[fss[i]] == ty[a] && fss[i] != a) c.push_back(fss[i]);
        if (c.empty()) continue;
        TyFS b = c[below(c.size())];
        note("copy " + S(a) + " to " + S(b));
        h->copyFeatures(b, a);
        std::vector<TyFSFeature> fe; e->ts->getAppropriateFeatures(ty[a], fe);
        for (size_t i = 0; i < fe.size(); i++) {
          V &s = sh[std::make_pair(a, fe[i])], &d = sh[std::make_pair(b, fe[i])];
          if (kind(e, e->ts->getRangeType(fe[i])) == STR && !s.set) continue; // an unset string is not copied
          d = s;
        }
      } else {
        TyFS f = fss[below(fss.size())];
        std::vector<TyFSFeature> fe; e->ts->getAppropriateFeatures(ty[f], fe);
        if (fe.empty()) continue;
        TyFSFeature q = fe[below(fe.size())];
        TyFSType r = e->ts->getRangeType(q);
        V &v = sh[std::make_pair(f, q)];
        int64_t x = val();
        bool ap = api && chance(50);
        uima::FeatureStructure F; uima::Feature Q(q, *e->ts);
        if (ap) F = uima::FeatureStructure(f, *e->cas);
        note(std::string(ap ? "api set " : "set ") + KN[kind(e, r)] + " feature " + S(q) + " of " + S(f) + " to " + S(x));
        v.set = true;
        switch (kind(e, r)) {
          case INT: v.i = (int)x; if (ap) F.setIntValue(Q, (int)x); else h->setIntValue(f, q, (int)x); break;
          case FLT: { int32_t b = (int32_t)x; float z; memcpy(&z, &b, 4); if (z != z) { z = 2.5f; memcpy(&b, &z, 4); } v.i = b; if (ap) F.setFloatValue(Q, z); else h->setFloatValue(f, q, z); break; }
          case BOO: v.i = x & 1; if (ap) F.setBooleanValue(Q, x & 1); else h->setBooleanValue(f, q, x & 1); break;
          case BYT: v.i = (char)x; if (ap) F.setByteValue(Q, (char)x); else h->setByteValue(f, q, (char)x); break;
          case SHO: v.i = (short)x; if (ap) F.setShortValue(Q, (short)x); else h->setShortValue(f, q, (short)x); break;
          case LNG: v.i = x; if (ap) F.setLongValue(Q, x); else h->setLongValue(f, q, x); break;
          case DBL: { double z; memcpy(&z, &x, 8); if (z != z) { z = -1e300; memcpy(&x, &z, 8); } v.i = x; if (ap) F.setDoubleValue(Q, z); else h->setDoubleValue(f, q, z); break; }
          case STR: { US s = rs(); v.s = s;
            if (ap && r == uima::internal::gs_tyStringType) F.setStringValue(Q, UnicodeStringRef(s.data(), (int)s.size()));
            else { int o = h->addString(UnicodeStringRef(s.data(), (int)s.size())); h->setStringValue(f, q, o); } break; }
          case REF: { TyFS o = chance(20) ? 0 : fss[below(fss.size())]; v.i = o; v.set = o != 0; h->setFSValue(f, q, o); break; }
        }
      }
      // everything reads back
      for (std::map<std::pair<TyFS, TyFSFeature>, V>::iterator it = sh.begin(); it != sh.end(); ++it) {
        TyFS f = it->first.first; TyFSFeature q = it->first.second; V &v = it->second;
        TyFSType r = e->ts->getRangeType(q);
        K k = kind(e, r);
        int64_t got = 0; US gs; bool isnull = false;
        bool ap = api && chance(50);
        uima::FeatureStructure F; uima::Feature Q(q, *e->ts);
        if (ap) F = uima::FeatureStructure(f, *e->cas);
        switch (k) {
          case INT: got = ap ? F.getIntValue(Q) : h->getIntValue(f, q); break;
          case FLT: { float z = ap ? F.getFloatValue(Q) : h->getFloatValue(f, q); int32_t b; memcpy(&b, &z, 4); got = b; break; }
          case BOO: got = ap ? F.getBooleanValue(Q) : h->getBooleanValue(f, q); break;
          case BYT: got = ap ? F.getByteValue(Q) : h->getByteValue(f, q); break;
          case SHO: got = ap ? F.getShortValue(Q) : h->getShortValue(f, q); break;
          case LNG: got = ap ? F.getLongValue(Q) : h->getLongValue(f, q); break;
          case DBL: { double z = ap ? F.getDoubleValue(Q) : h->getDoubleValue(f, q); memcpy(&got, &z, 8); break; }
          case STR: { UnicodeStringRef s = (ap && r == uima::internal::gs_tyStringType) ? F.getStringValue(Q) : h->getStringValue(f, q); isnull = s.getBuffer() == 0; if (!isnull) gs = US(s.getBuffer(), s.length()); else if (s.length()) fail("null string with a length"); break; }
          case REF: got = h->getFSValue(f, q); break;
        }
        if (k == STR ? (v.set ? (isnull || gs != v.s) : !isnull) : got != v.i)
          fail(std::string(KN[k]) + " feature " + S(q) + " of structure " + S(f) + " reads " + (k == STR ? (isnull ? "null" : "length " + S(gs.size())) : S(got)) + ", last written " + (v.set ? (k == STR ? "length " + S(v.s.size()) : S(v.i)) : "never (expected zero or null)"));
        if ((k != REF) && h->isUntouchedFSValue(f, q) && v.set && k != INT && k != FLT && k != BYT && k != SHO) fail("a feature that was set is reported untouched");
        if (!v.set && !h->isUntouchedFSValue(f, q)) fail("a feature never set is reported touched");
        if (h->getType(f) != ty[f]) fail("type of structure " + S(f) + " changed");
        TyFeatureOffset off = e->ts->getFeatureOffset(q);
        uint32_t cell = h->getFeatureWithOffset(f, off), exp;
        switch (k) { case INT: case FLT: case BYT: case SHO: case REF: exp = (uint32_t)v.i; break; case BOO: exp = v.set ? (v.i ? 1 : 2) : 0; break; default: exp = cell; }
        if (cell != exp) fail(std::string("encoded cell of ") + KN[k] + " feature is " + S(cell) + ", expected " + S(exp));
      }
    }
  }
  for (int i = 0; i < 20000; i++) {
    int64_t x = val();
    CHECK(FSHeap::getFSAsInt(FSHeap::getAsFS((int)x)) == (int)x, "int conversion");
    CHECK(FSHeap::getFSAsByte(FSHeap::getAsFS((char)x)) == (char)x, "byte conversion");
    CHECK(FSHeap::getFSAsShort(FSHeap::getAsFS((short)x)) == (short)x, "short conversion");
    CHECK(FSHeap::getFSAsBoolean(FSHeap::getAsFS((bool)(x & 1))) == (bool)(x & 1), "boolean conversion");
    CHECK(FSHeap::getAsFS((char)x) == (TyFS)(char)x && FSHeap::getAsFS((short)x) == (TyFS)(short)x && FSHeap::getAsFS((int)x) == (TyFS)(int)x, "cell encoding");
    CHECK(FSHeap::getAsFS(true) == 1 && FSHeap::getAsFS(false) == 2, "boolean encoding");
    CHECK(FSHeap::getFSAsBoolean((TyFS)x) == ((TyFS)x == 1), "boolean decoding");
    float z; int32_t b = (int32_t)x; memcpy(&z, &b, 4); TyFS c = FSHeap::getAsFS(z); float z2 = FSHeap::getFSAsFloat(c);
    CHECK(z != z || memcmp(&z, &z2, 4) == 0, "float conversion");
    CHECK(z != z || c == (TyFS)b, "float encoding");
  }
  printf("no failure found\n");
  return 0;
}
