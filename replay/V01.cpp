// replay of V01: random allocation histories against a shadow copy of every heap
#include "rp.hpp"
using namespace uima;
using namespace uima::lowlevel;
using namespace rp;
template <class T> struct Sh {
  uima::lowlevel::internal::Heap<T> *h; const char *n; std::vector<T> m; // m: expected cells, cell 0 included
  void init(uima::lowlevel::internal::Heap<T> *x, const char *nm) { h = x; n = nm; m.assign(1, 0); }
  void grow(size_t k) { m.resize(m.size() + k, 0); }
  void check(const char *op) {
    if (h->getTopOfHeap() != m.size()) fail(std::string(op) + ": " + n + " next free cell is " + S(h->getTopOfHeap()) + ", expected " + S(m.size()));
    if (h->iv_uiCellNumber < m.size()) fail(std::string(op) + ": " + n + " capacity below the allocated cells");
    for (size_t i = 0; i < m.size(); i++)
      if (h->getHeapStart()[i] != m[i]) fail(std::string(op) + ": " + n + " cell " + S(i) + " is " + S((long long)h->getHeapStart()[i]) + ", expected " + S((long long)m[i]));
    for (size_t i = m.size(); i < h->iv_uiCellNumber; i++)
      if (h->getHeapStart()[i] != 0) fail(std::string(op) + ": " + n + " free cell " + S(i) + " is not zero");
  }
};
int main(int argc, char **argv) {
  init(argc, argv);
  Env *e = makeEnv(8, 20);
  for (int round = 0; round < 400; round++) {
    what.clear();
    size_t p1 = 1 + len(chance(30) ? 40 : 600), p2 = 1 + len(chance(30) ? 40 : 600), p3 = 1 + len(300), p4 = 1 + len(300);
    note("pages " + S(p1) + " " + S(p2) + " " + S(p3) + " " + S(p4));
    FSHeap *hp = chance(60) ? new FSHeap(*e->ts, p1, p2, p3, p4) : new FSHeap(*e->ts, p1, p2, p3);
    Sh<TyHeapCell> fs, ref; Sh<UChar> str; Sh<char> h8; Sh<short> h16; Sh<INT64> h64;
    fs.init(&hp->iv_clTemporaryHeap, "fs heap"); ref.init(&hp->iv_clTemporaryStringRefHeap, "string ref heap"); str.init(&hp->iv_clTemporaryStringHeap, "string heap");
    h8.init(&hp->iv_clTemporary8BitHeap, "8-bit heap"); h16.init(&hp->iv_clTemporary16BitHeap, "16-bit heap"); h64.init(&hp->iv_clTemporary64BitHeap, "64-bit heap");
    int nops = 3 + below(40);
    for (int i = 0; i < nops; i++) {
      const char *op = "";
      if (i == 0) { op = "construction"; goto chk; }
      switch (below(20)) {
        case 0: case 1: case 2: case 3: case 4: {
          TyFSType t = chance(70) ? e->types[below(e->types.size())] : uima::internal::gs_tyAnnotationType;
          TyFeatureOffset n = e->ts->getFeatureNumber(t);
          op = "createFS"; note(op + std::string(" type ") + S(t));
          TyFS r = chance(50) ? hp->createFS(t) : hp->createFS(t, n);
          if (r != fs.m.size()) fail("createFS returns " + S(r) + ", expected the first free cell " + S(fs.m.size()));
          fs.grow(n + 1); fs.m[r] = t; break; }
        case 5: case 6: case 7: case 8: case 9: case 10: {
          using namespace uima::internal;
          TyFSType ty[] = {gs_tyLongArrayType, gs_tyDoubleArrayType, gs_tyBooleanArrayType, gs_tyByteArrayType, gs_tyShortArrayType, gs_tyIntArrayType, gs_tyFloatArrayType, gs_tyStringArrayType, gs_tyFSArrayType};
          int k = below(9); size_t n = below(200) == 0 ? 65000 + below(3000) : len(chance(10) ? 3000 : 200);
          op = "createArrayFS"; note(op + std::string(" type ") + S(ty[k]) + " size " + S(n));
          TyFS r = hp->createArrayFS(ty[k], n);
          if (r != fs.m.size()) fail("createArrayFS returns " + S(r) + ", expected the first free cell " + S(fs.m.size()));
          if (k < 5) {
            fs.grow(3); fs.m[r] = ty[k]; fs.m[r + 1] = n;
            if (k < 2) { fs.m[r + 2] = h64.m.size(); h64.grow(n); } else if (k < 4) { fs.m[r + 2] = h8.m.size(); h8.grow(n); } else { fs.m[r + 2] = h16.m.size(); h16.grow(n); }
          } else { fs.grow(n + 2); fs.m[r] = ty[k]; fs.m[r + 1] = n; }
          break; }
        case 11: case 12: case 13: {
          size_t n = below(100) == 0 ? 65000 + below(3000) : len(300); std::vector<UChar> b(n + 1);
          for (size_t j = 0; j < n; j++) b[j] = 1 + below(65535);
          op = "addString"; note(op + std::string(" length ") + S(n));
          int r;
          if (chance(60)) r = hp->addString(UnicodeStringRef(b.data(), (int)n)); else r = hp->addString(icu::UnicodeString(b.data(), (int)n));
          if (r != (int)str.m.size()) fail("addString returns " + S(r) + ", expected " + S(str.m.size()));
          size_t o = str.m.size(); str.grow(n + 1);
          for (size_t j = 0; j < n; j++) str.m[o + j] = b[j];
          break; }
        case 14: case 15: case 16: {
          INT64 v = val(); bool d = chance(50);
          op = d ? "addDouble" : "addLong"; note(op + std::string(" ") + S(v));
          TyFS r; double dv; memcpy(&dv, &v, 8);
          if (d && dv != dv) { dv = 1.5; memcpy(&v, &dv, 8); }
          r = d ? hp->addDouble(dv) : hp->addLong(v);
          if (r < 1 || r != h64.m.size()) fail(std::string(op) + " returns " + S(r) + ", expected " + S(h64.m.size()));
          size_t t = h64.h->getTopOfHeap();
          if (t <= r) fail(std::string(op) + ": the cell is not reserved");
          h64.grow(t - r); h64.m[r] = v; break; }
        case 17:
          if (chance(40)) { op = "reset"; note(op); hp->reset(); fs.m.resize(1); ref.m.resize(1); str.m.resize(1); h8.m.resize(1); h16.m.resize(1); h64.m.resize(1); }
          break;
        default: { // user data in cells already handed out must survive
          op = "store";
          if (fs.m.size() > 1) { size_t k = 1 + below(fs.m.size() - 1); (void)k; }
          if (h8.m.size() > 1) { size_t k = 1 + below(h8.m.size() - 1); h8.m[k] = h8.h->getHeapStart()[k] = (char)val(); }
          if (h16.m.size() > 1) { size_t k = 1 + below(h16.m.size() - 1); h16.m[k] = h16.h->getHeapStart()[k] = (short)val(); }
          if (h64.m.size() > 1) { size_t k = 1 + below(h64.m.size() - 1); h64.m[k] = h64.h->getHeapStart()[k] = val(); }
          if (fs.m.size() > 1) { size_t k = 1 + below(fs.m.size() - 1); fs.m[k] = fs.h->getHeapStart()[k] = (TyHeapCell)val(); }
        }
      }
      chk:
      fs.check(op); ref.check(op); str.check(op); h8.check(op); h16.check(op); h64.check(op);
    }
    delete hp;
  }
  printf("no failure found\n");
  return 0;
}
