// replay of V03: random array histories against a shadow store; out-of-range accesses must throw and change nothing
#include "rp.hpp"
using namespace uima;
using namespace uima::lowlevel;
using namespace rp;
typedef std::basic_string<UChar> US;
template <class T> struct Tr { static std::string bits(T v) { return std::string((char *)&v, sizeof v); } };
template <class T> T rv();
template <> int rv<int>() { return (int)val(); }
template <> char rv<char>() { return (char)val(); }
template <> short rv<short>() { return (short)val(); }
template <> INT64 rv<INT64>() { return val(); }
template <> bool rv<bool>() { return val() & 1; }
template <> float rv<float>() { int32_t b = (int32_t)val(); float z; memcpy(&z, &b, 4); return z != z ? 2.5f : z; }
template <> double rv<double>() { int64_t b = val(); double z; memcpy(&z, &b, 8); return z != z ? -1e300 : z; }
struct Any { virtual ~Any() {} virtual void step() = 0; virtual void check() = 0; };
static Env *E0;
static uint64_t rawsum(FSHeap *h) { // everything observable about the heap tops
  return h->iv_clTemporaryHeap.getTopOfHeap() * 1000003ULL + h->iv_clTemporaryStringHeap.getTopOfHeap() * 10007ULL + h->iv_clTemporaryStringRefHeap.getTopOfHeap() * 103ULL + h->iv_clTemporary8BitHeap.getTopOfHeap() * 7ULL + h->iv_clTemporary16BitHeap.getTopOfHeap() * 77ULL + h->iv_clTemporary64BitHeap.getTopOfHeap() * 777ULL;
}
template <class T, TyFSType C> struct A : Any {
  BasicArrayFS<T, C> a; std::vector<T> sh; const char *nm;
  A(const char *n, size_t k) : nm(n) {
    note(std::string("create ") + n + " array of " + S(k));
    a = BasicArrayFS<T, C>::createArrayFS(*E0->cas, k, false); sh.assign(k, T());
    CHECK(a.isValid(), "created array is invalid");
  }
  void step() {
    size_t n = sh.size();
    int op = below(7);
    uint64_t sum = rawsum(E0->heap);
    if (op < 3) {
      size_t i = chance(80) ? below(n + 2) : (size_t)val();
      T v = rv<T>(); bool thrown = false;
      note(std::string("set ") + nm + "[" + S(i) + "]");
      try { a.set(i, v); } catch (FSArrayOutOfBoundsException &) { thrown = true; }
      if (thrown != (i >= n)) fail(std::string("set at index ") + S(i) + " of an array of " + S(n) + (thrown ? " is refused" : " is accepted"));
      if (!thrown) sh[i] = v;
    } else if (op == 3) {
      size_t i = chance(80) ? below(n + 2) : (size_t)val(); bool thrown = false;
      try { a.get(i); } catch (FSArrayOutOfBoundsException &) { thrown = true; }
      if (thrown != (i >= n)) fail(std::string("get at index ") + S(i) + " of an array of " + S(n) + (thrown ? " is refused" : " is accepted"));
    } else {
      size_t s = below(n + 3), e = s + 1 + below(n + 3 - s), off = below(4); bool thrown = false;
      if (op == 4) {
        T *buf = new T[e + n + 10];
        for (size_t i = 0; i < e + n + 10; i++) buf[i] = rv<T>();
        size_t d = below(n + 3);
        note(std::string("copyFromArray ") + nm + " " + S(s) + ".." + S(e) + " to " + S(d));
        try { a.copyFromArray(buf, s, e, d); } catch (FSArrayOutOfBoundsException &) { thrown = true; }
        if (thrown != (d + (e - s) > n)) fail(std::string("copyFromArray of ") + S(e - s) + " elements to index " + S(d) + " of an array of " + S(n) + (thrown ? " is refused" : " is accepted"));
        if (!thrown) for (size_t i = 0; i < e - s; i++) sh[d + i] = buf[s + i];
        delete[] buf;
      } else {
        size_t m = off + (e - s) + 3; T *buf = new T[m]; std::vector<T> old;
        for (size_t i = 0; i < m; i++) { buf[i] = rv<T>(); old.push_back(buf[i]); }
        note(std::string("copyToArray ") + nm + " " + S(s) + ".." + S(e));
        try { if (op == 5) a.copyToArray(s, e, buf, off); else a.copyToArray(s, buf, off, e - s); } catch (FSArrayOutOfBoundsException &) { thrown = true; }
        if (thrown != (e > n)) fail(std::string("copyToArray of ") + S(s) + ".." + S(e) + " from an array of " + S(n) + (thrown ? " is refused" : " is accepted"));
        for (size_t i = 0; i < m; i++) {
          T exp = (!thrown && i >= off && i < off + (e - s)) ? sh[s + i - off] : (T)old[i];
          if (Tr<T>::bits(exp) != Tr<T>::bits(buf[i])) fail("copyToArray stored the wrong element");
        }
        delete[] buf;
      }
    }
    CHECK(rawsum(E0->heap) == sum, "an array access changed the extent of a heap");
  }
  void check() {
    if (a.size() != sh.size()) fail(std::string(nm) + " array reports size " + S(a.size()) + ", created with " + S(sh.size()));
    for (size_t i = 0; i < sh.size(); i++) { T g = a.get(i); T x = sh[i]; if (Tr<T>::bits(g) != Tr<T>::bits(x)) fail(std::string(nm) + " array element " + S(i) + " differs from the last value written"); }
  }
};
struct SA : Any {
  StringArrayFS a; std::vector<US> sh; std::vector<bool> set;
  SA(size_t k) { note("create string array of " + S(k)); a = StringArrayFS(BasicStringArrayFS::createArrayFS(*E0->cas, k, false)); sh.resize(k); set.resize(k); }
  void step() {
    size_t n = sh.size(), i = chance(80) ? below(n + 2) : (size_t)val(); bool thrown = false;
    US s; for (size_t k = len(40); k > 0; k--) s += (UChar)(1 + below(65535));
    note("set string[" + S(i) + "] of length " + S(s.size()));
    uint64_t sum = rawsum(E0->heap);
    try { a.set(i, UnicodeStringRef(s.data(), (int)s.size())); } catch (FSArrayOutOfBoundsException &) { thrown = true; }
    if (thrown != (i >= n)) fail("string set at index " + S(i) + " of an array of " + S(n) + (thrown ? " is refused" : " is accepted"));
    if (thrown) CHECK(rawsum(E0->heap) == sum, "a refused store changed the heap");
    else { sh[i] = s; set[i] = true; }
  }
  void check() {
    CHECK(a.size() == sh.size(), "string array size");
    for (size_t i = 0; i < sh.size(); i++) { UnicodeStringRef g = a.get(i);
      if (set[i] ? (g.getBuffer() == 0 || US(g.getBuffer(), g.length()) != sh[i]) : g.getBuffer() != 0) fail("string element " + S(i) + " differs from the last value written"); }
    bool t = false; try { a.get(sh.size()); } catch (FSArrayOutOfBoundsException &) { t = true; }
    CHECK(t, "get past the end of a string array is accepted");
  }
};
struct FA : Any {
  ArrayFS a; std::vector<TyFS> sh; std::vector<TyFS> pool;
  FA(size_t k) { note("create FS array of " + S(k)); a = ArrayFS(BasicFSArrayFS::createArrayFS(*E0->cas, k, false)); sh.resize(k); for (int i = 0; i < 5; i++) pool.push_back(E0->heap->createFS(E0->types[below(E0->types.size())])); }
  void step() {
    size_t n = sh.size(), i = chance(80) ? below(n + 2) : (size_t)val(); bool thrown = false;
    TyFS f = pool[below(pool.size())];
    note("set fs[" + S(i) + "] to " + S(f));
    uint64_t sum = rawsum(E0->heap);
    try { a.set(i, uima::internal::FSPromoter::promoteFS(f, *E0->cas)); } catch (FSArrayOutOfBoundsException &) { thrown = true; }
    if (thrown != (i >= n)) fail("structure set at index " + S(i) + " of an array of " + S(n) + (thrown ? " is refused" : " is accepted"));
    CHECK(rawsum(E0->heap) == sum, "an array access changed the extent of a heap");
    if (!thrown) sh[i] = f;
  }
  void check() {
    CHECK(a.size() == sh.size(), "FS array size");
    for (size_t i = 0; i < sh.size(); i++) { FeatureStructure g = a.get(i); if (g.iv_tyFS != sh[i]) fail("structure element " + S(i) + " is " + S(g.iv_tyFS) + ", last written " + S(sh[i])); }
    bool t = false; try { a.get(sh.size()); } catch (FSArrayOutOfBoundsException &) { t = true; }
    CHECK(t, "get past the end of an FS array is accepted");
  }
};
template <class X> static bool refuses(FeatureStructure f) { try { X x(f); } catch (FSIsNotArrayException &) { return true; } return false; }
int main(int argc, char **argv) {
  using namespace uima::internal;
  init(argc, argv);
  for (int round = 0; round < 200; round++) {
    what.clear();
    E0 = makeEnv(2 + below(6), 10);
    std::vector<Any *> v;
    size_t nbig = below(4) == 0 ? 300 : 20;
    for (int step = 0; step < 200; step++) {
      if (v.empty() || chance(8)) {
        size_t k = round % 50 == 7 && step < 20 ? 65000 + below(2000) : len(nbig);
        switch (below(9)) {
          case 0: v.push_back(new A<int, gs_tyIntArrayType>("int", k)); break;
          case 1: v.push_back(new A<float, gs_tyFloatArrayType>("float", k)); break;
          case 2: v.push_back(new A<bool, gs_tyBooleanArrayType>("boolean", k)); break;
          case 3: v.push_back(new A<char, gs_tyByteArrayType>("byte", k)); break;
          case 4: v.push_back(new A<short, gs_tyShortArrayType>("short", k)); break;
          case 5: v.push_back(new A<INT64, gs_tyLongArrayType>("long", k)); break;
          case 6: v.push_back(new A<double, gs_tyDoubleArrayType>("double", k)); break;
          case 7: v.push_back(new SA(k)); break;
          case 8: v.push_back(new FA(k)); break;
        }
      } else v[below(v.size())]->step();
      if (step % 10 == 9 || nbig < 300) for (size_t i = 0; i < v.size(); i++) if (v.size() < 6 || chance(30)) v[i]->check();
      if (step % 50 == 0) {
        std::vector<FeatureStructure> fs;
        fs.push_back(FeatureStructure(E0->heap->createFS(E0->types[0]), *E0->cas));
        fs.push_back(FeatureStructure(E0->heap->createArrayFS(gs_tyIntArrayType, 3), *E0->cas));
        fs.push_back(FeatureStructure(E0->heap->createArrayFS(gs_tyDoubleArrayType, 3), *E0->cas));
        for (size_t i = 0; i < fs.size(); i++) {
          TyFSType t = E0->heap->getType(fs[i].iv_tyFS);
          CHECK(refuses<BasicIntArrayFS>(fs[i]) == (t != gs_tyIntArrayType), "int array object over a structure of another type");
          CHECK(refuses<BasicDoubleArrayFS>(fs[i]) == (t != gs_tyDoubleArrayType), "double array object over a structure of another type");
          CHECK(refuses<BasicFSArrayFS>(fs[i]), "FS array object over a structure of another type");
          CHECK(refuses<BasicByteArrayFS>(fs[i]), "byte array object over a structure of another type");
        }
        IntArrayFS inv; bool t = false;
        try { inv.get(0); } catch (InvalidFSObjectException &) { t = true; }
        CHECK(t, "access to an invalid array object is accepted");
      }
    }
    for (size_t i = 0; i < v.size(); i++) delete v[i];
  }
  printf("no failure found\n");
  return 0;
}
