// replay of V10: random CASes through getBlob/deserializeBlob and serializeData/deserializeData, in both byte orders; the blob is parsed here
#include "rp.hpp"
#include <uima/lowlevel_indexdefinition.hpp>
#include <uima/internal_casserializer.hpp>
#include <uima/internal_casdeserializer.hpp>
#include <uima/internal_serializedcas.hpp>
using namespace uima;
using namespace uima::lowlevel;
using namespace uima::internal;
using namespace rp;
typedef std::vector<unsigned char> B;
struct Img { std::vector<uint32_t> fs, ref, ix; std::vector<uint16_t> str, sh; std::vector<uint8_t> by; std::vector<uint64_t> lo; };
static Img image(CASImpl &c) {
  FSHeap &h = c.getHeap(); Img i;
  i.fs.assign(h.iv_clTemporaryHeap.getHeapStart(), h.iv_clTemporaryHeap.getHeapStart() + h.iv_clTemporaryHeap.getTopOfHeap());
  i.str.assign(h.iv_clTemporaryStringHeap.getHeapStart(), h.iv_clTemporaryStringHeap.getHeapStart() + h.iv_clTemporaryStringHeap.getTopOfHeap());
  i.ref.assign(h.iv_clTemporaryStringRefHeap.getHeapStart(), h.iv_clTemporaryStringRefHeap.getHeapStart() + h.iv_clTemporaryStringRefHeap.getTopOfHeap());
  i.by.assign((uint8_t *)h.iv_clTemporary8BitHeap.getHeapStart(), (uint8_t *)h.iv_clTemporary8BitHeap.getHeapStart() + h.iv_clTemporary8BitHeap.getTopOfHeap());
  i.sh.assign((uint16_t *)h.iv_clTemporary16BitHeap.getHeapStart(), (uint16_t *)h.iv_clTemporary16BitHeap.getHeapStart() + h.iv_clTemporary16BitHeap.getTopOfHeap());
  i.lo.assign((uint64_t *)h.iv_clTemporary64BitHeap.getHeapStart(), (uint64_t *)h.iv_clTemporary64BitHeap.getHeapStart() + h.iv_clTemporary64BitHeap.getTopOfHeap());
  return i;
}
#define SAME(a, b, m) do { if (a.size() != b.size()) fail(std::string(m) + ": " + S(b.size()) + " cells instead of " + S(a.size())); for (size_t q_ = 0; q_ < a.size(); q_++) if (a[q_] != b[q_]) fail(std::string(m) + ": cell " + S(q_) + " is " + S((unsigned long long)b[q_]) + " instead of " + S((unsigned long long)a[q_])); } while (0)
static void sameheaps(Img const &a, Img const &b, const char *m) {
  SAME(a.fs, b.fs, std::string(m) + ", FS heap"); SAME(a.str, b.str, std::string(m) + ", string heap"); SAME(a.ref, b.ref, std::string(m) + ", string reference heap");
  SAME(a.by, b.by, std::string(m) + ", 8-bit heap"); SAME(a.sh, b.sh, std::string(m) + ", 16-bit heap"); SAME(a.lo, b.lo, std::string(m) + ", 64-bit heap");
}
template <class T> static T rd(const unsigned char *p) { T t; memcpy(&t, p, sizeof t); return t; }
template <class T> static void flip(unsigned char *p) { for (size_t i = 0; i < sizeof(T) / 2; i++) std::swap(p[i], p[sizeof(T) - 1 - i]); }
// parses the blob of n bytes; with other, its multi-byte values are turned to the other byte order as well
// exact: the length of the section is stated without the padding, as other writers may do
template <class T> static void sect(B &b, size_t &o, std::vector<T> &v, size_t unit, bool other, long exact = -1) {
  if (o + 4 > b.size()) fail("the blob ends before its last section");
  uint32_t n = rd<uint32_t>(&b[o]);
  if (exact >= 0 && n == (exact + unit) / (unit + 1) * (unit + 1)) { n = exact; memcpy(&b[o], &n, 4); }
  if (other) flip<uint32_t>(&b[o]);
  o += 4;
  if ((uint64_t)n * sizeof(T) > b.size() - o) fail("a section of the blob is longer than the blob");
  for (uint32_t i = 0; i < n; i++) { v.push_back(rd<T>(&b[o])); if (other) flip<T>(&b[o]); o += sizeof(T); }
  while (o % 4) o++;
}
static Img parse(B &b, bool other, Img const *x = 0) {
  Img i; size_t o = 8;
  if (rd<uint32_t>(&b[0]) != 0x55494D41 || rd<uint32_t>(&b[4]) != 1) fail("key or version of the blob");
  if (other) { flip<uint32_t>(&b[0]); flip<uint32_t>(&b[4]); }
  sect(b, o, i.fs, 0, other); sect(b, o, i.str, 1, other, x ? (long)x->str.size() : -1); sect(b, o, i.ref, 0, other); sect(b, o, i.ix, 0, other); sect(b, o, i.by, 3, other, x ? (long)x->by.size() : -1); sect(b, o, i.sh, 1, other, x ? (long)x->sh.size() : -1); sect(b, o, i.lo, 0, other);
  if (o != b.size()) fail("the blob has " + S(b.size()) + " bytes, its sections " + S(o));
  return i;
}
template <class T> static void padded(std::vector<T> &v, size_t n, size_t unit, const char *m) {
  size_t p = (n + unit - 1) / unit * unit;
  if (v.size() != p) fail(std::string("the length of the ") + m + " section is " + S(v.size()) + " for " + S(n) + " cells");
  v.resize(n);
}
struct World { CASDefinition *def; CASImpl *cas; TyFSType T[3]; std::vector<TyFSFeature> f; };
static World *world() {
  startup();
  World *w = new World;
  w->def = new CASDefinition((AnnotatorContext const *)NULL); w->def->init();
  lowlevel::TypeSystem &ts = *w->def->iv_typeSystem;
  icu::UnicodeString me("r");
  w->T[0] = ts.createType(ts.getTopType(), icu::UnicodeString("t.A"), me);
  w->T[1] = ts.createType(w->T[0], icu::UnicodeString("t.B"), me);
  w->T[2] = ts.createType(ts.getTopType(), icu::UnicodeString("t.C"), me);
  TyFSType rg[] = {gs_tyLongType, gs_tyDoubleType, gs_tyByteType, gs_tyShortType, gs_tyIntegerType, gs_tyFloatType, gs_tyBooleanType, gs_tyStringType, ts.getTopType()};
  for (int i = 0; i < 9; i++) w->f.push_back(ts.createFeature(w->T[0], rg[i], false, icu::UnicodeString(("f" + S(i)).c_str()), me));
  w->def->commitTypeSystem();
  for (int k = 0; k < 5; k++) {
    std::vector<TyFSFeature> kf(1, w->f[k]); kf.push_back(w->f[4]);
    std::vector<IndexComparator::EnKeyFeatureComp> c(2, k == 3 ? IndexComparator::REVERSE_STANDARD_COMPARE : IndexComparator::STANDARD_COMPARE);
    w->def->iv_indexDefinition->defineIndex(k == 2 ? IndexDefinition::enSet : IndexDefinition::enOrdered, w->T[0], kf, c, icu::UnicodeString(("ix" + S(k)).c_str()));
  }
  w->def->commitIndexDefinition();
  w->cas = CASImpl::createCASImpl(*w->def, false);
  return w;
}
static World *W1, *W2;
static icu::UnicodeString text() { icu::UnicodeString s; size_t n = len(9); for (size_t i = 0; i < n; i++) s += chance(70) ? (UChar)('a' + below(26)) : (UChar)(1 + below(65535)); return s; }
static std::vector<FeatureStructure> made;
static void fill(CAS &v, World &w, size_t n) {
  uima::TypeSystem const &ts = v.getTypeSystem(); lowlevel::TypeSystem &lts = *w.def->iv_typeSystem; (void)ts;
  for (size_t i = 0; i < n; i++) {
    TyFSType t = w.T[below(3)];
    FeatureStructure f = v.createFS(FSPromoter::promoteType(t, lts));
    made.push_back(f);
    if (t != w.T[2]) {
      Feature F[9]; for (int k = 0; k < 9; k++) F[k] = FSPromoter::promoteFeature(w.f[k], lts);
      if (chance(80)) f.setLongValue(F[0], val());
      if (chance(80)) { double d = chance(50) ? (double)val() : (double)below(9) - 4.5; f.setDoubleValue(F[1], d); }
      if (chance(80)) f.setByteValue(F[2], (char)val());
      if (chance(80)) f.setShortValue(F[3], (short)val());
      if (chance(80)) f.setIntValue(F[4], (int)val());
      if (chance(80)) f.setFloatValue(F[5], (float)(int)val());
      if (chance(80)) f.setBooleanValue(F[6], chance(50));
      if (chance(80)) f.setStringValue(F[7], text());
      if (chance(50)) f.setFSValue(F[8], made[below(made.size())]);
    }
    if (chance(15)) { ByteArrayFS a = v.createByteArrayFS(1 + below(9)); for (size_t q = 0; q < a.size(); q++) a.set(q, (char)val()); }
    if (chance(15)) { ShortArrayFS a = v.createShortArrayFS(1 + below(9)); for (size_t q = 0; q < a.size(); q++) a.set(q, (short)val()); }
    if (chance(15)) { LongArrayFS a = v.createLongArrayFS(1 + below(9)); for (size_t q = 0; q < a.size(); q++) a.set(q, val()); }
    if (chance(15)) { DoubleArrayFS a = v.createDoubleArrayFS(1 + below(3)); a.set(0, 0.5 + (double)val()); }
    if (chance(65)) v.getIndexRepository().addFS(f);
  }
}
static std::vector<TyFS> order(CAS &v, int k) {
  std::vector<TyFS> r; FSIndex ix = v.getIndexRepository().getIndex(icu::UnicodeString(("ix" + S(k)).c_str()));
  FSIterator it = ix.iterator();
  for (it.moveToFirst(); it.isValid(); it.moveToNext()) r.push_back(it.get().iv_tyFS);
  return r;
}
int main(int argc, char **argv) {
  init(argc, argv);
  note("a CAS without views"); { World *w3 = world(); w3->cas->reset(); CASSerializer s(true); if (s.getBlobSize(*w3->cas) < 9 * 4) fail("size of an empty blob"); }
  W1 = world(); W2 = world(); W2->cas->getInitialView();
  for (int round = 0; round < 3000; round++) {
    what.clear(); made.clear();
    W1->cas->reset();
    CASImpl &c1 = *W1->cas, &c2 = *W2->cas;
    CAS *v1 = c1.getInitialView();
    bool doc = chance(60), second = chance(40);
    if (doc) { v1->setDocumentText(text() + "x"); note("with document text"); }
    size_t n = chance(10) ? 0 : chance(10) ? 3000 : below(14); note("structures " + S(n));
    CAS *vs = 0;
    if (second) { note("with a second view"); vs = c1.createView(icu::UnicodeString("second")); if (chance(60)) vs->setDocumentText(text() + "y"); fill(*vs, *W1, below(6)); }
    fill(*v1, *W1, n);
    Img h1 = image(c1);
    CASSerializer ser(true);
    size_t z = ser.getBlobSize(*v1);
    B buf(z + 16, 0xA5);
    if (z > 0) {
      size_t small = below(z);
      if (ser.getBlob(*v1, &buf[0], small) != 0) fail("getBlob into " + S(small) + " bytes reports success, " + S(z) + " are needed");
      for (size_t i = 0; i < buf.size(); i++) if (buf[i] != 0xA5) fail("getBlob writes to a buffer that is too small");
    }
    size_t got = ser.getBlob(*v1, &buf[0], chance(50) ? z : z + 16);
    if (got != z) fail("getBlob returns " + S(got) + ", getBlobSize " + S(z));
    for (size_t i = z; i < buf.size(); i++) if (buf[i] != 0xA5) fail("getBlob writes past the end of the blob");
    sameheaps(h1, image(c1), "getBlob changes the CAS");
    buf.resize(z);
    bool other = chance(50); if (other) note("opposite byte order");
    { B orig(buf); Img q = parse(orig, false); padded(q.str, h1.str.size(), 2, "string"); padded(q.by, h1.by.size(), 4, "8-bit"); padded(q.sh, h1.sh.size(), 2, "16-bit"); sameheaps(h1, q, "blob"); }
    bool exact = chance(30); if (exact) note("section lengths without padding");
    Img p = parse(buf, other, exact ? &h1 : 0);
    std::vector<uint32_t> ix; ser.serializeIndexedFSs(*c1.getBaseCas(), (std::vector<SerializedCAS::TyNum> &)ix);
    SAME(ix, p.ix, "indexed structures of the blob");
    { std::string t = "indexed:"; for (size_t i = 0; i < ix.size() && i < 40; i++) t += " " + S(ix[i]); note(t); }
    std::vector<size_t> cnt; for (size_t i = 1; i < ix.size(); i += ix[i] + 1) cnt.push_back(ix[i]);
    bool clean = chance(70);
    if (clean) c2.reset(); else note("into a CAS in use");
    int how = below(3);
    if (how < 2) {
      note("deserializeBlob");
      CASDeserializer des; des.deserializeBlob(&buf[0], c2);
      Img h2 = image(c2);
      if (!exact) { padded(h2.str, h1.str.size(), 2, "restored string"); padded(h2.by, h1.by.size(), 4, "restored 8-bit"); padded(h2.sh, h1.sh.size(), 2, "restored 16-bit"); }
      sameheaps(h1, h2, "restored CAS");
    } else {
      note("deserializeData");
      SerializedCAS sc; ser.serializeData(*v1, sc);
      CASDeserializer des; des.deserializeData(sc, c2);
      Img h2 = image(c2);
      if (h2.fs.size() != h1.fs.size()) fail("the restored FS heap has another size");
      SAME(h1.by, h2.by, "restored 8-bit heap"); SAME(h1.sh, h2.sh, "restored 16-bit heap"); SAME(h1.lo, h2.lo, "restored 64-bit heap");
    }
    bool fresh = clean || how == 2;     // otherwise only the indexes that the data mentions are replaced
    for (int k = 0; k < 5; k++) if (fresh || (cnt.size() > 1 && cnt[1])) {
      std::vector<TyFS> a = order(*v1, k), b = order(*c2.getInitialView(), k);
      SAME(a, b, "index " + S(k) + " of the restored CAS");
      if (vs && (fresh || (cnt.size() > 2 && cnt[2]))) { CAS *t = c2.getView(icu::UnicodeString("second")); std::vector<TyFS> x = order(*vs, k), y = order(*t, k); SAME(x, y, "index " + S(k) + " of the second view of the restored CAS"); }
    }
  }
  printf("no violation\n");
  return 0;
}
