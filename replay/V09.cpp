// replay of V09: streams over sofa data of every kind, read and positioned at random, against the bytes of the data
#include "rp.hpp"
#include <uima/sofastream.hpp>
using namespace uima;
using namespace rp;
typedef std::string T;
static void walk(SofaDataStream *s, T const &data, int size, T const &kind, bool checked) {
  T m = kind + " of " + S(data.size()) + " bytes";
  size_t pos = 0;
  if (s->getDataPointer() == NULL) fail("no data: " + m);
  if (!data.empty() && (size_t)s->getTotalStreamSizeInBytes() != data.size()) fail("size is " + S(s->getTotalStreamSizeInBytes()) + ": " + m);
  for (int step = 0; step < 60; step++) {
    if (!data.empty() && (size_t)s->howManyBytesAvailable() != data.size() - pos) fail("bytes available are " + S(s->howManyBytesAvailable()) + ": " + m);
    if (chance(60)) {
      size_t n = chance(80) ? below(5) : len(data.size() / size + 3);
      std::vector<char> buf(n * size + 16, 'q');
      int r = s->read(&buf[0], size, n);
      T h = m + ": read " + S(n) + " elements at " + S(pos) + " gives " + S(r);
      if (pos == data.size()) { if (r != -1) fail(h + " at the end"); continue; }
      size_t b = std::min(n * size, data.size() - pos);
      if ((size_t)r != b / size) fail(h);
      if (data.compare(pos, b, &buf[0], b)) fail(h + ", other bytes");
      for (size_t k = b; k < buf.size(); k++) if (buf[k] != 'q') fail(h + ", writes behind the data");
      pos += b;
    } else {
      int org = below(3);
      INT64 off = chance(70) ? (INT64)below(data.size() + 1) : chance(50) ? (INT64)below(20) - 10 : val();
      if (org == 1 && chance(50)) off = -(INT64)below(pos + 2);
      if (chance(70)) off -= off % size;
      INT64 to = org == 0 ? off : org == 1 ? (INT64)((uint64_t)pos + (uint64_t)off) : (INT64)((uint64_t)data.size() - (uint64_t)off);
      bool ok = to >= 0 && to <= (INT64)data.size() && off <= (INT64)data.size() && off >= -(INT64)data.size();
      int r = s->seek(off, org);
      if (r != (ok ? 0 : -1)) fail(m + ": seek " + S(off) + " from " + S(org) + " at " + S(pos) + " gives " + S(r));
      if (ok) pos = to;
      if (size > 1 && (data.size() - pos) % size) { s->seek(0, 0); pos = 0; }
    }
  }
  char c[64];
  bool thrown = false;
  s->seek(0, 0);
  try { s->seek(0, 3 + below(5)); } catch (SofaDataStreamException &) { thrown = true; }
  if (!thrown) fail("unknown origin accepted: " + m);
  if (checked && !data.empty()) {
    thrown = false;
    try { s->read(c, size == 4 ? 2 : 4, 1); } catch (SofaDataStreamException &) { thrown = true; }
    if (!thrown) fail("wrong element size accepted: " + m);
  }
  s->close();
  if (s->getDataPointer() != NULL) fail("data after close: " + m);
  for (int i = 0; i < 2; i++) {
    thrown = false;
    try { if (i) s->read(c, size, 1); else s->seek(0, 0); } catch (SofaDataStreamException &) { thrown = true; }
    if (!thrown) fail("used after close: " + m);
  }
}
static int views;
static void stream(CAS *v, T const &data, int size, T const &kind, bool checked = false) {
  SofaDataStream *s = v->getSofaDataStream();
  for (int i = 0; i < 2; i++) {                 // a stream can be opened again
    if (s->open() != 0) fail("open of " + kind);
    walk(s, data, size, kind, checked);
  }
  delete s;
}
static CAS *view(Env *e) { return e->cas->createView(icu::UnicodeString(("v" + S(views++)).c_str())); }
#define ARR(FS, make, ty, kind, checked) { \
    size_t n = chance(10) ? 0 : len(200); CAS *v = view(e); FS a = v->make(n); std::vector<ty> x; \
    for (size_t i = 0; i < n; i++) { ty y = (ty)val(); a.set(i, y); x.push_back(a.get(i)); } \
    v->setSofaDataArray(a, icu::UnicodeString("m")); \
    stream(v, n ? T((char *)&x[0], n * sizeof(ty)) : T(), sizeof(ty), kind, checked); }
int main(int argc, char **argv) {
  init(argc, argv);
  for (int round = 0; round < 6; round++) {
    Env *e = makeEnv(2, 4);
    for (int k = 0; k < 25; k++) {
      ARR(IntArrayFS, createIntArrayFS, int, "int array", true)
      ARR(FloatArrayFS, createFloatArrayFS, float, "float array", true)
      ARR(ByteArrayFS, createByteArrayFS, char, "byte array", false)
      ARR(ShortArrayFS, createShortArrayFS, short, "short array", false)
      ARR(LongArrayFS, createLongArrayFS, INT64, "long array", false)
      ARR(DoubleArrayFS, createDoubleArrayFS, double, "double array", false)
      { size_t n = len(200); CAS *v = view(e); BooleanArrayFS a = v->createBooleanArrayFS(n); T x;
        for (size_t i = 0; i < n; i++) { bool b = chance(50); a.set(i, b); x += (char)b; }
        v->setSofaDataArray(a, icu::UnicodeString("m")); stream(v, x, 1, "boolean array"); }
      { icu::UnicodeString t; T x; size_t n = 1 + len(100);
        for (size_t i = 0; i < n; i++) t.append((UChar32)(chance(60) ? 'a' + below(26) : chance(50) ? 0xe0 + below(500) : chance(50) ? 0x4e00 + below(900) : 0x1f600 + below(40)));
        t.toUTF8String(x);
        CAS *v = view(e); v->setSofaDataString(t, icu::UnicodeString("text")); stream(v, x, 1, "text", true); }
      { CAS *v = view(e); StringArrayFS a = v->createStringArrayFS(2); v->setSofaDataArray(a, icu::UnicodeString("m"));
        SofaDataStream *s = v->getSofaDataStream(); bool thrown = false;
        try { s->open(); } catch (SofaDataStreamException &) { thrown = true; }
        if (!thrown) fail("string array accepted"); }
    }
  }
  printf("replay found no failing input\n");
  return 0;
}
