// replay of V15: random declarations and lookups of types and features against a plain table of what was declared
#include "rp.hpp"
using namespace uima;
using namespace uima::lowlevel;
using namespace rp;
typedef icu::UnicodeString US;
static std::string utf(const US &u) { std::string s; u.toUTF8String(s); return s; }
struct Model {
  struct Ty { US name, creator; TyFSType parent; std::vector<TyFSFeature> feats; std::vector<TyFSType> kids; };
  struct Fe { US name, creator; TyFSType intro, range; bool multi; };
  std::vector<Ty> t; std::vector<Fe> f;
  void grab(lowlevel::TypeSystem &ts) {     // the predefined part
    t.resize(ts.iv_vecTypeNames.size());
    for (size_t i = 0; i < t.size(); i++) { t[i].name = ts.iv_vecTypeNames[i]; if (i < ts.iv_vecTypeCreatorIDs.size()) t[i].creator = ts.iv_vecTypeCreatorIDs[i]; t[i].parent = i == 1 ? 0 : ts.iv_vecParents[i]; t[i].feats = ts.iv_vecIntroducedFeatures[i]; t[i].kids = ts.iv_vecTree[i]; }
    f.resize(ts.iv_vecFeatureBaseNames.size());
    for (size_t i = 0; i < f.size(); i++) { f[i].name = ts.iv_vecFeatureBaseNames[i]; f[i].creator = ts.iv_vecFeatureCreatorIDs[i]; f[i].range = ts.iv_vecRangeTypes[i]; f[i].multi = ts.iv_vecMultiRefs[i]; f[i].intro = 0; }
    for (size_t i = 1; i < t.size(); i++) for (size_t j = 0; j < t[i].feats.size(); j++) f[t[i].feats[j]].intro = i;
  }
  TyFSFeature find(TyFSType x, const US &n) { for (; x > 1 && x < t.size(); x = t[x].parent) for (size_t j = 0; j < t[x].feats.size(); j++) if (f[t[x].feats[j]].name == n) return t[x].feats[j]; return 0; }
  TyFSType type(const US &n) { for (size_t i = 1; i < t.size(); i++) if (t[i].name == n) return i; return 0; }
};
static bool finalT(TyFSType t) {
  using namespace uima::internal;
  return t == gs_tyIntegerType || t == gs_tyFloatType || t == gs_tyStringType || t == gs_tyArrayBaseType || t == gs_tyFSArrayType || t == gs_tyIntArrayType || t == gs_tyFloatArrayType || t == gs_tyStringArrayType;
}
static void compare(lowlevel::TypeSystem &ts, Model &m, const char *when) {
  std::string w = std::string(" after ") + when;
  if (ts.getNumberOfTypes() != m.t.size() - 1) fail("number of types is " + S(ts.getNumberOfTypes()) + " instead of " + S(m.t.size() - 1) + w);
  if (ts.getNumberOfFeatures() != m.f.size() - 1) fail("number of features is " + S(ts.getNumberOfFeatures()) + " instead of " + S(m.f.size() - 1) + w);
  std::vector<TyFSType> at(2, 77); ts.getAllTypes(at);
  if (at.size() != m.t.size() - 1) fail("getAllTypes gives " + S(at.size()) + " types" + w);
  for (size_t i = 0; i < at.size(); i++) if (at[i] != i + 1) fail("getAllTypes entry " + S(i) + w);
  std::vector<TyFSFeature> af(2, 77); ts.getAllFeatures(af);
  if (af.size() != m.f.size() - 1) fail("getAllFeatures gives " + S(af.size()) + " features" + w);
  for (size_t i = 0; i < af.size(); i++) if (af[i] != i + 1) fail("getAllFeatures entry " + S(i) + w);
  if (ts.iv_vecTree.size() != m.t.size() || ts.iv_vecParents.size() != m.t.size() || ts.iv_vecIntroducedFeatures.size() != m.t.size() || ts.iv_vecTypeCreatorIDs.size() != m.t.size()) fail("type tables of different size" + w);
  if (ts.iv_vecRangeTypes.size() != m.f.size() || ts.iv_vecFeatureCreatorIDs.size() != m.f.size() || ts.iv_vecMultiRefs.size() != m.f.size()) fail("feature tables of different size" + w);
  for (size_t i = 1; i < m.t.size(); i++) {
    if (ts.getTypeName(i) != m.t[i].name) fail("name of type " + S(i) + " is " + utf(ts.getTypeName(i)) + " instead of " + utf(m.t[i].name) + w);
    if (i > 1 && ts.getTypeCreatorID(i) != m.t[i].creator) fail("creator of type " + S(i) + " is " + utf(ts.getTypeCreatorID(i)) + " instead of " + utf(m.t[i].creator) + w);
    if (i > 1 && ts.iv_vecParents[i] != m.t[i].parent) fail("parent of type " + S(i) + w);
    if (ts.iv_vecTree[i] != m.t[i].kids) fail("direct subtypes of type " + S(i) + w);
    if (ts.iv_vecIntroducedFeatures[i] != m.t[i].feats) fail("declared features of type " + S(i) + w);
    if (!ts.isValidType(i)) fail("type " + S(i) + " not valid" + w);
    if (ts.getTypeByName(m.t[i].name) != i) fail("getTypeByName(" + utf(m.t[i].name) + ") gives " + S(ts.getTypeByName(m.t[i].name)) + " instead of " + S(i) + w);
  }
  for (size_t i = 1; i < m.f.size(); i++) {
    Model::Fe &f = m.f[i];
    if (ts.getFeatureBaseName(i) != f.name) fail("name of feature " + S(i) + w);
    if (ts.getFeatureCreatorID(i) != f.creator) fail("creator of feature " + S(i) + " is " + utf(ts.getFeatureCreatorID(i)) + " instead of " + utf(f.creator) + w);
    if (ts.getRangeType(i) != f.range) fail("range of feature " + S(i) + w);
    if (ts.isMultipleReferencesAllowed(i) != f.multi) fail("multiple references of feature " + S(i) + w);
    if (ts.getIntroType(i) != f.intro) fail("getIntroType(" + S(i) + ") gives " + S(ts.getIntroType(i)) + " instead of " + S(f.intro) + w);
    US full = m.t[f.intro].name; full.append((UChar)':'); full.append(f.name);
    if (ts.getFeatureName(i) != full) fail("full name of feature " + S(i) + " is " + utf(ts.getFeatureName(i)) + " instead of " + utf(full) + w);
    if (f.name.indexOf((UChar)':') < 0 && m.t[f.intro].name.indexOf((UChar)':') < 0 && ts.getFeatureByFullName(full) != m.find(f.intro, f.name)) fail("getFeatureByFullName(" + utf(full) + ") gives " + S(ts.getFeatureByFullName(full)) + w);
  }
  if (ts.isValidType(0) || ts.isValidType(m.t.size()) || ts.isValidFeature(0) || ts.isValidFeature(m.f.size())) fail("a number that was never declared is valid" + w);
}
static US word(const char *p) {
  static const char *s[] = {"a", "b", "ab", "abc", "A", "", "x.y", "a:b", ":", "type", "begin"};
  US r = chance(70) ? US((std::string(p) + S(below(30))).c_str()) : US(s[below(sizeof s / sizeof *s)]);
  if (chance(5)) r.append((UChar)0x4e00).append((UChar)below(60000));
  if (chance(2)) r.append((UChar)0).append((UChar)(65 + below(3)));
  return r;
}
int main(int argc, char **argv) {
  init(argc, argv);
  for (int round = 0; round < 60; round++) {
    what.clear();
    Env *e = makeEnv(0, 0, false);
    lowlevel::TypeSystem &ts = *e->ts;
    Model m; m.grab(ts);
    int steps = round % 10 == 9 ? 300 : 5 + len(80);
    for (int s = 0; s < steps; s++) {
      TyFSType p = chance(15) ? 1 + below(m.t.size() - 1) : m.t.size() - 1 - below(chance(50) ? 3 : m.t.size() - 1);
      if (p == 0) p = 1;
      bool before = m.t.size() < 3;
      US nm = word(chance(50) ? "t" : "u"), cr = word("creator");
      if (chance(8)) nm = m.t[1 + below(m.t.size() - 1)].name;
      if (chance(50)) {
        bool raw = chance(20);
        note(std::string("create type ") + utf(nm) + " below " + S(p));
        bool dup = m.type(nm) != 0 || nm == m.t[0].name, fin = !raw && finalT(p), thrown = false; TyFSType r = 0;
        try { r = raw ? ts.createTypeNoChecks(p, nm, cr) : ts.createType(p, nm, cr); } catch (TypeCreationFailedException &) { thrown = true; }
        if (thrown != (dup || fin)) fail(std::string("createType ") + (thrown ? "refuses a free name" : "accepts a taken name or a final parent") + " (" + utf(nm) + ")");
        if (!thrown) {
          if (r != m.t.size()) fail("createType returns " + S(r) + " instead of " + S(m.t.size()));
          Model::Ty x; x.name = nm; x.creator = cr; x.parent = p; m.t.push_back(x); m.t[p].kids.push_back(r);
        }
      } else {
        TyFSType rg = 1 + below(m.t.size() - 1); bool mu = chance(50);
        US fn = word(chance(50) ? "f" : "g");
        if (chance(20) && m.f.size() > 1) fn = m.f[1 + below(m.f.size() - 1)].name;
        note(std::string("create feature ") + utf(fn) + " of type " + S(p));
        bool bad = finalT(p) || p == 1 || m.find(p, fn), thrown = false; TyFSFeature r = 0;
        try { r = ts.createFeature(p, rg, mu, fn, cr); } catch (FeatureIntroductionFailedException &) { thrown = true; }
        if (thrown != bad) fail(std::string("createFeature ") + (thrown ? "refuses a free name" : "accepts a taken name or a final type") + " (" + utf(fn) + " of type " + S(p) + ")");
        if (!thrown) {
          if (r != m.f.size()) fail("createFeature returns " + S(r) + " instead of " + S(m.f.size()));
          Model::Fe x; x.name = fn; x.creator = cr; x.intro = p; x.range = rg; x.multi = mu; m.f.push_back(x); m.t[p].feats.push_back(r);
        }
      }
      for (int k = 0; k < 8; k++) {
        US q = chance(50) ? word("f") : m.f[below(m.f.size())].name; TyFSType x = below(m.t.size() + 2);
        TyFSFeature r = ts.getFeatureByBaseName(x, q);
        if (r != m.find(x, q)) fail("getFeatureByBaseName(" + S(x) + ", " + utf(q) + ") gives " + S(r) + " instead of " + S(m.find(x, q)));
        US tn = chance(70) ? m.t[below(m.t.size())].name : word("t");
        if (ts.getFeatureByBaseName(tn, q) != m.find(m.type(tn), q)) fail("getFeatureByBaseName(" + utf(tn) + ", " + utf(q) + ") gives " + S(ts.getFeatureByBaseName(tn, q)));
        US full = tn; if (chance(90)) full.append((UChar)':'); full.append(q);
        int c1 = full.indexOf((UChar)':'), c2 = full.lastIndexOf((UChar)':');
        TyFSFeature want = c1 < 0 || c1 != c2 ? 0 : m.find(m.type(US(full, 0, c1)), US(full, c1 + 1));
        if (ts.getFeatureByFullName(full) != want) fail("getFeatureByFullName(" + utf(full) + ") gives " + S(ts.getFeatureByFullName(full)) + " instead of " + S(want));
        US w = word("t");
        if (ts.getTypeByName(w) != m.type(w)) fail("getTypeByName(" + utf(w) + ") gives " + S(ts.getTypeByName(w)));
      }
      if (s % 7 == 0 || s == steps - 1) compare(ts, m, "a declaration");
      (void)before;
    }
    for (size_t t = 1; t < m.t.size(); t++) {
      if (ts.isAllowedToAddSubTypes(t) != !finalT(t)) fail("isAllowedToAddSubTypes(" + S(t) + ")");
      if (ts.isAllowedToCreateFeatures(t) != (!finalT(t) && t != 1)) fail("isAllowedToCreateFeatures(" + S(t) + ")");
    }
    delete e->def; delete e;
  }
  printf("replay found no failing input\n");
  return 0;
}
