"""Object set-up shared by the contracts over the public API classes (FeatureStructure, arrays, lists)."""
from fsh import *
import V02


def opaque(ex, st, args, i, dem):
    """a call without any effect on the modelled state (text and message handling); its result is arbitrary"""
    return None


# building an error message, logging it: no effect on CAS data
OPAQUE = r'(?:void )?(?:uima::Error\w+::|uima::Exception::|uima::\w*Exception::|uima::\w+::\w*Exception::|icu_\d+::UnicodeString::~?UnicodeString|uima::LogFacility::|uima::Type::getName\(|uima::Feature::getName\(|uima::lowlevel::TypeSystem::get(Feature|Type)\w*Name\()'
ESTUBS = STUBS + [(re.compile(r'uima::Exception::getErrorInfo\('), lambda ex, st, a, i, d: ex.opaqueobj(st, 'ErrorInfo')),
                  (re.compile(OPAQUE), opaque)]


def exname(ex, e):
    """class name of a thrown exception (from its typeinfo symbol)"""
    return e[0] or '?'


def throws(e, cls):
    """formula: the thrown exception is of class cls (Itanium-mangled typeinfo name)"""
    return (e[0] or '').endswith('%d%sE' % (len(cls), cls)) or (e[0] or '').endswith('%d%s' % (len(cls), cls))


class ApiC(HeapC):
    """a contract with a CAS (heap, type system) and feature structure objects over it"""

    def cas(self, ex, st, g):
        self.base(ex, st, g)
        P = ex.P
        g.cas = ex.newblk(st, 'heap', 'CAS', max(P.layouts.get('uima::CAS', {'': 4096}).values()) + 64)
        fput(ex, st, g.cas, P.off('uima::CAS', 'iv_heap'), 'ptr', Ptr(g.H.b, 0))
        if 'iv_typeSystem' in P.layouts.get('uima::CAS', {}):
            fput(ex, st, g.cas, P.off('uima::CAS', 'iv_typeSystem'), 'ptr', Ptr(g.ts.b, 0))

    def fsobj(self, ex, st, g, fs, name='fsobj', cas=True):
        """a FeatureStructure object holding reference fs and this CAS"""
        P = ex.P
        b = ex.newblk(st, 'heap', name, 24)
        fput(ex, st, b, P.off('uima::FeatureStructure', 'iv_tyFS'), 'i32', fs)
        fput(ex, st, b, P.off('uima::FeatureStructure', 'iv_cas'), 'ptr', Ptr(g.cas, 0) if cas else NULL)
        return b
