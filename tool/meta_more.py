prop('V02', 'Feature values read back exactly as written; nothing else changes',
     'In a committed CAS, setting a feature of a feature structure and reading it back gives exactly the value set, for every feature type (int, float, boolean, byte, short, long, double, '
     'feature structure reference, NUL-terminated string) and every bit pattern. The write changes that feature only: no other feature, structure, string or 64-bit value. '
     'A feature never set reads as 0, 0.0, false, no structure, or null string. Copying features between structures of one type copies every value, and later string writes to one do not show in the other.',
     ['inputs', 'histories'], 'all values, all features with their committed offsets, all heap contents that satisfy the heap invariant',
     'Tests set a few values on a few features; the guarantee is about every bit pattern and about everything the write must leave alone.',
     HEAPF + ['src/cas/internal_typeshortcuts.cpp'], [('set*Value / get*Value / getFSAs* / copyFeatures', 'src/cas/uima/lowlevel_fsheap.hpp'), ('setStringValue, getFSAsString, copyFeatures', 'src/cas/lowlevel_fsheap.cpp')])
NA = lambda id, title, st, files, mech, why: prop(id, title, st, ['inputs', 'histories'], 'all inputs and histories of the operations named', 'Only particular histories are sampled by tests.', files, mech, claim=False, na=why)
prop('V03', 'Arrays return what was stored and refuse every access outside them',
     'For arrays of every kind (int, float, boolean, byte, short, long, double, string, feature structure): a new array has exactly the requested size, elements start as 0/false/null and nothing created earlier changes; '
     'set(i,v) then get(i) gives v exactly and changes nothing else; copyToArray and copyFromArray of a non-empty range move exactly those elements, in order, and nothing else. '
     'get, set or a copy whose range ends past the size throws FSArrayOutOfBoundsException (an invalid array: InvalidFSObjectException) and changes nothing. Making an array object from a structure of another type throws FSIsNotArrayException.',
     ['inputs', 'histories'], 'all element values, all indices and ranges (copy bounds below 2^62), all array sizes and heap contents that satisfy the heap invariant',
     'Tests use a few arrays and in-range indices; the guarantee is about every index, every value and the absence of side effects.',
     HEAPF + ['src/cas/arrayfs.cpp', 'src/cas/uima/arrayfs.hpp', 'src/cas/internal_typeshortcuts.cpp', 'src/cas/featurestructure.cpp'],
     [('BasicArrayFS::get/set/size/copyToArray/copyFromArray/createArrayFS', 'src/cas/arrayfs.cpp'), ('getCArrayFromFS, get8BitArray, copyToArray, copyFromArray', 'src/cas/uima/lowlevel_fsheap.hpp')])
TSF = ['src/cas/lowlevel_typesystem.cpp', 'src/cas/uima/lowlevel_typesystem.hpp']
prop('V04', 'The type hierarchy operations agree with the declared type tree',
     'For every type system built from declared types (each with one declared parent) and all types a, b: subsumes(a,b) holds exactly when a is b or an ancestor of b, so it is a partial order with the top type above every type; '
     'getParentType returns the declared parent (none for top); getMostSpecificCommonSupertype returns the most specific type that subsumes both; '
     'getSubsumedTypes appends exactly the type and all its direct and indirect subtypes, each once, leaving what was in the result; getDirectSubTypes gives exactly the declared direct subtypes. None of these changes the type system.',
     ['inputs'], 'all type trees of any size and shape, all types',
     'Tests look at a few small trees; the guarantee is about trees of every depth and width and every pair of types.',
     TSF, [('subsumes, getParentType, getMostSpecificCommonSupertype, getSubsumedTypes, getDirectSubTypes', 'src/cas/lowlevel_typesystem.cpp')])
prop('V05', 'Index key comparison is a total preorder given by the first differing key',
     'IndexComparator::compare(a,b) depends only on the first key, in the order the keys were added, by which a and b differ; it is 0 when all keys agree. With STANDARD_COMPARE a smaller key value makes the result 1, a larger one -1 '
     '(REVERSE_STANDARD_COMPARE the opposite). Keys compare int, byte, short and long values as signed numbers, float and double numerically (NaN excluded), booleans false before true, strings by UTF-16 code units (a proper prefix is smaller; unset counts as empty) and type priority keys by the type priority. '
     'Comparison is therefore antisymmetric and transitive. addKey appends exactly the given key.',
     ['inputs'], 'all comparators with any number of keys of every kind, all pairs and triples of structures, all heap contents',
     'Tests compare a few annotations by begin/end; the guarantee is about every key kind and value, and an inconsistent comparison silently corrupts sorted indexes.',
     ['src/cas/lowlevel_indexcomparator.cpp', 'src/cas/uima/lowlevel_indexcomparator.hpp'], [('compare, inline_strCompare, addKey', 'src/cas/lowlevel_indexcomparator.cpp'), ('getFSAs*, getFeatureWithOffset', 'src/cas/uima/lowlevel_fsheap.hpp')])
prop('V14', 'Ordered and FIFO indexes hold exactly what was added, in index order',
     'For every history of add, remove and reset on a single-type ordered index: it holds exactly the structures added and not removed (remove takes out that structure only, an absent one changes nothing), always sorted by the comparator; '
     'find returns a structure of the index that compares equal, or none exactly when there is none. A FIFO index holds them in the order they were added; its find and remove act on that structure itself. '
     'Iterators: moveToFirst/moveToLast/moveToNext/moveToPrevious visit every structure once, in order, and are invalid before the first and after the last; moveTo on an ordered index stops at the given structure if present, else at the first that does not come before it, and returns false, not moving, when there is none.',
     ['inputs', 'histories'], 'all index contents of any size, all structures, all comparators that are total preorders (V05)',
     'Tests index a few annotations; the guarantee is about every insertion point, equal keys, absent structures and every size.',
     ['src/cas/lowlevel_internal_indexes.cpp', 'src/cas/uima/lowlevel_internal_indexes.hpp'], [('OrderedSingleIndex::add/remove/find/reset, STLSingleIndexIterator, compareWithoutEquality', 'src/cas/lowlevel_internal_indexes.cpp'), ('FIFOSingleIndex', 'src/cas/uima/lowlevel_internal_indexes.hpp')])
prop('V15', 'Types and features are found by name and declared exactly as asked',
     'getTypeByName returns the type of that name, or 0 exactly when there is none. getFeatureByBaseName returns the feature of that name declared by the type or its nearest ancestor below top, or 0 exactly when there is none; getFeatureByFullName does so for "type:feature" with exactly one colon. '
     'Declaring a type or feature adds exactly that one: next free number, given name, parent or declaring type, range, creator and multiple-reference flag, listed last at its parent or declaring type; everything declared before is kept. '
     'A type name already taken, a parent that is final (int, float, string, the base array, FS, int, float and string array types), a feature name the type already has, and a feature on a final type or top are refused with TypeCreationFailedException or FeatureIntroductionFailedException, and nothing changes. Accessors return what was declared.',
     ['inputs', 'histories'], 'all type systems of any size and shape that satisfy the table invariant, all names, all declarations',
     'Tests declare a few types and look up a few names; the guarantee is about every tree, every name, inherited features and refused declarations.',
     TSF + ['src/framework/uima/stltools.hpp'], [('createType, createTypeNoChecks, createFeature, getTypeByName, getFeatureByBaseName, getFeatureByFullName, getIntroType, getFeatureName', 'src/cas/lowlevel_typesystem.cpp'), ('accessors', 'src/cas/uima/lowlevel_typesystem.hpp')])
prop('V13', 'Committed features get distinct offsets; inherited features keep theirs',
     'Committing a type system with any declared types and features gives every feature the offset (inherited features of the declaring type) + its 1-based position among the features that type declares. So the features of a type (own and inherited) have distinct offsets 1..n, where n is their number, '
     'and an inherited feature has the same offset in every subtype. After commit, getFeatureOffset and getFeatureNumber return these, isAppropriateFeature(t,f) holds exactly when f is declared by t or an ancestor, '
     'getAppropriateFeatures(t) lists exactly those, each once, replacing what was in the result, and the feature at an offset of a type is the one with that offset there (0 when there is none). Declarations are unchanged.',
     ['inputs'], 'all type systems of any size and shape with any number of features per type, on their first commit',
     'Tests commit a few shallow type systems; storage of every feature value relies on offsets not colliding for every tree, which no sample of trees settles.',
     TSF, [('commit, computeApprop, computeTypeFeatureOffsetMapping, getAppropriateFeatures, isAppropriateFeature', 'src/cas/lowlevel_typesystem.cpp'), ('getFeatureOffset, getFeatureNumber and the offset table lookup', 'src/cas/uima/lowlevel_typesystem.hpp')])
prop('V06', 'UnicodeStringRef acts as exactly the UTF-16 units it refers to',
     'A reference made from a text has exactly its start and length. The operators == != < <= > >= and compare order two references by the first differing unit, then by length (-1, 0, 1), also for units above 0x7fff and NUL; compareCodePointOrder compares the whole ranges. '
     'startsWith and endsWith hold exactly when the units are there. indexOf and lastIndexOf (unit, code point, text, with or without a range) return the first or last offset in the range where it occurs whole, -1 exactly when there is none. '
     'A start or length outside the reference is pinned to it. charAt, char32At, getChar32Start and getChar32Limit give the unit or code point there, 0xffff outside. extract writes exactly the units of the range and nothing else. Only units of the referenced texts are read. A null reference acts as empty.',
     ['inputs'], 'all contents, lengths, starts and limits, including negative and out of range ones, surrogates, NUL and null references',
     'Tests compare and search a few short ASCII strings; the guarantee is about every content and every start, length and overload.',
     ['src/framework/unistrref.cpp', 'src/framework/uima/unistrref.hpp'], [('doCompare, doCompareCodePointOrder, indexOf, lastIndexOf, doIndexOf, doLastIndexOf', 'src/framework/unistrref.cpp'), ('pinIndices, operators, startsWith, endsWith, char32At, extract, caseCompare', 'src/framework/uima/unistrref.hpp')])
prop('V11', 'FeatureStructure reads and writes the named feature or refuses with an error',
     'get/set Int, Float, Boolean, Byte, Short, Long, Double, String and FS values of a FeatureStructure act on the named feature of that structure only: get returns what was last set, set changes nothing else. '
     'An invalid object gives InvalidFSObjectException, an invalid feature InvalidFSFeatureObjectException, a feature the type does not have FeatureNotAppropriateException, one whose range does not subsume the value\'s type IncompatibleValueTypeException (a string access on another range: FSIsNotStringException; '
     'a text outside a string subtype\'s values: WrongStringValueException; getFSValue on a primitive range: FeatureNotAppropriateException; array getters on another kind: FSIsNotArrayException), and no feature changes. getFSValue gives an annotation in the view it belongs to. '
     'CAS::createFS gives a fresh structure with all features unset (an annotation: its sofa set) or refuses invalid and primitive types; clone copies the values of all common features, sharing no string reference.',
     ['inputs', 'histories'], 'all structures, features (valid or not), values and types of a committed type system, all heap contents that satisfy the heap invariant',
     'Tests try a few wrong accesses; the guarantee is about every combination of object, feature, range and value and about what a refused access leaves unchanged.',
     ['src/cas/featurestructure.cpp', 'src/cas/uima/featurestructure.hpp', 'src/cas/cas.cpp', 'src/cas/typesystem.cpp'] + HEAPF,
     [('FeatureStructure::get/set*Value, checkFeature, checkAppropFeature, checkNonBuiltinFeature, clone, getType, isValid', 'src/cas/featurestructure.cpp'), ('CAS::createFS', 'src/cas/cas.cpp'), ('copyFeatures', 'src/cas/lowlevel_fsheap.cpp')])
prop('V08', 'Lists keep their elements in order; each operation changes only its part',
     'For lists of every kind (int, float, string, feature structure), built of elements ended by an empty list: getLength is the number of elements; getHead and getTail give the first value and the rest; addFirst puts a value in front, addLast behind the last; '
     'append and prepend join two lists without a common element, in order; removeElement unlinks exactly the first element with the value (none: an invalid object, nothing changes). Other elements and structures are kept. '
     'On an empty list getHead, getTail and their setters throw ListIsEmptyException; an invalid object gives InvalidFSObjectException, another type FSIsNotListException, joining a non-empty list with itself ListIsCircularException; nothing changes. '
     'The list getters of FeatureStructure give the list referred to, or set a fresh empty list if unset; an invalid object or feature, a feature the type does not have or another kind of list is refused with an exception.',
     ['inputs', 'histories'], 'all lists of any length and kind, all values, all heap contents that satisfy the heap invariant',
     'Tests build lists of a few elements; the guarantee is about every length, position and value and about everything an operation must leave alone.',
     ['src/cas/listfs.cpp', 'src/cas/uima/listfs.hpp', 'src/cas/featurestructure.cpp'] + HEAPF,
     [('BasicListFS::getLength/getHead/getTail/setHead/setTail/addFirst/addLast/append/prepend/removeElement/moveToNext/createListFS', 'src/cas/listfs.cpp'), ('getListFSValue, get{Float,Int,String}ListFSValue, hasListElements', 'src/cas/featurestructure.cpp')])

prop('V10', 'A binary blob of a CAS restores every heap cell and every index',
     'getBlob writes into a buffer of at least getBlobSize bytes exactly the contents of all heaps (structures, strings, string references, 8, 16 and 64-bit values) and the list of indexed structures, returns the number of bytes and writes nothing past them; '
     'with a smaller buffer it returns 0 and leaves it untouched. The CAS is not changed. deserializeBlob restores, from a blob in this or the other byte order, every heap with exactly the cells of the blob, and builds the indexes from the listed structures once all heaps are restored. '
     'deserializeIndexedFSs empties the indexes and gives every view exactly the structures listed for it. createFSHeap, createByteHeap, createShortHeap and createLongHeap replace a heap by exactly the cells of the serialized CAS.',
     ['inputs', 'histories'], 'all heap contents and sizes, all buffer sizes, both byte orders, any number of views and indexed structures, any previous contents of the CAS read into',
     'Tests write and read a few small CASes in the byte order of the machine; the guarantee is about every size (padding, empty sections), value, byte order and previous state.',
     ['src/cas/internal_casserializer.cpp', 'src/cas/internal_casdeserializer.cpp', 'src/cas/uima/lowlevel_internal_heap.hpp'],
     [('getBlobSize, getBlob', 'src/cas/internal_casserializer.cpp'), ('deserializeBlob, swapBlob, deserializeIndexedFSs, create*Heap', 'src/cas/internal_casdeserializer.cpp'), ('increaseHeap, reset', 'src/cas/uima/lowlevel_internal_heap.hpp')])

prop('V07', 'Language codes parse, compare and match exactly as documented',
     'A Language made (constructors from a C string, std::string, UnicodeStringRef; setValue) from the empty text is unspecified; from two ASCII letters, or two pairs of them joined by - or _, it is that code in lower case joined by -; from any other text it is the invalid code ?? without territory. '
     'asString, isValid, hasLanguage, hasTerritory, getLanguageCode, getTerritoryCode, getLanguage, getTerritory and asNumber give that code and its parts. A Language made from asNumber() of a valid language is the same language. '
     '==, != and < are equality and the order of the codes. matches holds exactly when the codes are equal, one is unspecified, or the languages agree and one has no territory.',
     ['inputs'], 'all texts of any length and content, all pairs of languages',
     'Tests try a handful of codes; the guarantee is about every text (letters, case, separators, length, non-ASCII) and every pair.',
     ['src/framework/language.cpp', 'src/framework/uima/language.hpp'], [('init, _initFromString, Language(number), matches', 'src/framework/language.cpp'), ('operators, is/has/get methods, asNumber, setValue', 'src/framework/uima/language.hpp')])
prop('V09', 'A local sofa stream delivers exactly the bytes of its data and nothing else',
     'open on a sofa with text gives a stream over the UTF-8 bytes of the text, on a sofa with an int, float, boolean, byte, short, long or double array one over the cells of the array, positioned at the start; without local data, with another array or with a text that is not well-formed UTF-16 it throws SofaDataStreamException. '
     'read copies the next elements, as many as asked for or as are left, to the buffer and nothing behind them, moves the position by as many and returns their number, -1 at the end; a wrong element size for text, int or float data throws. Only bytes of the data are read. '
     'seek to a place inside the data moves there and returns 0, outside it returns -1 and stays; an unknown origin throws. The size, the bytes available and the data pointer are those of the data. close frees the text; then read and seek throw.',
     ['inputs', 'histories'], 'all texts and arrays of any length, all positions, element counts, offsets and origins (element sizes of the data)',
     'Tests read a few short arrays from start to end; the guarantee is about every length, position, partial read and offset.',
     ['src/cas/sofastream.cpp', 'src/cas/uima/sofastream.hpp'] + HEAPF[:1],
     [('LocalSofaDataStream::open/read/seek/close/getTotalStreamSizeInBytes/howManyBytesAvailable/getDataPointer', 'src/cas/sofastream.cpp'), ('getCArrayFromFS, get8BitArray, get16BitArray, get64BitArray', 'src/cas/uima/lowlevel_fsheap.hpp')])
IXF = ['src/cas/lowlevel_indexrepository.cpp', 'src/cas/uima/lowlevel_indexrepository.hpp', 'src/cas/lowlevel_internal_indexes.cpp', 'src/cas/uima/lowlevel_internal_indexes.hpp']
prop('V12', 'Every index of a type follows additions and removals; no stale composite list',
     'For every history on an index repository: add(fs) puts fs once into every single-type index of exactly its type, remove(fs) takes it out of each of them, add and remove with an index identifier act on that one index only, and contains(fs) holds exactly when one of them holds fs. '
     'A structure of a type without index is remembered until it is removed or the repository is reset. reset empties every index. '
     'An iterator over an index of a type with subtypes always sees the current contents: after any addition, removal or reset that touches the type or a subtype its cached list counts as out of date, creating an iterator then rebuilds the list before use, and a list counts as current only for the index that was rebuilt. '
     'The rebuilt list of a FIFO (bag) index holds the structures of its component indexes, one component after the other, each in its order. '
     'getUsedIndexes lists the types in use, and getIndexedFSs lists every structure held by an index of a type in use or remembered for a type without index, each once and ascending, in place of what the list held. The low-level index of an identifier is the single index for a type without subtypes and the composite one otherwise.',
     ['inputs', 'histories'], 'all numbers of types, indexes per type and structures, all histories of add, remove, reset and iteration (by induction over the repository invariant)',
     'Tests index a few annotations and iterate once; the guarantee is about every interleaving of additions, removals, resets and iterations over every index.',
     IXF, [('add, remove, contains, reset, getIndexedFSs, isDirtyForIndex, clearDirtyFlagForIndex', 'src/cas/lowlevel_indexrepository.cpp'), ('add, remove by index identifier, getUsedIndexes, getLowlevelIndex', 'src/cas/uima/lowlevel_indexrepository.hpp'),
           ('CachedCompositeIndex::createIterator, createTypeSetIterator', 'src/cas/lowlevel_internal_indexes.cpp'), ('CachedCompositeIndex::clearAndFillCache', 'src/cas/uima/lowlevel_internal_indexes.hpp')])
prop('V16', 'Filtered and type-set iterators visit exactly the accepted structures in order',
     'An iterator with a filter, and an iterator restricted to a set of types, visits exactly the structures of the iterator it wraps that the filter lets pass (whose type is in the set), in the same order and none twice: moveToFirst and moveToLast stop at the first and last accepted structure, moveToNext and moveToPrevious at the next accepted one after or before, '
     'moveTo at the first accepted structure from the one the wrapped iterator moves to (false and not moved when that one cannot move there). Whenever there is no such structure the iterator is invalid; whenever it is valid it is at an accepted structure, and get and getTyFSType return that structure and its type. A clone is at the same structure, and moving it leaves the original where it is.',
     ['inputs', 'histories'], 'all sequences of structures of any length, all filters and type sets, all positions',
     'Tests filter a few annotations going forward; the guarantee is about both directions, every accepted set (empty, all, single, at the ends) and every position.',
     ['src/cas/lowlevel_index.cpp', 'src/cas/lowlevel_internal_indexes.cpp'], [('FilterIndexIterator, createFilteredIterator', 'src/cas/lowlevel_index.cpp'), ('TypeSetIterator', 'src/cas/lowlevel_internal_indexes.cpp')])
