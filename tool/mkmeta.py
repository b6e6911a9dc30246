#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from the table below (kept in one place so that they stay in step)"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, obs=None, claim=True, na=None, note=None):
    assert len(title) <= 80, (id, len(title))
    d = {'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
         'anchors': {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}}
    if obs:
        d['anchors']['observe_at'] = obs
    P.append((d, claim, na, note))


HEAPF = ['src/cas/uima/lowlevel_fsheap.hpp', 'src/cas/lowlevel_fsheap.cpp', 'src/cas/uima/lowlevel_internal_heap.hpp']
prop('V01', 'CAS storage allocation is fresh, zeroed and preserves what exists',
     'Every allocation in a CAS (a feature structure, an array of any element type, a string, a 64-bit value) yields a new non-null reference to storage that is '
     'disjoint from everything allocated before and that is zero except for the header or payload that was asked for. All data stored before the allocation keeps its value, '
     'whatever the page sizes and however often the storage has to grow. Resetting a CAS makes every store empty and zeroed again.',
     ['inputs', 'histories'], 'all page sizes, all allocation sizes, all histories of allocations (by induction over the representation invariant of each store)',
     'Tests allocate a few structures with the default page sizes and rarely cross a growth boundary; the guarantee is about every growth boundary and every size.',
     HEAPF, [('increaseHeap, reset, constructor of Heap<T>', 'src/cas/uima/lowlevel_internal_heap.hpp'), ('createFS, createArrayFS, addString, addLong, addDouble', 'src/cas/uima/lowlevel_fsheap.hpp'), ('FSHeap constructors and reset', 'src/cas/lowlevel_fsheap.cpp')])
exec(open(os.path.join(V, 'tool', 'meta_more.py')).read()) if os.path.exists(os.path.join(V, 'tool', 'meta_more.py')) else None

ORDER = {}


def main():
    P.sort(key=lambda x: x[0]['id'])
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for d, c, na, note in P:
            f.write(json.dumps(d) + '\n')
    m = {'version': 1, 'setup_cmd': 'python3-vt tool/setup.py', 'checks': [], 'not_applicable': []}
    for d, c, na, note in P:
        i = d['id']
        if c and os.path.exists(os.path.join(V, 'specs', i + '.py')):
            m['checks'].append({'property': i, 'quick_cmd': 'python3-vt tool/check.py %s --tier quick' % i, 'thorough_cmd': 'python3-vt tool/check.py %s --tier thorough' % i,
                                'technique': 'contract-based deductive verification: function contracts and inferred loop invariants over the LLVM IR compiled from /repo, obligations discharged by z3/cvc5',
                                'level': 'proof',
                                'level_note': (note or 'Every obligation of every contract is discharged for all inputs, with no bound.') +
                                ' Trusts clang, the VC generator in tool/, z3 and cvc5; partial correctness; allocation succeeds; separate objects do not overlap. See the assumptions in the evidence file.'})
        else:
            m['not_applicable'].append({'property': i, 'reason': na or 'contracts for it are not built yet'})
    with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
    print(len(m['checks']), 'claimed,', len(m['not_applicable']), 'not applicable')


if __name__ == '__main__':
    main()
