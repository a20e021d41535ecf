#!/usr/bin/env python3-vt
"""Single source of truth for properties.jsonl and MANIFEST.json (run after editing)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
NA = []
def prop(id, title, statement, files, mech, text, why, over=('inputs', 'configurations'), tech=None, note=None, level='other', observe=None, na=None):
    d = {'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': list(over), 'text': text}, 'why_tests_cant': why,
         'anchors': {'files': ['include/math/' + f if f.endswith('.hpp') else f for f in files], 'mechanism': [{'name': n, 'where': w} for n, w in mech]}}
    if observe: d['anchors']['observe_at'] = observe
    P.append((d, tech, note, level, na))
GVN = ('global value numbering over compiler IR (gated SSA): every result slot of every entry point is reduced to a canonical normal form and compared with the '
       'normal form of its specification, path conditions refined polyhedrally')
NOTE = ('Decides every listed entry point for all real-number inputs in 5 build configurations (x86 SSE2, SSE4.1, AVX2/FMA, AArch64 NEON, portable fallback without SIMD) from the IR of the current sources. '
        'Rounding, NaN payloads and signed zeros are abstracted (real arithmetic).')
TEST = 'The suite evaluates a handful of fixed operands in one build configuration; the claim is for every operand value in every SIMD configuration.'
GVN_W = GVN + '; compile-fail witnesses for rejected instantiations'
NOTE_FN = NOTE + ' The fast approximations of power, exponential and logarithm are treated as opaque functions here.'
NOTE_VEC = NOTE + ' std::vector is replaced by a contract model (shimvec/) with the same interface.'
NOTE_STR = NOTE + ' std::string, std::to_string and std::stoul are replaced by a contract model (shimstr/): text is a sequence of characters and formatted numbers.'
NOTE_BVH = NOTE + ' B01 and B03 leave the portable fallback out.' + ' std::vector, std::stack and std::function are replaced by contract models (shimbvh/). Trees are those of up to four primitives with every split decision left open (up to seven with the first split given), respectively all tree shapes of up to six leaves.'
import meta_props
NOTE_A = NOTE + ' The entry points and their preconditions are those of the specifications of the other properties; containers are contract models that trap when misused.'
NOTE_T = 'Decided from what the compiler front ends accept, lay out and record in the syntax tree of the current sources (x86 SSE2, SSE4.1, AVX2/FMA, AArch64 NEON); nothing is executed.'
NOTE_R = 'Bounds hold for real arithmetic with the written coefficients (the accumulated rounding of the operations, some units in the last place, is not part of them). Code with branches or operations outside of the domain is reported as undecided.'
for k in ('NOTE_R', 'NOTE_T', 'NOTE_A', 'NOTE_BVH', 'GVN', 'GVN_W', 'NOTE', 'NOTE_FN', 'NOTE_VEC', 'NOTE_STR'): setattr(meta_props, k, globals()[k])
from meta_props import define
define(prop)
def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for d, *_ in P: f.write(json.dumps(d) + '\n')
    checks = []; na = []
    for d, tech, note, level, reason in P:
        if reason: na.append({'property': d['id'], 'reason': reason}); continue
        i = d['id']
        checks.append({'property': i, 'quick_cmd': 'python3-vt check.py %s --tier quick' % i, 'thorough_cmd': 'python3-vt check.py %s --tier thorough' % i,
                       'technique': tech or GVN, 'level': level, 'level_note': note or NOTE})
    m = {'version': 1, 'setup_cmd': 'python3-vt tools/selfcheck.py', 'checks': checks, 'not_applicable': na}
    json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
    print(len(P), 'properties', len(checks), 'checks')
if __name__ == '__main__': main()
