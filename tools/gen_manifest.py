"""Writes MANIFEST.json from the rules that exist."""
import json, os, sys, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
 'S': 'path-sensitive abstract interpretation of the simulator: per-path event summaries of every entry point compared with a per-element protocol rule',
 'G': 'path-sensitive abstract interpretation of graph operations: per-path effect summaries compared with an operation table',
 'Q': 'abstract interpretation of the heap operations: effect, typestate and bounds rules over path summaries',
 'T': 'exhaustive evaluation of comparator summaries over finite orderings; effect rules on copies and atomic accesses',
 'N': 'extraction of the numerical schema from loop summaries, normalised as polynomials and compared with order conditions or identities; dataflow rules',
 'H': 'path-sensitive abstract interpretation of the hybrid wrapper: protocol and value rules over path summaries',
 'C': 'path-sensitive abstract interpretation of the CVODE adapter: call-protocol and value rules over path summaries',
 'F': 'call-protocol typestate analysis of the FMI wrapper over path summaries',
 'R03': 'nullness analysis: path conditions at every place where a pointer that may be null is followed',
 'R02': 'bounds analysis: symbolic lengths of allocations against every index used',
 'R': 'ownership analysis: acquisition and release sites matched over constructors, destructors and copies',
}
NOTE = 'Decides the rule for every path of the analysed functions at the analysed instantiations, with loops summarised by element; ' \
       'forms the rule does not recognise are left undecided and listed in the evidence, never reported.'
NA = {
 'X01': 'adevs does not promise it: route recurses for every connection and termination depends on the run-time graph being acyclic, a quantity no static argument over this source bounds.',
 'X02': 'the distance between the computed and the exact trajectory depends on the user\'s differential equations and on floating point rounding at run time; no sound static argument over this source bounds it.',
 'X03': 'sets of models are ordered by address, so the order of events depends on run-time addresses by construction and whether results depend on it is a property of the user\'s models.',
 'X04': 'termination and progress depend on the time advances and event functions of the user\'s models at run time.',
}
def main():
    sys.path.insert(0, os.path.join(V, 'sa'))
    ids = []
    for m in sorted(os.listdir(os.path.join(V, 'sa'))):
        if m.startswith('rules_') and m.endswith('.py'):
            for n in re.findall(r'^def ([A-Z]\d\d)\(cx, rep\)', open(os.path.join(V, 'sa', m)).read(), re.M):
                ids.append(n)
    allp = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
    checks = [{'property': i, 'quick_cmd': 'python3 sa/run.py ' + i, 'thorough_cmd': 'python3 sa/run.py ' + i,
               'evidence_file': 'evidence/%s.json' % i, 'technique': TECH.get(i) or TECH[i[0]], 'level': 'other', 'level_note': NOTE}
              for i in allp if i in ids]
    na = [{'property': i, 'reason': NA.get(i, 'no check yet')} for i in allp if i not in ids]
    json.dump({'version': 1, 'setup_cmd': 'bash extract/build.sh', 'checks': checks, 'not_applicable': na,
               'notes': 'Static analysis only; see DESIGN.md.'}, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
    print(len(checks), 'checks', [x['property'] for x in na])
main()
