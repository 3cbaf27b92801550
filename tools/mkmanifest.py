"""writes MANIFEST.json from vf/props.py"""
import json, sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'vf'))
import props
NA = [
 ('C28', 'Real-time behaviour of a whole run (one bounding step may take arbitrarily long on a slow machine); contracts over single calls of sequential code have no notion of elapsed wall-clock time. The logical part (the limit is honoured whenever it is consulted) is C20.'),
 ('C29', 'The driver is Python that runs a PyTorch network and external processes; no deductive verifier for Python is installed, the network weights and PyTorch are absent, and the property relates files produced by another program.'),
]
checks = []
for id in sorted(props.P):
    p = props.P[id]
    proved = p['fns'] is None or p['fns'] or p['lemmas']
    checks.append(dict(property=id, quick_cmd='python3 vf/check.py %s' % id, thorough_cmd='python3 vf/check.py %s --tier thorough' % id,
        technique='contract-based deductive verification of the C sources (own obligation generator over the clang AST, SMT back ends); failing inputs searched on the real code' if proved else 'bounded check of the real code against an enumerating oracle (contracts for these functions not discharged; see DESIGN.md)',
        level='proof' if proved else 'exploration',
        level_note=p['notes'] or ('Every obligation generated from the current source of the listed functions is discharged for all inputs; trusts the obligation generator, the clang parser, the SMT solvers and the idealisations listed in the evidence.' if proved else 'Bounded: graphs of at most 10 nodes, random and enumerated cases; not a proof.')))
m = dict(version=1, setup_cmd='python3 vf/setup.py', checks=checks, not_applicable=[dict(property=a, reason=b) for a, b in NA],
         notes='No hooks in /repo: the verifier reads the unmodified sources; contracts live in specs/*.spec and are bound to functions, parameters, loops and locals of the code on every run. See DESIGN.md.')
json.dump(m, open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'MANIFEST.json'), 'w'), indent=1)
