#!/usr/bin/env python3
# Writes /verif/MANIFEST.json.
import json, os
ROOT=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
IR='path-sensitive typestate/ownership/value-flow dataflow (abstract interpretation) over LLVM IR of the library instantiated by abstract clients'
SA='type-level obligations (static_assert) discharged by clang and gcc'
REJ='compile-fail witnesses paired with accepted controls'
ESC='exception-escape analysis'
T={'C16':ESC+' over LLVM IR (typestate dataflow) + '+SA,'C17':'effect analysis: frozen-memory write dataflow over LLVM IR + lint for mutable static data','C18':'placement/allocation effect dataflow over LLVM IR + '+SA,
   'C19':REJ+' + '+SA,'C20':SA,'C27':'linkage lint over the LLVM IR of the fully instantiated interface + header self-containment decided by the clang and gcc front ends'}
NOTE={'default':'Every path of the library code that clang instantiates for the drivers is analysed, for all values (value numbers are uninterpreted) and every throw/allocation-failure point the driver enables; histories are closed by a fixpoint over abstract states. Assumes representative bounded type lists per dispatch class, clang 18\'s lowering, and the abstract bounded types; nothing is executed.',
 'C20':'Decided by the type checkers of clang 18 and g++ 13 for the table of lists in the units; lists outside the table are not covered.',
 'C27':'Header order is covered as: each header first, then the rest in a fixed order. Internal-linkage definitions are accepted.',
 'C19':'Each rejection rule is witnessed by programs that must and must not compile under clang 18 and g++ 13.'}
na=[dict(property='C25',reason='Stack depth grows with the nesting depth of the run-time value; no static bound exists for "any depth", and the recursion is by design.'),
    dict(property='C26',reason='A statistical statement about hash values of run-time contents; uninterpreted value numbers cannot express a distribution and no static argument bounds it.')]
checks=[]
for i in list(range(1,25))+[27]:
    p='C%02d'%i
    if not os.path.isdir(os.path.join(ROOT,'checks',p)): continue
    checks.append(dict(property=p,quick_cmd='python3 check.py %s --tier quick'%p,thorough_cmd='python3 check.py %s --tier thorough'%p,evidence_file='evidence/%s.json'%p,
       technique=T.get(p,IR),level='other',level_note=NOTE.get(p,NOTE['default'])))
json.dump(dict(version=1,setup_cmd='python3 -c "import check; check.build_tool()"',checks=checks,not_applicable=na,
  notes='Static analysis only; see DESIGN.md. No hooks in /repo; six fix: commits.'),open(os.path.join(ROOT,'MANIFEST.json'),'w'),indent=1)
