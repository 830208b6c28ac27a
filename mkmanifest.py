#!/usr/bin/env python3
"""Writes MANIFEST.json from props/ (claimed = has a props module) and notapplicable.json."""
import json,os
H=os.path.dirname(os.path.abspath(__file__)); ids=[json.loads(l)['id'] for l in open(H+'/properties.jsonl')]
na=json.load(open(H+'/notapplicable.json'))
claimed=[i for i in ids if os.path.exists(H+'/props/%s.py'%i) and i not in na]
NOTE="Every obligation of the contracts (postconditions, frames, bounds, race freedom, callee preconditions) is discharged for all sizes and values from the IR of /repo's current headers; trusted: clang's front end and IR passes, the verifier in dv/, Z3, assumed contracts of BLAS/LAPACK/libstdc++ externals; floating point as reals, no allocation failure, extents below 2^31. Contracts out of reach of the verifier on a changed tree are decided by a bounded stand-in and reported as bounded."
extra=json.load(open(H+'/levelnotes.json')) if os.path.exists(H+'/levelnotes.json') else {}
TECH='contract-based deductive verification: contracts on IR compiled from the real headers, loop summaries checked inductively, obligations discharged by Z3 and a polynomial-identity prover; failing inputs replayed on the compiled code'
TECHB='bounded run-time check of the contracts on the compiled real code (stand-in: the function is outside the verifier\'s reach)'
NOTEB='BOUNDED stand-in, not a proof: the contracts are evaluated on the compiled code (AddressSanitizer) over the input families named in the evidence file. '
def entry(i):
    src=open(H+'/props/%s.py'%i).read(); b="LEVEL='exploration'" in src
    return {'property':i,'quick_cmd':'./check.py %s'%i,'thorough_cmd':'./check.py %s --thorough'%i,'technique':TECHB if b else TECH,'level':'exploration' if b else 'proof','level_note':(NOTEB if b else NOTE)+(' '+extra[i] if i in extra else '')}
m={'version':1,'setup_cmd':'/opt/veriftools/pyvenv/bin/python -m compileall -q dv props','checks':[entry(i) for i in claimed],
 'not_applicable':[{'property':i,'reason':na.get(i,'check not built yet')} for i in ids if i not in claimed]}
json.dump(m,open(H+'/MANIFEST.json','w'),indent=1)
