#!/bin/bash
# development helper: run checks and print anything unusual from the evidence
for p in "$@"; do timeout 900 python3 /verif/run.py $p ${TIER:-quick}; python3 - $p <<'P'
import json,sys
e=json.load(open('/verif/evidence/%s.json'%sys.argv[1]))
for c in e['coverage']['configurations']:
  if c['wall_s']>8 or not c['exhaustive'] or c['error'] or not c['reach']: print('   ',c['cfg']['case'],c['paths'],c['wall_s'],c['exhaustive'],c['unsupported'],c['concretised'],(c['error'] or '')[-600:], 'reach',c['reach'])
k=e['coverage']
if k['validation_mismatches'] or k['validation_failures'] or k['unconfirmed_counterexamples']:
  print("    MISMATCH",k["validation_mismatches"],k["validation_failures"],k["unconfirmed_counterexamples"],json.dumps(k.get("unconfirmed_examples"))[:700],json.dumps(k.get("validation_examples"))[:700])
for i in k['inconclusive']: print('    INC',i)
P
done
