#!/usr/bin/env python3
# regenerates MANIFEST.json (a convenience; nothing runs it)
import json
T={
'C01':('guarded buffers, overflow-checked build, crash/step monitor over coverage-guided hostile inputs','no panic, signal, stack or arithmetic overflow, out-of-bounds read or runaway loop in any observed call'),
'C02':('consumption monitor against reference framing','remainders compared by address with the extent computed by an independent framing routine; metamorphic: other followers, concatenations'),
'C03':('slice-provenance monitor and allocation counter','every slice located in the buffer at the reference offset; allocation bounded by element count'),
'C04':('prefix-enumeration monitor','all prefixes of each generated encoding; complete elements with arbitrary contents'),
'C05':('depth monitor on exactly-known nesting, small stacks','limits around the nesting, hostile nesting up to a million levels on a 2 MiB stack'),
'C06':('differential monitor against an independent reference decoder','acceptance, header, value and offsets equal to the reference'),
'C07':('planted-violation monitor and reference decoder','every valid tree accepted, every planted violation at any depth refused with its constraint'),
'C08':('paired-execution monitor (DER vs BER)','implication and equality checked on every accepted input'),
'C09':('value monitor against independent two\'s complement evaluation','boundary enumeration plus random contents'),
'C10':('bit-level monitor against the encoded octets','short bit strings enumerated, longer sampled'),
'C11':('character-table and time-grammar monitor','every octet in every string type, every field value of times'),
'C12':('round-trip monitor and reference encoder','octet-for-octet comparison and re-parse of every serialized object'),
'C13':('reference encoder monitor with fault-injecting writers','each write call failed in several ways, every room size'),
'C14':('call-trace monitor with scripted item parsers','recorded calls and results compared with a simulation'),
'C15':('call-trace monitor against a tagging model','acceptance, recorded calls and results compared with the model'),
'C16':('optional-semantics monitor with scripted parsers','chains of optional parsers over one buffer'),
'C17':('visit-trace monitor','recorded callback sequence compared with a walk of an independent snapshot'),
'C18':('reference renderer comparison','text compared with an independent renderer for all options'),
'C19':('generated programs: compile-time results observed at run time','thousands of generated identifiers compared with a reference encoder; invalid ones must not compile'),
'C20':('allocation and executed-block counters against linear bounds','instrumented counts, not wall time'),
'C21':('differential monitor across feature and optimization configurations','same inputs through every configuration, digests compared'),
'C22':('error-identity monitor with caller-defined types','values returned by the inner parser tracked through every combinator'),
'C23':('snapshot-consistency monitor over all views','iterators, index, accessors and conversions compared with a snapshot'),
'C24':('repetition/address/thread digest monitor','single-threaded reference digests compared under repetition, relocation and concurrent use'),
'C25':('agreement monitor over all entry points','results of all routes compared pairwise; foreign types refused'),
}
ids=[json.loads(l)['id'] for l in open('/verif/properties.jsonl')]
import sys
have=[l.strip() for l in open('/verif/.have')] if len(sys.argv)>1 else ids
m={'version':1,'setup_cmd':'./setup.sh','checks':[],'not_applicable':[]}
for i in ids:
    t,n=T[i]
    if i not in have:
        m['not_applicable'].append({'property':i,'reason':'check under construction'}); continue
    m['checks'].append({'property':i,'quick_cmd':f'./run.sh {i} quick','thorough_cmd':f'./run.sh {i} thorough',
     'technique':'runtime monitoring: '+t,'level':'exploration',
     'level_note':f'Held on the executions observed (counts in evidence/{i}.json): {n}. Trusts the reference model in harness/src and the Rust toolchain; says nothing about executions the workload does not produce.'})
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1); open('/verif/MANIFEST.json','a').write('\n')
