import json
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
tech={
'C01':'property-based testing: enumerated and random instruction/operand/value combinations against an independent opcode matrix',
'C02':'property-based testing: exhaustive mnemonic x operand-form enumeration and random programs against the documented legality rules',
'C03':'property-based testing: exhaustive 16-bit literals in every radix and random spellings against exact arithmetic',
'C04':'property-based testing with metamorphic relations (symbol vs literal vs forward reference)',
'C05':'property-based testing: exhaustive branch distances and random branch layouts against computed offsets',
'C06':'property-based testing: generated forward-reference histories against a layout model and a definitions-first variant',
'C07':'property-based testing: exhaustive placements and random segment layouts against a memory model',
'C08':'property-based testing: generated label/location histories against a layout model',
'C09':'model-based property testing of the symbol table through the assembler against a dictionary model',
'C10':'metamorphic property-based testing: re-casing the source must not change the result',
'C11':'metamorphic property-based testing: comments, blanks, line ends and line lengths must not change the result',
'C12':'metamorphic property-based testing: equivalent directive and literal forms',
'C13':'property-based testing: exhaustive short token sequences and mutated sentences against the explicit list of sentence forms',
'C14':'property-based testing: planted faults of every kind against the marked template and the reference assembler',
'C15':'coverage-guided fuzzing (libFuzzer) and random/structured fuzzing under ASan, UBSan and MSan',
'C16':'property-based testing: generated programs against byte and symbol counts computed by the generator',
'C17':'property-based testing with enumerated injection of read, write, close and open faults',
'C18':'property-based testing with enumerated injection of allocation failures, under AddressSanitizer',
'C19':'differential and metamorphic property-based testing over environments, earlier outputs, builds and delivery of the source',
'C20':'property-based testing: generated argument vectors with directory snapshots as oracle',
'C21':'round-trip property-based testing: random instruction streams, independent disassembler, reassembly',
'C22':'property-based testing: exhaustive low range, structured composites and random numbers against a sieve',
'C23':'metamorphic property-based testing: lines alone, joined programs, interleaved segments',
'C24':'differential property-based testing and coverage-guided fuzzing (libFuzzer) against an independent reference assembler',
'C25':'metamorphic property-based testing: text after .END removed',
'C27':'metamorphic property-based testing: consistent renaming of symbols, with adversarial name sets',
'C28':'metamorphic property-based testing: definitions moved, turned into constants, added',
'C29':'property-based testing: several planted faults per program, against their order and the reference assembler',
'C30':'property-based testing over generated schedules: simultaneous runs fed piece by piece, each against the same run alone',
'C31':'metamorphic property-based testing: repeated lines under a memory limit',
'C32':'property-based testing: generated large inputs against a linear bound on computing time',
'C33':'property-based testing with signals injected at generated points, directory snapshots and a run to the end as oracle',
'C26':'property-based testing: enumerated and random operand values against full-precision decoding of the image',
}
checks=[]
for p in props:
    i=p['id']
    lvl='fault_enumeration' if i in('C17','C18') else 'exploration'
    note={'C17':'Every fault position of some programs and random ones of others; faults are injected below stdio by an interposed fopen, and by real limits and devices. ',
          'C18':'Every single allocation point of programs around each growth of the tables, and of random programs; faults injected by interposed malloc family. '}.get(i,'Generated-input search: no violation among the generated cases; the enumerated parts are complete within the bounds stated in the evidence file. ')
    checks.append(dict(property=i,quick_cmd=f'harness/check {i} quick',thorough_cmd=f'harness/check {i} thorough',evidence_file=f'evidence/{i}.json',
      technique=tech[i],level=lvl,level_note=note+'Trusts the 6502 opcode matrix in harness/isa.h, the reference model, gcc/clang and glibc.'))
m=dict(version=1,setup_cmd='harness/build.sh driver plain asan msan fault api ubsan fuzz-text',checks=checks,not_applicable=[],
 notes='No hooks in /repo: the checks build the unmodified sources with the repository\'s own Makefile and interpose at link time. harness/replay FILE repeats a recorded failure.')
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
import jsonschema
jsonschema.validate(m,json.load(open('/root/.vp/MANIFEST.schema.json')))
s=json.load(open('/root/.vp/EVIDENCE.schema.json'))
import glob
for f in glob.glob('/verif/evidence/*.json'): jsonschema.validate(json.load(open(f)),s)
ps=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for p in props:
    try: jsonschema.validate(p,ps)
    except Exception as e: print(p['id'],str(e)[:200])
