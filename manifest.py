#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the table below."""
import json
T = {
 'C01': 'differential oracle (independent RFC 4506 encoder) over executions of the real encoder',
 'C02': 'round-trip oracle over executions of the real codec',
 'C03': 'differential acceptance oracle (independent RFC 4506 decoder) over mutated encodings',
 'C04': 'oracle on every prefix and extension of recorded encodings',
 'C05': 'crash, panic, overflow and CPU-time monitor over hostile decodes in watched worker processes',
 'C06': 'counting-allocator and element-attempt monitor over hostile decodes',
 'C07': 'refusal oracle with failing user code injected at random depths',
 'C08': 'differential oracle on the opaque helpers in every context',
 'C09': 'differential oracle on signed32 with four conversions',
 'C10': 'history replay on eight threads with injected failures and panics, compared with fresh-thread results',
 'C11': 'AddressSanitizer with leak detection, Miri, value-validity monitor (thorough: MemorySanitizer, ThreadSanitizer)',
 'D01': 'model-based oracle over executions of compiled random indexer enums, independent RFC 4506 encoder',
 'D02': 'model-based oracle over executions of compiled random union enums, independent RFC 4506 encoder',
 'D03': 'crash, panic and consumption monitor over hostile decodes of compiled derived enums',
 'G01': 'differential oracle: random syntax trees against the parse of their text',
 'G02': 'metamorphic oracle: relayouts of one token sequence',
 'G03': 'token accounting monitor: an independent tokenizer against the parse of corrupted files',
 'G04': 'crash, panic, overflow and CPU-time monitor over hostile texts in watched worker processes',
 'G05': 'the real compiler as monitor over random generated modules',
 'G06': 'model-based oracle over executions of compiled generated types, independent RFC 4506 encoder',
 'G07': 'refusal oracle over executions of compiled generated types on corrupted encodings',
 'G08': 'differential oracle: exact integer model against the numbers in the generated syntax tree',
 'G09': 'differential oracle: independent item model against the generated syntax tree',
 'G10': 'process monitor: exit status, streams and folder of the real command against the library',
 'G11': 'history, thread and process replay; metamorphic reordering oracle on generated items',
 'G12': 'model-based oracle over a compiled program that builds, converts, names and defaults generated types',
 'C12': 'compositional oracle: real encoding of the whole against real encodings of the parts',
}
try:
    T.update(json.load(open('/verif/techniques.json')))
except FileNotFoundError:
    pass
checks = []
for l in open('/verif/properties.jsonl'):
    p = json.loads(l)
    i = p['id']
    if i not in T:
        continue
    checks.append({
        'property': i,
        'quick_cmd': f'bash check.sh {i}',
        'thorough_cmd': f'VERIF_TIER=thorough bash check.sh {i}',
        'technique': T[i],
        'level': 'exploration',
        'level_note': 'the property is decided on every execution generated (counts in the evidence file); executions not generated are not covered',
    })
na = [{'property': json.loads(l)['id'], 'reason': 'check under construction'} for l in open('/verif/properties.jsonl') if json.loads(l)['id'] not in T]
json.dump({'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': checks, 'not_applicable': na}, open('/verif/MANIFEST.json', 'w'), indent=1)
