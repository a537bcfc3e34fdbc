#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = {}
BASE = ('Every recorded call on the real code is judged by TLC against the specification, whose properties TLC model '
        'checks in the same run. ')
def group(ids, note):
    for i in ids.split():
        NOTE[i] = BASE + note
group('C01 C04 C05 C06 C07', 'Quick: all runes from -0x20000 to 0x12FFFF and the images of the support under each '
      'higher bit and sign, so every code point; thorough: all 2^32 runes. Call orders are sampled.')
group('C02 C10', 'Exhaustive over the 11172 syllables and legal triples, or all 119 constants.')
group('C03', 'Exhaustive over triples of lead, vowel and tail jamo in both forms; triples with one other argument over '
      'all code points, in sampled contexts; triples with several illegal arguments are sampled.')
group('C08 C09', 'All runes as last character, in sampled surroundings; arbitrary byte strings are sampled.')
group('C11', 'Texts are sampled, with every kind of character and broken UTF-8, and lengths of input and output exactly '
      'at and around powers of two, to about 200 KB (quick) or 1 MB (thorough).')
group('C12', 'Exhaustive over all code points, and all values beyond them in the thorough tier. The dictionary is data '
      'of the specification, taken from the pinned tree and cross-checked with the order of KS X 1001.')
group('C13 C14', 'Exhaustive over all two-byte codes, or over all code points. Tables are data of the specification, '
      'identical to the codecs of Python and glibc.')
group('C15', 'Each code and character is converted there and back; surroundings are sampled.')
group('C16', 'Texts are sampled, with lengths of input and output at and around powers of two up to 200 KB or 1 MB.')
group('C17 C18 C26', 'The algorithm is model checked against the contract for all streams, cuts and buffer sizes in small '
      'bounds; behaviours generated from the model and random histories are replayed on the code and validated.')
group('C19 C20', 'The algorithm is model checked against the contract for all texts, cuts and failures in small bounds; '
      'behaviours generated from the model and random histories are replayed on the code and validated.')
group('C21 C22', 'All calls in small bounds are enumerated by TLC and replayed on the code; larger ones are sampled.')
group('C23', 'Pipelines are model checked in small bounds; on the code, texts, cuts and buffer sizes are sampled, with '
      'texts longer than the buffers of x/text.')
group('C24', 'Ways to manage memory are model checked; histories of calls with overwritten slices, generated and random, '
      'are replayed on the code and validated; the enumerations of C01-C14 are made again after everything else; '
      'first calls are made in many fresh programs.')
group('C25', 'Interleavings are model checked; on the code they are sampled, with and without the race detector, in '
      'long runs and in many fresh programs whose first calls are concurrent.')
group('C27', 'That any Reader and Writer that keep their contracts keep this one together is model checked in small bounds; '
      'on the code, concurrent runs through several channels and copies in several ways are recorded and validated.')
checks = []
for l in open(os.path.join(V, 'properties.jsonl')):
    i = json.loads(l)['id']
    checks.append({
        'property': i,
        'quick_cmd': 'python3 check.py ' + i,
        'thorough_cmd': 'VERIF_TIER=thorough python3 check.py ' + i,
        'evidence_file': 'evidence/%s.json' % i,
        'technique': 'TLA+ specification: TLC model checking, and TLC validation of traces of the code against it',
        'level': 'model_checking',
        'level_note': NOTE[i] + ' Trusted: TLC, Go, x/text/transform, the data in spec/data.'})
json.dump({'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': [],
           'notes': 'No hooks: the code is driven through its public API. See DESIGN.md.'},
          open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
