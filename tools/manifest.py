"""Writes MANIFEST.json: python3 tools/manifest.py."""

import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
AI = 'static analysis: abstract interpretation of the source (trace-partitioned, affine/byte-cell domain, no solver)'
IR = ('static analysis: abstract interpretation of the LLVM IR of generated C++ (byte-cell domain with object bounds, lifetime, '
      'initialisation and alignment; no solver, nothing executed)')
CMD = '/opt/venv/bin/python -B -m sa.run %s'

CLAIMED = {
    'C01': (AI, 'Every byte of the abstract encoding is compared with the documented layout for all member kinds singly and '
                'pairwise (triples of core kinds when thorough), all scalar values at once, array lengths 0..5 and 300. '
                'Trusts the abstract semantics of Python in sa/ and the reading of docs/encoding.rst in sa/spec.py.'),
    'C02': (AI, 'Decode of the abstract encoding gives back every field as the same term, consumes exactly the input and '
                're-encodes identically, for the schema family of C01. Greedy tails restricted to aligned ends.'),
    'C06': (AI, 'decode of wholly unknown bytes (every length in a window around the minimal encodings) and of every '
                'truncation and single-field corruption of canonical encodings raises only ProphyError, builds no more '
                'elements than the input pays for, and is a fixpoint under re-encoding; for all member kinds singly.'),
    'C10': (AI, 'Every API operation with unknown in-range, out-of-range and wrongly typed arguments in every small state '
                'agrees with a plain reference model; sampled sequences of 2..5 operations on top.'),
    'C11': (AI, 'copy_from/extend between all pairs of small shapes: equal terms, equal encodings, no object reachable '
                'from both messages, later mutations of one not visible in the other.'),
    'C04': (AI, 'Size, alignment and stiffness of every model node, of the generated Python class and of encoded_byte_size '
                'equal the documented layout for all member kinds singly and pairwise, from prophy text and from isar XML in '
                'several definition orders.'),
    'C12': (AI + '; compile-only header witnesses', 'Schemas keeping the composability rules are accepted and their '
                'Python and C++ outputs import and compile; schemas breaking one rule in every position the grammar allows '
                'are rejected by a diagnostic; whatever is accepted among corrupted texts is usable.'),
    'C13': (AI, 'prophyc over corrupted schema texts, isar XML, patches, options and deeply nested schemas: ends within a '
                'step bound, with all requested outputs or with a designed diagnostic carrying file:line:column for text.'),
    'C14': (AI + '; compile-only static_assert witnesses', 'Both evaluators reduce every arrangement of up to three '
                'operators over unknown operands to the integer term; random concrete schemas (prophy, isar, includes) carry '
                'each value into the Python module and both C++ headers.'),
    'C15': (AI + '; compile-only header witnesses', 'Definition graphs (all small ones, random larger ones) in every or '
                'sampled order through the isar front end: output is a permutation ordered after its dependencies, '
                'Python module imports, headers compile, layout and values do not depend on the order; cycles are reported.'),
    'C16': (AI + '; compile-only header witnesses', 'Random schemas partitioned into files in several directory and working '
                'directory arrangements equal the concatenated file in constants, layouts, abstract encodings and headers; '
                'search order, single processing, missing and cyclic includes enumerated.'),
    'C03': (IR, 'decode() of documented bytes with unknown scalars, and of the bytes of the abstractly interpreted Python codec, '
                'into fresh and used objects succeeds and encodes back identically, three byte orders; all member kinds singly, '
                'sampled pairs and random structs (all pairs when thorough). Trusts clang -O0 lowering and sa/irai.py.'),
    'C05': (IR, 'get_byte_size(), bytes written by encode(), length of the encoded vector and encoded_byte_size agree and encode() '
                'stays inside a buffer of exactly that size, for values of all shapes including overfilled limited arrays.'),
    'C07': (IR, 'decode() of unknown bytes of many lengths, of canonical encodings cut at every byte and with unknown counters, '
                'flags and discriminators: every access in bounds of a live, initialised, aligned object, no exception, bounded '
                'allocation, and accepted inputs re-encode to their own length.'),
    'C08': ('static analysis: compile-only static_assert witnesses on generated headers',
            'offsetof of every member, flag, counter, arm and part, sizeof of fixed types, field types, extents and '
            'discriminator values in the raw headers equal the documented layout; decided by the g++ front end.'),
    'C09': (IR, 'prophy::swap over foreign-endian encodings with unknown scalars between guard bytes leaves the native encoding, '
                'the guards and the returned address as documented, for all member kinds, nestings, lengths, optional and union '
                'states of the family.'),
    'C19': (AI + '; ' + IR, 'Encodings of one abstract value in both byte orders by the Python codec and by the C++ vector encoders '
                'differ exactly by reversal of multi-byte scalars, padding bytes are zero, native equals host order.'),
    'C18': (AI + '; ' + IR, 'str() of the Python codec and print() of the C++ codec, with models of the streams, render the same '
                'value to the same, documented text: unknown integers, all enumerators, every byte value and many byte strings, '
                'all member kinds and nestings; floating-point numbers only by the format that renders them (known finding).'),
    'C17': (AI, 'Schemas written as prophy text and as isar XML, directly and after inverse patches, give the same model, the '
                'same Python and C++ texts and layouts; every patch action in every state of a member either applies as '
                'documented or is reported.'),
    'C20': (AI, 'prophyc with set iteration order, directory listing order, environment, clock, process identity, output '
                'directory, working directory, other inputs and input order left unknown or varied writes the same bytes; no '
                'output byte depends on an unknown outside value.'),
}
PENDING = {}


def main():
    ids = [json.loads(l)['id'] for l in open(os.path.join(HERE, 'properties.jsonl'))]
    m = {'version': 1, 'setup_cmd': 'true', 'checks': [], 'not_applicable': [],
         'notes': 'Every check reads the source in /repo (VERIF_REPO overrides), never executes it, and writes '
                  'evidence/<id>.json.'}
    for i in ids:
        if i in CLAIMED:
            tech, note = CLAIMED[i]
            m['checks'].append({'property': i, 'quick_cmd': CMD % i, 'thorough_cmd': CMD % i,
                                'evidence_file': 'evidence/%s.json' % i, 'technique': tech, 'level': 'other',
                                'level_note': note})
        else:
            m['not_applicable'].append({'property': i, 'reason': PENDING.get(i, 'No check built yet.')})
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


main()
