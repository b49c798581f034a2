#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json (a generator only for readability)."""
import json, os
TRUST = ('Trusted: clang 18 front end, the IR normaliser and abstract interpreter in engine/, models of memcpy/memcmp/strlen/operator new/std::string, '
         'and the format tables in checks/. Undecided constructs are counted in the evidence, never reported as violations.')
AI = 'abstract interpretation of LLVM IR (linear inequalities, trace partitioning, loop fixpoints)'
CHECKS = {
 'C01': (AI, 'Sound for the analysed entry points: every load, copy, comparison and handed-out view of the Zera reader carries a bounds obligation discharged by linear entailment for all inputs shorter than 2^62 bytes. '),
 'C02': (AI, 'As C01 for the MsgPack reader; the recursive skipper is covered by inferred contracts (result within remaining bytes). '),
 'C03': (AI, 'As C01 for the CBOR reader, chunked strings and key iteration included; jsoncons (used by the CBOR writer only) is replaced by declared stand-in headers, since it is not installed. '),
 'C04': (AI + ' compared with a decode table', 'Every exit partition of every accessor is compared with the MessagePack table for all inputs; element lookup exact for the first elements, count/contract facts for the rest. '),
 'C05': (AI + ' compared with exact integer semantics', 'Every exit partition of every integer accessor of the Zera, MsgPack, Flex and CBOR readers, all inputs. '),
 'C06': (AI + ': writer and reader composed', 'Every value that the Zera writer accepts for the listed document shapes (nesting and element counts bounded, all scalars, lengths and contents arbitrary) is read back by the real reader code and compared. '),
 'C07': (AI + ' compared with a ZERA.md decoder', 'The finished buffer of every listed document shape (all scalars, lengths, contents and key lengths arbitrary) is decoded as ZERA.md says and compared with the calls. '),
 'C08': ('typestate analysis of the writer protocol on ' + AI, 'Every sequence of calls up to the listed lengths from every reachable writer state, arguments arbitrary, in lockstep with a protocol automaton. '),
 'C09': (AI + ' compared with the header acceptance predicate', 'Both directions: every normal exit implies the predicate, every throwing exit contradicts it. '),
 'C10': ('writer-call trace analysis: ' + AI, 'translate() against an arbitrary source value: every kind, arbitrary scalars, strings, blobs, containers of any size by loop fixpoint, nesting exactly to the depths listed in the evidence. The source and target are mocks that record calls; protocol adapters are covered by the other checks. '),
 'C11': ('writer-call trace analysis: ' + AI, 'Every built-in serialize overload and the zvec/zmap builders; arbitrary values, containers of any length. User-defined serialize overloads are out of scope. '),
 'C12': ('writer-call trace analysis: ' + AI, 'dyn::Value and the writer view: arbitrary scalar, string and blob contents; arrays and maps exactly for the listed sizes. '),
 'C13': ('ownership/typestate analysis on ' + AI, 'Histories of construction, move, assignment and destruction listed in the driver, for arbitrary pointers and sizes, unwinding included. '),
 'C14': ('length-by-length ' + AI + ' (loops peeled, lookup tables tracked by content)', 'Encode: every length up to 68 bytes; decode: every length up to 44 (quick) or 68 (thorough) characters, arbitrary contents; longer texts are not analysed. '),
 'C15': (AI + ' of the tensor readers over arbitrary stored values', 'Eigen matrices and xtensor tensors of every element type, static and dynamic shapes up to rank 3 (4 in the thorough tier); the stored value is an arbitrary reader value, consistent between calls; Eigen and xtensor code is analysed along. '),
 'C25': (AI + ' of the tensor writers, calls compared with the argument', 'Every element type and layout listed in the driver (row- and column-major, views, fixed and dynamic shapes up to rank 3); the bytes handed to the writer are compared element by element for symbolic index only where the storage is contiguous, exactly for the small view shapes listed. '),
 'C16': ('effect analysis (exception types) on abstract-interpretation exits', 'Every exit partition of every accessor (Zera, MsgPack, CBOR). '),
 'C17': (AI + ': writer and reader composed', 'Maps of up to two (MsgPack: three) entries written by the real writer, CBOR maps of up to two (thorough: three) entries laid out as RFC 8949 says, arbitrary keys up to 65535 bytes and an arbitrary wanted key, values up to 2^40 bytes; on arbitrary bytes, agreement of membership and lookup for maps of up to three (MsgPack: one) entries. '),
 'C18': ('effect analysis (allocation, writes, view provenance) on abstract-interpretation exits', 'Every non-throwing exit partition of every accessor. '),
 'C19': (AI + ' with object lifetimes', 'Zera, MsgPack and Flex readers (owning and viewing) through 18 histories of copying, moving, assigning and destroying up to three readers; writers through copying and moving. '),
 'C20': (AI + ' compared with a MessagePack decoder', 'Every sequence of up to two writer calls (three in the thorough tier) and some longer ones, arguments, lengths, counts and contents arbitrary; msgpack-c packing code is analysed, its buffer append is taken as specified. '),
 'C21': (AI + ' compared with the RFC 8949 table', 'Every exit partition of every root accessor is compared with the RFC table for all inputs; elements after every kind of preceding item; half-precision numbers evaluated for sampled (thorough: all) fractions in each exponent class; containers of up to three items when stepped over. '),
 'C22': (AI + ' of writer, FlexBuffers library and reader', 'Document shapes of bounded size with arbitrary payloads; keys of at most three bytes without NUL; the FlexBuffers headers are analysed along with the adapter; arbitrary references of every type. '),
 'C23': (AI + ' of the adapter against the documented yyjson interface', 'Every accessor on an arbitrary value of each JSON kind; key listing for listed member counts; blob recognition for every way of missing the tag; writer call sequences of bounded length with arbitrary arguments (blobs of fixed lengths and contents). yyjson is not installed: its documented behaviour is assumed. '),
 'C24': ('compile-fail and compile-pass witnesses decided by the type checker', 'Each requirement of the reader, writer and protocol contracts broken one at a time (missing, or of a neighbouring type) in a program that otherwise compiles; MsgPack, Zera and Flex asserted exactly; JSON and CBOR are not asserted: their libraries are not installed. '),
 'C29': (AI + ' compared with the ZERA.md decode table', 'Every exit partition of every accessor on the root and on an array element. '),
}
PENDING = 'no static check built yet in this revision'
NA = {
 'C26': 'quantifies over trees of unbounded shape and over several third-party encoders; no static argument in reach composes the per-call facts (C06, C10, C20, C29) into one inductive statement for every protocol',
 'C27': 'the code recurses once per nesting level, so the property is false for unbounded depth; how deep is safe depends on the run-time stack size, which no source analysis bounds',
 'C28': 'the byte-level decoder is the third-party FlexBuffers library, not this repository',
}
here = os.path.dirname(os.path.abspath(__file__))
ids = [json.loads(l)['id'] for l in open(os.path.join(here, '..', 'properties.jsonl'))]
m = {'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': [], 'not_applicable': []}
for i in ids:
    if i in CHECKS:
        t, n = CHECKS[i]
        m['checks'].append({'property': i, 'quick_cmd': 'python3 check.py ' + i, 'thorough_cmd': 'VERIF_TIER=thorough python3 check.py ' + i,
                            'evidence_file': 'evidence/%s.json' % i, 'technique': t, 'level': 'other', 'level_note': n + TRUST})
    else:
        m['not_applicable'].append({'property': i, 'reason': NA.get(i, PENDING)})
json.dump(m, open(os.path.join(here, '..', 'MANIFEST.json'), 'w'), indent=1)
