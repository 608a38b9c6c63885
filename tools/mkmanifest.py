#!/usr/bin/env python3
"""writes MANIFEST.json; the table below is the only source"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TG = 'contracts of every generated stub and skeleton discharged by symbolic execution of their LLVM IR with z3'
TV = 'translation_validation'
VP = '; Verus proofs of the compiler functions they rest on, extracted from the current tree: '
CH = {
 'C01': (TG + VP + 'slots of the C, C++ and Rust backends, the objects of a struct', TV, 'all argument values, per generated function of a corpus of IDL programs; the round trip is the composition of the two wire contracts'),
 'C02': (TG + VP + 'argument order, counts and their limits, slots and envelopes of the C, C++ and Rust backends', TV, 'all argument values, per generated function of a corpus of IDL programs'),
 'C03': (TG + VP + 'bundles, counts and sizes, kinds of slots', TV, 'all argument values, per generated function of a corpus of IDL programs'),
 'C04': (TG + VP + 'size checks and counts guards the skeletons emit', TV, 'all envelopes (counts, sizes, op-codes symbolic), per generated skeleton of a corpus of IDL programs'),
 'C05': (TG, TV, 'all argument values, per generated function of a corpus; reference-count ledger per path'),
 'C06': ('layout contracts (size, field offsets, accept/reject) of every emitted struct discharged against the compilers own layout as static assertions; generated code contracts on size boundaries' + VP + 'struct layout in AST and MIR', TV, 'bounded: enumerated and random structs against a reference layout; all four compilers decide each assertion'),
 'C07': ('op-code contract of every stub and skeleton of a hierarchy corpus: executed exhaustively per method, and proved for all arguments on their LLVM IR' + VP + 'numbering, calls and branches of the four backends', TV, 'bounded: random hierarchies, all methods of each; op-code bound probed at 0x4000/0x4001 methods'),
 'C08': ('error-numbering contract evaluated on every emitted constant in the four languages' + VP + 'numbering, error constants of the four backends', 'exploration', 'bounded: random hierarchies with errors interleaved with other declarations'),
 'C09': ('rejection contracts of the compiler: for every rule of the language a violation is planted in a random program and both entry points must refuse it' + VP + 'checkers of interfaces, functions, cycles, includes, and the driver', 'exploration', 'bounded: 28 rules x random programs and placements'),
 'C10': ('acceptance contract of the compiler evaluated on well-formed programs in every arrangement (declaration order, files, trivia), backend and flag set' + VP + 'the same checkers refuse only for a reason of the language; parse tree to AST', 'exploration', 'bounded: random programs and enumerated corners of the grammar'),
 'C11': ('compile-time contract of every generated stub and skeleton (declarations, signatures, names, warnings) discharged by the target compilers against a user that touches every method', TV, 'bounded: constructs named in the statement, awkward names in every position, random programs; all six compilers'),
 'C15': ('relational contract between an interface and its revisions: op-codes, codes and wire form of what did not change', TV, 'bounded: random programs x revisions'),
 'C12': ('include-resolution contract (first match, relative paths, cycles, visibility) evaluated on random directory trees against a reference resolver, for both entry points' + VP + 'store of symbols, include graph, search path', 'exploration', 'bounded: random directory trees with shadowed names, links and spellings; enumerated shapes'),
 'C13': ('determinism contract: byte equality of the outputs over repeated runs, relocations and path spellings' + VP + 'canonical names in the driver', 'exploration', 'bounded: random programs x random spellings, both hash-seeded repetitions and relocations'),
 'C14': ('relational contract between the outputs of an input and of its edit without interface meaning' + VP + 'documentation comments, parse tree to AST, marking', 'exploration', 'bounded: random programs x edits (whitespace, comments, documentation, marking, untyped objects) x backends'),
 'C16': ('totality contract of the compiler (decides within limits, refuses with a diagnostic, agrees with the optimised build byte for byte) evaluated on mutated, malformed and boundary inputs, verdicts against a reference recogniser of the grammar' + VP + 'no overflow, no failed unwrap, no unreachable in sixteen units', 'exploration', 'bounded: random mutants, boundary numerals and sizes; 25 s and 6 GB per run; nesting at most 200 deep'),
 'C17': ('value-and-type contract of every emitted constant evaluated by the target compilers; range decision contract at all boundaries' + VP + 'literals and the constants of the four backends', 'exploration', 'bounded: boundary and random literals in every spelling and place'),
 'C18': ('wire contract of every generated Java proxy and skeleton evaluated against a reference envelope by driving the compiled classes over a recording transport' + VP + 'proxies and skeletons of the Java backend', TV, 'bounded: corpus and random programs; random values per method; Java proxy against skeleton and both against the wire model'),
 'C19': ('file-effect contract of the compiler: exact set, completeness and banner of written files on acceptance, untouched output path on refusal' + VP + 'files of the Rust and Java backends, effects of the driver', 'exploration', 'bounded: planted violations and random programs over pre-existing output states'),
 'C20': (TG + ' (lock and reference-count contracts)', TV, 'lock-held-during-body and drop-once contracts on the IR of generated Rust skeletons; memory model of std Mutex and atomics trusted'),
}
NA = {'C%02d' % i: 'check not built yet' for i in range(1, 21) if 'C%02d' % i not in CH}
def main():
    checks = []
    for p in sorted(CH):
        t, l, n = CH[p]
        checks.append(dict(property=p, quick_cmd='python3-vt check.py %s --tier quick' % p, thorough_cmd='python3-vt check.py %s --tier thorough' % p,
                           evidence_file='evidence/%s.json' % p, technique=t, level=l, level_note=n))
    m = dict(version=1, setup_cmd='python3-vt tools/setup.py', checks=checks,
             not_applicable=[dict(property=k, reason=v) for k, v in sorted(NA.items())],
             notes='See DESIGN.md. No hooks in /repo: everything is extracted from or observed on the unmodified sources.')
    json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
    open(V + '/MANIFEST.json', 'a').write('\n')
main()
