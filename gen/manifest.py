"""Writes MANIFEST.json."""
import json
import os

REAL = 'Runs the real crate built from /repo; bounds as stated in DESIGN.md. Trusts rustc, cargo and the reference model in the harness.'
C = [
    ('C01', 'exploration', 'explicit enumeration of (pointer, discriminant) states of the real TaggedPointer at all 16 widths, compared with an arithmetic model', REAL),
    ('C02', 'exploration', 'explicit enumeration of all out-of-range discriminants and reserved-bit combinations through every constructor of the real code', REAL),
    ('C03', 'exploration', 'explicit enumeration of ordered pairs of real tagged pointers against the order of (discriminant, address)', REAL),
    ('C04', 'exploration', 'explicit enumeration of format specifications x addresses x discriminants on the real code, against the text of the plain address', REAL),
    ('C05', 'exploration', 'explicit enumeration of all width settings, each built and its split probed bit by bit', REAL),
    ('C06', 'model_checking', 'explicit-state exploration of build histories of the real build script: ordered pairs of width settings over one build directory, against the model "last setting wins"', REAL),
    ('C07', 'model_checking', 'stateful model checking of the real code: BFS over all reachable model states and DFS over all operation histories, model compared after every step', REAL),
    ('C08', 'model_checking', 'stateful model checking of the real code with a destructor ledger: BFS over states, DFS over histories', REAL),
    ('C09', 'model_checking', 'stateful model checking of the real code under a checking allocator and, for a smaller bound, under Miri', REAL + ' Memory errors that neither the allocator (red zones, poison, layouts) nor Miri (smaller bound) sees are missed.'),
    ('C10', 'model_checking', 'stateful model checking of the real code with the balance of allocations and destructors at every state', REAL + ' Known findings: the crate never frees what into_inner and dropped boxes leave behind.'),
    ('C11', 'model_checking', 'stateful model checking of clone, mutate and consume histories of the real code against a reference model', REAL),
    ('C12', 'exploration', 'explicit enumeration of all comparison tables over three values and all ordered pairs of enum values on the real operators', REAL),
    ('C13', 'exploration', 'explicit enumeration of format specifications x values x failing output positions on the real code', REAL),
    ('C14', 'exploration', 'bounded-exhaustive enumeration of enum programs in the grammar, compiled with the real macro and taken through every route', REAL),
    ('C15', 'exploration', 'bounded-exhaustive enumeration of enum sizes up to and past capacity, compiled with the real macro', REAL),
    ('C16', 'exploration', 'explicit enumeration of all unknown discriminants through every reading route, and of all pairs of a safe way to make and to read a box', REAL + ' Known findings: safe new and dangling accept any payload.'),
    ('C17', 'fault_enumeration', 'exhaustive fault injection: a panic at every call into user code of every operation from every reachable model state', REAL),
    ('C18', 'fault_enumeration', 'exhaustive fault injection: refusal of every allocation request of every operation from every reachable model state', REAL),
    ('C19', 'model_checking', 'stateful model checking of borrow and in-place mutation histories of the real code', REAL + ' Known findings: borrows show a bitwise copy, so changes through a Cell are lost.'),
    ('C20', 'model_checking', 'stateless model checking of thread interleavings of the real code under a controlled scheduler (user calls, allocator calls, single machine instructions), and the same schedules under Miri\'s race detector', REAL + ' Sequentially consistent executions; data races judged by Miri.'),
    ('C21', 'exploration', 'bounded-exhaustive enumeration of payload positions and thread-safety classes, decided on the real types by the compiler\'s trait resolution', REAL),
    ('C22', 'exploration', 'explicit-state exploration of raw histories and generated enums with the word compared with address and discriminant', REAL),
    ('C23', 'exploration', 'bounded-exhaustive exploration of the real code interpreted for 32-bit and big-endian targets, and of programs without std', REAL + ' Other targets are interpreted (Miri) or only compiled.'),
    ('C24', 'exploration', 'bounded-exhaustive enumeration of constants and statics that hold real tagged pointers and boxes, compared with the same calls at run time; and of programs with a discriminant past the limit in a constant', REAL),
    ('C25', 'model_checking', 'exhaustive exploration of the assignments of discriminants to the variants of hand-written implementations, every operation and pair of values executed on the real code and compared with the plain values', REAL),
]
m = dict(version=1, setup_cmd='true', checks=[dict(property=p, quick_cmd='python3 run.py %s quick' % p, thorough_cmd='python3 run.py %s thorough' % p,
                                                   technique=t, level=l, level_note=n) for p, l, t, n in C], not_applicable=[])
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
