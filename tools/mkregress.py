#!/usr/bin/env python3
"""Writes regress/*.replay: one minimal case per genuine defect that was found and repaired."""
import os
D = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'regress')
os.makedirs(D, exist_ok=True)
def put(name, prop, kind, via, what, *args):
    out = f"c8s-replay 1\nproperty {prop}\npart regressions\nkind {kind}\nvia {via}\nwhat {what}\n".encode()
    for a in args:
        a = a if isinstance(a, bytes) else a.encode()
        out += b"blob %d\n" % len(a) + a + b"\n"
    open(os.path.join(D, name + '.replay'), 'wb').write(out)
put('C12-long-list', 'C12', 'clean', 'cli-file', 'stack overflow on a long list', '.db 0' + ',0' * 60000 + '\n')
put('C12-long-fields', 'C12', 'clean', 'cli-file', 'stack overflow on a long operand list', 'ld v0' + ',v0' * 60000 + '\n')
put('C03-binary-wrap', 'C03', 'full', 'cli-stdout', 'binary literal wrapped to 0', 'ld v0, %1' + '0' * 64 + '\n')
put('C03-binary-wrap-db', 'C03', 'full', 'cli-stdout', 'binary literal wrapped to 1', '.db %1' + '0' * 63 + '1\n')
put('C15-mixed-case', 'C15', 'same-output', 'cli-stdout', 'Dt taken for a label', 'ld dt, v1\nld st, v2\nld v3, dt\n', 'ld Dt, v1\nld sT, v2\nld v3, dT\n')
put('C01-mixed-case', 'C01', 'full', 'cli-stdout', 'St taken for a label', 'ld St, v1\nld dT, v2\n')
put('C17-padding', 'C17', 'api-word', 'lib', 'jp $  5', str(0x1005))
put('C09-last-byte', 'C09', 'api-ranges', 'lib', 'ranges up to $FFF never intersect', '4090 6 4095 1')
put('C20-not-unicode', 'C20', 'argv', 'cli-file', 'panic', b'new', b'\xff')
