"""Development-time tool: writes spec/nrel_tables.qnt from pvlib's transcription
of the tables of NREL/TP-560-34302 (independent of sunwhere's), as scaled ints."""
from decimal import Decimal
import numpy as np
import pvlib.spa as P
S = 10**18
def i(x):
    return int(Decimal(repr(float(x)))*S)
out = ['/// Periodic terms of NREL/TP-560-34302 (generated by tools/gen_nrel_tables.py',
       '/// from pvlib.spa, an independent transcription of the report). Scale 10^18,',
       '/// but for the amplitudes A (units of 1e-8 rad or AU) and nutation terms.',
       'module nrel_tables {']
def emit(name, tables):
    for k, t in enumerate(tables):
        rows = [f'({int(round(a))}, {i(b)}, {i(c)})' for a, b, c in t]
        out.append(f'  pure val {name}{k}: List[(int, int, int)] = [')
        out.append(',\n'.join('    '+r for r in rows)+']')
emit('L', [P.L0, P.L1, P.L2, P.L3, P.L4, P.L5])
emit('B', [P.B0, P.B1])
emit('R', [P.R0, P.R1, P.R2, P.R3, P.R4])
rows = []
for (a, b, c, d), y in zip(P.NUTATION_ABCD_ARRAY, P.NUTATION_YTERM_ARRAY):
    rows.append('(' + ', '.join(str(int(round(10*v))) for v in (a, b, c, d)) + ', ' + ', '.join(str(int(v)) for v in y) + ')')
for k in range(2):
    out.append('  /// 10 x (a, b, c, d), then the multiples of X0..X4')
    out.append(f'  pure val NUT{k}: List[(int, int, int, int, int, int, int, int, int)] = [')
    out.append(',\n'.join('    '+r for r in rows[k*32:(k+1)*32])+']')
out.append('}')
open('/verif/spec/nrel_tables.qnt', 'w').write('\n'.join(out)+'\n')
