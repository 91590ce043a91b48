"""C14 identity comparison of two numbers"""
from common import *
INC = '#include "thls/tops/fp_flopoco.hpp"\nusing namespace thls;\n'

def build(tier):
    fm = WIDE + [(4, 1), (2, 2), (2, 3), (3, 2), (15, 100)]
    groups = []
    for k, ch in enumerate(chunks(fm, 9)):
        g = Group('same%d' % k, ''); code = INC
        for E, F in ch:
            code += 'VP same_%d_%d(const u128*in,u128*out){ auto x=FP<%d,%d>(in), y=FP<%d,%d>(in+1), z=FP<%d,%d>(in+2); out[0]=OUT(x.equals(y)); out[1]=OUT(y.equals(x)); out[2]=OUT(y.equals(z)); out[3]=OUT(x.equals(z)); out[4]=OUT(x.equals(x)); out[5]=OUT(x.get_equality_class()); out[6]=OUT(y.get_equality_class()); }\n' % ((E, F) * 4)
            def spec(i, o, E=E, F=F):
                x, y = dec(i, 'x', E, F), dec(i, 'y', E, F); b = lambda k: bit(o[k], 0)
                return [('two patterns are the same number exactly when class, sign and (for normals) fields agree', tm.bxor(b(0), O.same(x, y))),
                        ('symmetric', tm.bxor(b(0), b(1))), ('reflexive', NOT(b(4))), ('transitive', AND(b(0), b(2), NOT(b(3)))),
                        ('same numbers are in the same class', AND(b(0), NOT(eq(o[5], o[6]))))]
            g.job('same_%d_%d' % (E, F), fp_ins((E, F), (E, F), (E, F)), 7, spec, witness=lambda i, E=E, F=F: [('equal infinities with different payload', AND(O.same(dec(i, 'x', E, F), dec(i, 'y', E, F)), dec(i, 'x', E, F).inf, NOT(eq(i['x'], i['y']))))], config='identity (%d,%d)' % (E, F))
        g.code = code; groups.append(g)
    return groups
if __name__ == '__main__':
    main('C14', build, bounds=lambda t: 'each listed format, all triples of bit patterns', assumptions=['clang lowers the instantiation to LLVM IR faithfully'])
