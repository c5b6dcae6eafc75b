# loads.py DIR-OF-waveforms LOG (FILE EXPR)...: what waveforms.load makes of them
import sys
sys.path.insert(0, sys.argv[1])
import waveforms
out = open(sys.argv[2], 'w')
a = sys.argv[3:]
for f, e in zip(a[::2], a[1::2]):
    w = waveforms.load(f, expr=e)
    out.write('\t'.join([w.x_name, w.x_unit, w.y_name, w.y_unit]) + '\n')
    out.write(' '.join(float(v).hex() for v in w.x) + '\n')
    out.write(' '.join(float(v).hex() for v in w.y) + '\n')
out.close()
