'''
Structural reading of compressed matrices: (data, indices, indptr) as families of entries.
'''

from hsa import terms as t


def same_args(a, b):
    '''compare argument tuples that contain compressed matrices: 'SAME' / 'DIFF' / 'UNDET' / None (no matrix involved)'''
    found = False
    for x, y in zip(a, b):
        if x is y:
            continue
        if x.op == 'mat' and y.op == 'mat':
            found = True
            diff = [k for k in range(1, 4) if x.args[k] is not y.args[k]]
            if x.args[4] is not y.args[4] or x.args[5] is not y.args[5]:
                return 'DIFF'
            if len(diff) > 1:
                return 'UNDET'
            return 'DIFF'
        if (x.op == 'mat') != (y.op == 'mat'):
            return 'UNDET'
    return None
