"""Fresh interpreter that unpickles graphs and reports what the numbers say.

Protocol on stdin/stdout: 8-byte length, pickled request / JSON reply + bytes.
"""
import sys, os, struct, json, pickle


class Held(object):
    def __init__(self, x):
        self.held = x


def key_of(v):
    return v.tag if isinstance(v.tag, str) else repr(v.nominal_value)


def report(objs):
    """Observations of the numbers of a list, quantities being designated by
    key_of(); also checks that each key corresponds to only one quantity."""
    from uncertainties import UFloat, covariance_matrix
    ids, out = {}, []
    for o in objs:
        if not isinstance(o, UFloat):
            out.append(['plain', type(o).__name__, repr(o)])
            continue
        d, e = {}, {}
        for v, x in o.derivatives.items():
            if ids.setdefault(key_of(v), v) is not v:
                raise AssertionError('quantity %r restored twice' % key_of(v))
            d[key_of(v)] = repr(float(x))
        for v, x in o.error_components().items():
            e[key_of(v)] = repr(float(x))
        out.append([type(o).__name__, repr(o.nominal_value), repr(float(o.std_dev)),
                    d, e, repr(o)])
    return out, ids


def contents(box):
    "The numbers of a container, in order."
    import numpy
    if isinstance(box, numpy.ndarray):
        box = numpy.asarray(box).ravel()
    elif isinstance(box, dict):
        box = [box[k] for k in sorted(box)]
    out = []
    for x in box:
        if isinstance(x, (list, tuple, dict, numpy.ndarray)):
            out.extend(contents(x))
        elif hasattr(x, 'held'):
            out.append(x.held)
        else:
            out.append(x)
    return out


def main():
    inp, out = os.fdopen(0, 'rb'), os.fdopen(os.dup(1), 'wb')
    os.dup2(2, 1)
    while True:
        head = inp.read(8)
        if len(head) < 8:
            return
        (n,) = struct.unpack('<Q', head)
        data = inp.read(n)
        protocol, key, std = pickle.loads(data[:64].rstrip(b' '))
        again = b''
        try:
            box = pickle.loads(data[64:])
            objs = contents(box)
            first, ids = report(objs)
            again = pickle.dumps(box, protocol)
            reply = {'first': first}
            if key is not None and key in ids:
                ids[key].std_dev = std
                reply['updated'] = report(objs)[0]
        except BaseException as e:
            import traceback
            reply = {'error': traceback.format_exc()[-2000:]}
        for b in (json.dumps(reply).encode(), again):
            out.write(struct.pack('<Q', len(b)) + b)
        out.flush()


if __name__ == '__main__':
    main()
