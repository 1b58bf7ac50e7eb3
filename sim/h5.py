"""Reading openPMD/HDF5 files independently of Wake-T (plain h5py)."""
import hashlib
import os
import re

import h5py
import numpy as np

# Attributes that legitimately differ between two identical runs.
VOLATILE = {'date'}


def content(path):
    """Everything in a file as {path: value}; raises OSError if unreadable."""
    out = {}

    def attrs(name, obj):
        for k in obj.attrs:
            if k in VOLATILE:
                continue
            v = np.asarray(obj.attrs[k])
            out['%s@%s' % (name, k)] = (str(v.dtype), v.shape, v.tobytes()
                                        if v.dtype.kind != 'O' else
                                        repr(v.tolist()).encode())
    with h5py.File(path, 'r') as f:
        attrs('', f)

        def visit(name, obj):
            attrs(name, obj)
            if isinstance(obj, h5py.Dataset):
                v = obj[()]
                v = np.asarray(v)
                out[name] = (str(v.dtype), v.shape, v.tobytes())
        f.visititems(visit)
    return out


def digest(c):
    h = hashlib.sha1()
    for k in sorted(c):
        h.update(k.encode())
        for p in c[k]:
            h.update(p if isinstance(p, bytes) else repr(p).encode())
    return h.hexdigest()[:16]


def try_content(path):
    """Content or None if the file cannot be read completely."""
    try:
        return content(path)
    except Exception:
        return None


def series(folder):
    """{index: path} of the data files below folder; raises ValueError for
    unexpected names."""
    d = os.path.join(folder, 'hdf5')
    out = {}
    if not os.path.isdir(d):
        return out
    for name in sorted(os.listdir(d)):
        m = re.match(r'^data(\d{8})\.h5$', name)
        if m is None:
            raise ValueError('unexpected file %s' % name)
        out[int(m.group(1))] = os.path.join(d, name)
    return out


def component(g, name):
    """A record component: dataset or constant, with its SI factor."""
    obj = g[name]
    if isinstance(obj, h5py.Dataset):
        v = obj[()]
        return np.asarray(v) * obj.attrs['unitSI']
    shape = tuple(int(s) for s in np.atleast_1d(obj.attrs['shape']))
    return np.full(shape, obj.attrs['value']) * obj.attrs['unitSI']


class File:
    """Semantic view of one openPMD file."""

    def __init__(self, path):
        with h5py.File(path, 'r') as f:
            its = list(f['data'])
            if len(its) != 1:
                raise ValueError('%d iterations' % len(its))
            self.index = int(its[0])
            it = f['data'][its[0]]
            unit = it.attrs.get('timeUnitSI', 1.)
            self.time = float(it.attrs['time']) * unit
            self.dt = float(it.attrs['dt']) * unit
            pp = _text(f.attrs.get('particlesPath', b'particles/'))
            mp = _text(f.attrs.get('meshesPath', b'fields/'))
            self.species = {}
            if pp.strip('/') in it:
                for name in it[pp.strip('/')]:
                    g = it[pp.strip('/')][name]
                    s = {}
                    for rec, short in (('position', ''), ('momentum', 'p'),
                                       ('positionOffset', 'off_')):
                        for c in 'xyz':
                            s[short + c] = component(g[rec], c)
                    for rec in ('weighting', 'charge', 'mass'):
                        s[rec] = component(g, rec)
                    self.species[name] = s
            self.units, self.weights = {}, {}
            for p in (pp, mp):
                for name, g in it.get(p.strip('/'), {}).items():
                    if 'unitDimension' in g.attrs:
                        self.units[name] = _dim(g)
                    elif p == pp:
                        for rec in g:
                            self.units['%s/%s' % (name, rec)] = _dim(g[rec])
                            self.weights['%s/%s' % (name, rec)] = tuple(
                                float(g[rec].attrs[a]) for a in
                                ('macroWeighted', 'weightingPower'))
            self.fields = {}
            self.mesh = {}
            if mp.strip('/') in it:
                for name in it[mp.strip('/')]:
                    g = it[mp.strip('/')][name]
                    self.mesh[name] = dict(
                        omega=g.attrs.get('angularFrequency'),
                        pol=g.attrs.get('polarization'),
                        offset=np.array(g.attrs['gridGlobalOffset'])
                        * g.attrs.get('gridUnitSI', 1.),
                        spacing=np.array(g.attrs['gridSpacing'])
                        * g.attrs.get('gridUnitSI', 1.),
                        labels=[_text(s) for s in g.attrs['axisLabels']])
                    if isinstance(g, h5py.Dataset):
                        v = g[()]
                        if v.dtype.names:
                            v = v['r'] + 1j * v['i']
                        self.fields[name] = v * g.attrs['unitSI']
                    else:
                        for c in g:
                            self.fields[name + '/' + c] = \
                                g[c][()] * g[c].attrs['unitSI']


def _dim(g):
    return tuple(float(v) for v in g.attrs['unitDimension'])


def _text(v):
    return v.decode() if isinstance(v, bytes) else str(v)
