"""C14: readers decode what the file encodes."""
import io
import os
from datetime import datetime
from pathlib import Path
import numpy as np
from surfalize import Surface
from rt import encode, formats as fm
from rt.core import Stage

ID = 'C14'
RULE = ('Files of all readable formats are produced by independent encoders with random sizes (from 1 x n), units, data '
        'types, header variations, missing points, image layers and extreme sample values; every one is loaded from a path '
        'and from a buffer with random options and compared point by point with what was encoded.')
ASSUMPTIONS = ['The encoders follow the published descriptions of the formats as far as the readers claim to support them.',
               'xyz files list the points row by row, x running fastest; gwy channels carry titles; opd float arrays have no multiplier.',
               'nms heights span the limits stated in the header.']
REQUIRED = {f'event:{k}': 60 for k in encode.ENCODERS}
REQUIRED.update({'event:missing points': 300, 'event:layers': 300, 'event:path': 600, 'event:buffer': 600, 'event:cag': 20})


def check_layers(case, got, want, what):
    case.check(sorted(got) == sorted(want), f'{what}: image layers', got=list(got), want=list(want))
    for k, a in want.items():
        case.same(f'{what}: image layer {k}', np.asarray(got[k].data), np.asarray(a))


def decode(case):
    rng = case.rng
    names = list(encode.ENCODERS)
    name = names[case.idx % len(names)]
    e = encode.ENCODERS[name](rng)
    case.note(name=name, shape=list(e.z.shape), what=e.what, layers=list(e.layers), missing=int(np.isnan(e.z).sum()), bytes=len(e.data))
    case.event(name)
    if np.isnan(e.z).any():
        case.event('missing points')
    with_layers = bool(rng.random() < .6)
    opts = {}
    if with_layers or rng.random() < .5:
        opts['read_image_layers'] = with_layers
    if rng.random() < .6:
        opts['encoding'] = str(rng.choice(e.encodings))
    p = os.path.join(case.tmp, str(rng.choice(['f', 'Ä b.c'])) + (e.suffix if rng.random() < .8 else e.suffix.upper()))
    with open(p, 'wb') as fh:
        fh.write(e.data)
    atol = np.full(e.z.shape, e.rtol * (np.nanmax(np.abs(e.z)) if not np.isnan(e.z).all() else 0))
    res = []
    for how in ('path', 'buffer'):
        case.event(how)
        if how == 'path':
            s = fm.load(p if rng.random() < .5 else Path(p), **opts)
        else:
            b = io.BytesIO(e.data)
            s = fm.load(b, **({} if e.magic and name != 'x3p' and rng.random() < .5 else {'format': e.suffix}), **opts)
            case.check(b.tell() == 0, 'the position of the buffer is restored', pos=b.tell())
            case.check(b.getvalue() == e.data, 'reading leaves a buffer alone')
        fm.same_surface(case, f'{name} from {how}', s, e.z, e.sx, e.sy, atol, e.rstep, encoded=e.what, options=opts)
        check_layers(case, s.image_layers, e.layers if with_layers else {}, f'{name} from {how}')
        for k, v in e.meta.items():
            got = s.metadata.get(k)
            want = v
            if isinstance(got, datetime) and isinstance(v, str):
                import dateutil.parser
                want = dateutil.parser.parse(v)
            elif isinstance(got, bytes):
                got = repr(got)
            case.check(got == want, f'{name}: metadata {k}', got=repr(got), want=repr(want), options=opts)
        res.append(s)
    if with_layers and e.layers:
        case.event('layers')
    case.same(f'{name}: path and buffer', res[0].data, res[1].data)
    case.check(open(p, 'rb').read() == e.data, 'reading leaves the file alone')
    # ordinary, independent surfaces
    y, x = int(rng.integers(e.z.shape[0])), int(rng.integers(e.z.shape[1]))
    before = np.array(res[1].data)
    res[0][y, x] = 0.5
    case.check(res[0].data[y, x] == 0.5, f'{name}: loaded surfaces can be edited')
    res[0].zero(inplace=True)
    case.same(f'{name}: surfaces loaded from the same file are independent', res[1].data, before)


def cag(case):
    """Assemblies: every measurement is extracted unchanged under its original name."""
    import zipfile
    from surfalize.file.cag import extract_cag
    rng = case.rng
    n = int(rng.integers(1, 5))
    files = {}
    ids = [str(i) for i in rng.permutation(1000)[:n]]
    bio = io.BytesIO()
    xml = '<Root>' + ''.join(f'\n<File>\n<Path>{i}</Path>\n<OriginalFileName>sub/m µ {k}.vk4</OriginalFileName>\n</File>' for k, i in enumerate(ids)) + '\n</Root>'
    with zipfile.ZipFile(bio, 'w') as a:
        a.writestr('Assembly/info.txt', b'')
        members = []
        for k, i in enumerate(ids):
            e = encode.vk4(rng) if rng.random() < .6 else encode.vk4(rng, str(rng.choice(['.vk6', '.vk7'])))
            members.append((f'data/{i}/measurement', e.data))
            files[f'm µ {k}.vk4'] = e.data
        members.append(('data/index.xml', xml.encode('utf-8')))
        members.append((f'data/{ids[0]}/thumb', b'nothing'))
        for j in rng.permutation(len(members)):
            a.writestr(*members[j])
    d = os.path.join(case.tmp, 'in')
    os.makedirs(d)
    p = os.path.join(d, 'a.cag')
    with open(p, 'wb') as fh:
        fh.write(bio.getvalue())
    case.note(n=n, ids=ids)
    case.event('cag')
    t = os.path.join(case.tmp, 'out')
    if rng.random() < .5:
        extract_cag(p, t)
    else:
        extract_cag(p)
        t = d
    got = sorted(f for f in os.listdir(t) if f != 'a.cag')
    case.check(got == sorted(files), 'extracted files', got=got, want=sorted(files))
    for k, b in files.items():
        case.check(open(os.path.join(t, k), 'rb').read() == b, 'content of an extracted file', file=k)


STAGES = [Stage('decode', decode, 21600, 270000, timeout=60), Stage('cag', cag, 240, 3000)]
