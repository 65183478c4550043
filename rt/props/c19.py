"""C19: parameters in file names."""
import numpy as np
import pandas as pd
from surfalize import Batch, FileInput, Surface
from surfalize.batch import BatchResult, FilenameParser, ParsingError
import io
from rt import formats as fm
from rt.core import Stage

ID = 'C19'
RULE = ('Random templates (1 to 6 expressions of all types with prefixes, suffixes, separators including characters with a meaning '
        'in regular expressions, or none) and file names built from them with random values; extraction by the parser, by results '
        'and by batches from tables with shuffled index and further columns; names that do not fit; malformed templates.')
ASSUMPTIONS = ['Names of expressions are identifiers, numbers are not negative, text values do not contain the text that follows them.']
REQUIRED = {'event:int': 500, 'event:float': 500, 'event:str': 300, 'event:prefix': 300, 'event:suffix': 300, 'event:comma': 100,
            'event:special': 300, 'event:misfit': 150, 'event:batch': 30, 'event:malformed': 300, 'event:no separator': 60}
SEPS = list('_-+()[]#@=$^%~{}&!;\'*?|'.replace('|', '')) + [' ']
PREFIXES = ['P', 'FREP', 'V', 'HD', 'OS', 'N', 'F', 'T(', 'A+', 'X^', 'D$', '*B', 'Q?', '[G', 'PW.', 'µ']
SUFFIXES = ['kHz', 'um', 'µm', '%', 'W', 'mm/s', ')', ']', 'K+', '°', 'J$', 'x?']
ALPHA = list('abcdefghij')


def value(rng, dtype, more=''):
    if dtype == 'int':
        v = int(rng.choice([0, 5, 10, 123, 90000])) if rng.random() < .5 else int(rng.integers(0, 10 ** int(rng.choice([6, 6, 12, 18]))))
        return ('0' * int(rng.integers(0, 3)) if rng.random() < .15 else '') + str(v), v
    if dtype == 'float':
        whole = str(int(rng.integers(0, 2000)))
        if rng.random() < .3:
            return whole, float(whole)
        frac = ''.join(str(d) for d in rng.integers(0, 10, int(rng.integers(1, 5))))
        return whole + ('.' if rng.random() < .6 else ',') + frac, float(whole + '.' + frac)
    t = ''.join(rng.choice(ALPHA, int(rng.integers(1, 8))))
    if rng.random() < .3:
        t = t + str(int(rng.integers(100))) + 'a'
    if more and rng.random() < .5:
        # separators and other signs inside of the text
        for _ in range(int(rng.integers(1, 4))):
            i = int(rng.integers(1, len(t) + 1))
            t = t[:i] + str(rng.choice(list(more))) + t[i:]
        t += 'a'
    return t, t


def template(case, rng):
    n = int(rng.integers(1, 7))
    dtypes = [str(rng.choice(['int', 'float', 'str'], p=[.35, .45, .2])) for _ in range(n)]
    seps = [str(x) for x in rng.permutation(SEPS)[:n + 1]]
    prefixes = [str(x) for x in rng.permutation(PREFIXES)[:n]]
    sufs = [str(x) for x in rng.permutation(SUFFIXES)[:n]]
    literals = [''] * (n + 1)
    tokens = []
    used = set()
    for i in range(n):
        pre = prefixes[i] if rng.random() < .6 else ''
        suf = sufs[i] if rng.random() < .4 else ''
        tokens.append([f'{"abcdef"[i]}_{i}' if rng.random() < .8 else f'Größe{i}', dtypes[i], pre, suf])
    for i in range(n):
        if i > 0:
            sep = seps[i]
            # characters of neighbouring literals are kept distinct from the separators (unambiguous names)
            if tokens[i][2] and tokens[i][2][0].isalpha() and not tokens[i - 1][3] and tokens[i - 1][1] != 'str' and rng.random() < .3:
                sep = ''
                case.event('no separator')
            literals[i] = sep
    if rng.random() < .3:
        literals[0] = seps[0] + 'Z'
    if rng.random() < .4 or (tokens[-1][1] == 'str'):
        literals[n] = seps[n] + 'E'
    text = literals[0]
    for i, (name, dt, pre, suf) in enumerate(tokens):
        e = f'{name}|{dt}'
        if suf:
            e += f'|{pre}|{suf}'
        elif pre:
            e += f'|{pre}' + ('|' if rng.random() < .2 else '')
        text += f'<{e}>' + literals[i + 1]
        case.event(dt)
        if pre:
            case.event('prefix')
        if suf:
            case.event('suffix')
    if any(c in '+()[]$^{}*?.' for c in ''.join(literals) + ''.join(t[2] + t[3] for t in tokens)):
        case.event('special')
    return text, tokens, literals


def ambiguous(tokens, literals):
    """A text value has to be followed by something that occurs nowhere later."""
    flat = []
    for i, t in enumerate(tokens):
        flat += [literals[i] + t[2], t, t[3]]
    flat.append(literals[-1])
    for i, t in enumerate(flat):
        if isinstance(t, list) and t[1] == 'str':
            after = ''.join(x if isinstance(x, str) else '\0' for x in flat[i + 1:])
            first = after.split('\0')[0]
            if not first or first in ''.join(after.split('\0')[1:]) or first[0] in '.,' or len(first) > 1 and first in after[1:]:
                return True
            if any(c in ALPHA or c.isdigit() for c in first):
                return True
        elif isinstance(t, list):
            after = ''.join(x if isinstance(x, str) else '\0' for x in flat[i + 1:])
            if after[:1] == '\0':
                return True
    return False


def names(case, rng, tokens, literals, n):
    rows, out = [], []
    first_str = tokens[0][1] == 'str' and not tokens[0][2] and not literals[0]
    ext = str(rng.choice(['.vk4', '.sur', '', '.x3p']))
    # everything that follows the first text value
    k = next((i for i, t in enumerate(tokens) if t[1] == 'str'), len(tokens))
    follows = ''.join(t[2] for t in tokens[k + 1:]) + ''.join(t[3] for t in tokens[k:]) + ''.join(literals[k + 1:])
    more = ''.join(c for c in '_-+ .,()[]=@é&#' if c not in follows)
    if any(t[1] == 'str' for t in tokens):
        case.event('signs in a text value')
    for _ in range(n):
        s, vals = '', {}
        for i, (name, dt, pre, suf) in enumerate(tokens):
            t, v = value(rng, dt, more)
            if ',' in t and dt == 'float':
                case.event('comma')
            s += literals[i] + pre + t + suf
            vals[name] = v
        s += literals[-1]
        junk = '' if first_str or rng.random() < .6 else 'Y'
        rows.append(junk + s + ext)
        out.append(vals)
    return rows, out


def make(case, rng, n):
    while True:
        text, tokens, literals = template(case, rng)
        if not ambiguous(tokens, literals):
            break
    rows, vals = names(case, rng, tokens, literals, n)
    return text, tokens, literals, rows, vals


def same(case, what, df, tokens, vals, **ctx):
    for name, dt, _, _ in tokens:
        case.check(name in df.columns, f'{what}: column {name}', got=list(map(str, df.columns)), **ctx)
        got = df[name].tolist()
        want = [v[name] for v in vals]
        case.check(got == want, f'{what}: values of {name} ({dt})', got=got, want=want, **ctx)
        kind = {'int': 'iu', 'float': 'f'}.get(dt)
        if kind:
            case.check(df[name].dtype.kind in kind, f'{what}: type of {name}', got=str(df[name].dtype), want=dt, **ctx)
        else:
            case.check(all(isinstance(v, str) for v in got), f'{what}: type of {name}', got=got, **ctx)


def extract(case):
    rng = case.rng
    n = int(rng.integers(1, 7))
    text, tokens, literals, rows, vals = make(case, rng, n)
    case.note(template=text, rows=rows)
    index = rng.permutation(50)[:n] if rng.random() < .5 else None
    extra = rng.normal(size=n)
    base = pd.DataFrame({'first': np.arange(n), 'file': rows, 'Sa': extra}, index=index)
    keep = base.copy()
    res = BatchResult(base)
    res.extract_from_filename(text)
    df = res.get_dataframe()
    same(case, 'result', df, tokens, vals, template=text, rows=rows)
    want = ['first', 'file'] + [t[0] for t in tokens] + ['Sa']
    case.check(list(df.columns) == want, 'columns: the values stand next to the file', got=list(map(str, df.columns)), want=want)
    case.check(df[['first', 'file', 'Sa']].equals(keep), 'other columns stay as they are')
    case.check(base.equals(keep), 'the table given is left alone')
    for after in (True, False):
        out = FilenameParser(text).apply_on(base, 'file', insert_after_column=after)
        same(case, 'parser', out, tokens, vals, template=text, rows=rows)
        want2 = want if after else ['first', 'file', 'Sa'] + [t[0] for t in tokens]
        case.check(list(out.columns) == want2, 'columns of the parser', got=list(map(str, out.columns)), want=want2, after=after)
        case.check(base.equals(keep), 'the table given is left alone')
    # another column
    b3 = base.rename(columns={'file': 'sample name'})
    same(case, 'another column', FilenameParser(text).apply_on(b3, 'sample name'), tokens, vals)
    # a second extraction replaces the values
    res.extract_from_filename(text)
    same(case, 'extracted again', res.get_dataframe(), tokens, vals)
    case.check(list(res.get_dataframe().columns) == want, 'columns after extracting again')


def misfit(case):
    """One name that does not fit among others that do."""
    rng = case.rng
    n = int(rng.integers(2, 6))
    text, tokens, literals, rows, vals = make(case, rng, n)
    k = int(rng.integers(n))
    bad = str(rng.choice(['', 'Y', '%%%%', '\n']))
    rows = list(rows)
    rows[k] = bad
    case.note(template=text, rows=rows, bad=k)
    case.event('misfit')
    df = pd.DataFrame({'file': rows})
    try:
        out = FilenameParser(text).apply_on(df, 'file')
    except Exception:
        case.count('refused')
        case.check(True, 'refused')
        return
    case.count('missing values')
    for name, dt, _, _ in tokens:
        got = out[name].tolist()
        for i in range(n):
            if i == k:
                case.check(got[i] is None or got[i] != got[i] or got[i] in ('nan', 'None') and False, f'value of {name} from a name that does not fit',
                           got=repr(got[i]), row=bad)
            else:
                case.check(got[i] == vals[i][name], f'values of the other names: {name}', got=repr(got[i]), want=vals[i][name])


def malformed(case):
    rng = case.rng
    text, tokens, literals, rows, vals = make(case, rng, 2)
    kind = case.idx % 6
    cut = text.rindex('>')
    start = text.rindex('<')
    if kind == 0:
        bad = text[:cut]
    elif kind == 1:
        bad = text[:start] + '<' + text[start:]
    elif kind == 2:
        bad = text + '<name>'
    elif kind == 3:
        bad = text + '<z_|' + str(rng.choice(['double', 'Float', 'string', '', 'bool'])) + '>'
    elif kind == 4:
        bad = text + '<'
    else:
        bad = text[:start] + '<a|int' + text[start:]
    case.event('malformed')
    case.note(template=bad, kind=int(kind))
    df = pd.DataFrame({'file': rows, 'x': [1, 2]})
    res = BatchResult(df)
    case.raises('a malformed template', ParsingError, lambda: res.extract_from_filename(bad), template=bad)
    case.check(res.get_dataframe().equals(df), 'a refused template leaves the result as it was')


def batch(case):
    rng = case.rng
    n = int(rng.integers(1, 5))
    text, tokens, literals, rows, vals = make(case, rng, n)
    case.event('batch')
    case.note(template=text, rows=rows)
    if len(set(rows)) < n:
        return
    b = io.BytesIO()
    fm.save(Surface(rng.normal(size=(5, 6)), 1, 1), b, '.sdf', {})
    files = [FileInput(r, io.BytesIO(b.getvalue()), '.sdf') for r in rows]
    bt = Batch(files).Sa()
    case.check(bt.extract_from_filename(text) is bt, 'can be chained')
    df = bt.execute(multiprocessing=bool(rng.random() < .5)).get_dataframe()
    want = {r: v for r, v in zip(rows, vals)}
    same(case, 'batch', df, tokens, [want[f] for f in df['file']], template=text)
    case.check(list(df.columns) == ['file'] + [t[0] for t in tokens] + ['Sa'], 'columns', got=list(map(str, df.columns)))
    if rng.random() < .5:        # another template replaces the first
        bt.extract_from_filename(literals[0] + f'<only|{tokens[0][1]}|{tokens[0][2]}' + f'|{tokens[0][3]}>' + literals[1])
        df = bt.execute(multiprocessing=False).get_dataframe()
        case.check(list(df.columns) == ['file', 'only', 'Sa'], 'a new template replaces the old one', got=list(map(str, df.columns)))


STAGES = [Stage('extract', extract, 5000, 240000), Stage('misfit', misfit, 1200, 60000), Stage('malformed', malformed, 600, 18000), Stage('batch', batch, 80, 3000)]
