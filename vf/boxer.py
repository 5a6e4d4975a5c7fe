"""Independent writer of the BOXER format (as NJOY's COVR makes it), with the truth the files stand for."""
import os

import numpy as np

VALUE_FORMATS = {7: (11, '{:7.4f}', 7), 8: (10, '{:8.5f}', 8), 9: (8, '{:9.2E}', 9), 10: (8, '{:10.3E}', 10), 11: (7, '{:11.4E}', 11),
                 12: (6, '{:12.5E}', 12), 13: (6, '{:13.6E}', 13), 14: (5, '{:14.7E}', 14)}
CONTROL_FORMATS = {1: (80, 1), 2: (40, 2), 3: (26, 3), 4: (20, 4), 5: (16, 5), 6: (13, 6)}
MAXVAL, MAXCON = 1880, 1900


def value_text(v, nvf):
    return VALUE_FORMATS[nvf][1].format(v)


def quantise(m, nvf):
    """The values the file can hold: through the text, to the single precision the program works in."""
    flat = [np.float32(float(value_text(v, nvf))) for v in np.ravel(m)]
    return np.array(flat, np.float32).reshape(np.shape(m))


def header(itype, title, mat, mt, mat1, mt1, nval, nvf, ncon, ncf, nrowm, nrow, ncol):
    return f'{itype:1d}{title:35.35s}{mat:5d}{mt:4d}{mat1:5d}{mt1:4d}{nval:4d}{nvf:3d}{ncon:4d}{ncf:3d}{nrowm:4d}{nrow:4d}{ncol:4d}'


def _lines(texts, per):
    return [''.join(texts[i:i + per]) for i in range(0, len(texts), per)]


def _elements(m, symmetric):
    n, c = m.shape
    for i in range(n):
        for j in range(i if symmetric else 0, c):
            yield i, j


def encode_pages(rng, m, symmetric, nvf, ncf, max_val=MAXVAL, max_con=MAXCON, page_prob=0.0, style='mixed'):
    """Pages of (values, controls, last row + 1), chosen at random among the encodings that stand for the matrix m (already quantised)."""
    width = CONTROL_FORMATS[ncf][1]
    max_pos = 10 ** width - 1
    max_neg = 10 ** (width - 1) - 1          # the sign takes a column
    n, c = m.shape
    rows = []
    for i in range(n):
        rows.append([(i, j) for j in range(i if symmetric else 0, c)])
    pages, start = [], 0
    while start < n:
        vals, cons = [], []
        row = start

        def encode_rows(upto):
            """Controls of the rows start..upto-1; runs may go over row ends."""
            seq = [e for r in rows[start:upto] for e in r]
            vv, cc = [], []
            k = 0
            while k < len(seq):
                i, j = seq[k]
                v = m[i, j]
                above = m[i - 1, j] if i > start else np.float32(0)
                can_copy = v == above and max_pos >= 1
                can_value = max_neg >= 1
                if can_copy and (not can_value or style == 'compact' or rng.random() < 0.7):
                    run = 0
                    while k + run < len(seq) and run < max_pos:
                        a, b = seq[k + run]
                        up = m[a - 1, b] if a > start else np.float32(0)
                        if m[a, b] != up:
                            break
                        run += 1
                    if style != 'compact' and run > 1 and rng.random() < 0.3:
                        run = int(rng.integers(1, run + 1))
                    cc.append(run)
                else:
                    run = 1
                    while k + run < len(seq) and run < max_neg and m[seq[k + run]] == v:
                        run += 1
                    if style == 'single':
                        run = 1
                    elif style != 'compact' and run > 1 and rng.random() < 0.3:
                        run = int(rng.integers(1, run + 1))
                    cc.append(-run)
                    vv.append(v)
                k += run
            return vv, cc

        upto = n
        if page_prob and n - start > 1 and rng.random() < page_prob:
            upto = int(rng.integers(start + 1, n))
        vals, cons = encode_rows(upto)
        while (len(vals) > max_val or len(cons) > max_con) and upto > start + 1:
            upto = start + max(1, (upto - start) // 2)
            vals, cons = encode_rows(upto)
        if len(vals) > max_val or len(cons) > max_con:
            raise OverflowError('a row does not fit in a page')
        pages.append((vals, cons, upto))
        start = upto
    return pages


def data_set(rng, itype, title, mat, mt, mat1, mt1, m, nvf=10, ncf=3, symmetric=False, page_prob=0.0, style='mixed', max_val=MAXVAL, max_con=MAXCON):
    """Lines of one data set, and the number of pages."""
    m = np.asarray(m, np.float32)
    pages = encode_pages(rng, m, symmetric, nvf, ncf, page_prob=page_prob, style=style, max_val=max_val, max_con=max_con)
    out = []
    for p, (vals, cons, upto) in enumerate(pages):
        last = p == len(pages) - 1
        t = title if p == 0 else '-' * 34
        t = t if p == 0 else ' ' + t
        out.append(header(itype, t, mat, mt, mat1, mt1, len(vals), nvf, len(cons), ncf, 0 if last else max(1, m.shape[0] - upto), m.shape[0],
                          0 if symmetric else m.shape[1]))
        per, _, _ = VALUE_FORMATS[nvf]
        out += _lines([value_text(float(v), nvf) for v in vals], per)
        per, w = CONTROL_FORMATS[ncf]
        out += _lines([f'{c:{w}d}' for c in cons], per)
    return out, len(pages)


def parse_output(text):
    """fort.21 -> list of (header fields, list of rows of values, as printed)."""
    blocks = []
    for line in text.split('\n'):
        if not line.strip():
            continue
        if len(line) > 40 and line[0].isdigit() and line[36:41].strip().lstrip('-').isdigit() and '.' not in line[36:]:
            h = dict(itype=int(line[0]), title=line[1:36], mat=int(line[36:41]), mt=int(line[41:45]), mat1=int(line[45:50]), mt1=int(line[50:54]))
            blocks.append((h, []))
        else:
            if not blocks:
                raise ValueError('values before a header: ' + line[:60])
            blocks[-1][1].append([float(line[i:i + 10]) for i in range(0, len(line.rstrip()), 10)])
    return blocks


def printed(v):
    """Half a unit in the last printed digit of a value printed as 1PE10.3."""
    v = abs(float(v))
    if v == 0:
        return 0.0
    return 0.5 * 10.0 ** (np.floor(np.log10(v)) - 3) * 1.001


def build(repo, scratch, sanitize):
    import subprocess
    exe = os.path.join(scratch, 'boxer2mat' + ('_san' if sanitize else ''))
    cmd = ['gfortran', '-w']
    if sanitize:
        cmd += ['-g', '-O1', '-fcheck=all', '-fsanitize=address,undefined', '-fno-sanitize-recover=all']
    r = subprocess.run(cmd + [os.path.join(repo, 'boxer2mat', 'boxer2mat.f'), '-o', exe], capture_output=True, text=True, cwd=scratch)
    if r.returncode:
        raise RuntimeError('boxer2mat does not compile: ' + r.stderr[-800:])
    return exe
