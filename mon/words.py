"""generators of text as it appears in metadata"""

PIECES = ('Johnson and Christy', 'Phys. Rev. B 6, 4370 (1972)',
          'doi: 10.1103/PhysRevB.6.4370', 'https://doi.org/10.1063/1.371724',
          'H. Müller', 'Åström & Öz', '日本語', 'π≈3.14159', 'emoji 🙂',
          'a:b::c:', ':', ': leading colon', 'trailing colon:', '"quoted"',
          "it's", "'single'", '# hash', 'x # y', 'semi;colon', '; first',
          'comma, separated, list', 'tab\tinside', '100%', '@home', '`tick`',
          '- dash', '* star', '? what', '! bang', '& and', '| pipe', '> gt',
          '{brace}', '[bracket]', '\\backslash\\n', 'null', 'None', 'true',
          'yes', 'no', '123', '1e5', '0.50', '007', '0x1f', '1_000', 'nan',
          'inf', '.5', '-1', '2020-01-01', '12:30:45', '~', '=', '<<', 'NA',
          '<a href="https://x.org/?q=1&b=2">link</a>', '&copy;', '---', '...',
          'two  spaces', 'n, k 0.2–1.2 µm', 'Спектр', 'عربى', '5 °C', '½',
          '%TAG', 'very ' + 'long '*40 + 'text', 'x'*300, 'e\u0301 combining',
          'Unit cell: cubic', 'Name of the sample: A1',
          'Reference sample: BK7 glass', 'COMMENTSS: none',
          'Namess: x', 'AUTHORSS: y', 'Comment by H. M.: none',
          'author contact: a@b.org', 'Yields at 300 K: 0.5',
          'spectrumtype of the source: energy', 'REFERENCES', 'DATA', 'ends with backslash\\', '""', "''", '$HOME',
          'formula: $n^2-1=\\sum_i \\frac{B_i\\lambda^2}{\\lambda^2-C_i}$')

# white space which does not end a line of a text file
SEPARATORS = ('\x0b', '\x0c', '\x1c', '\x1d', '\x1e', '\x1f', '\x85',
              '\u2028', '\u2029', '\u00a0', '\u200b', '\u3000', '\t')


KEYS = ('COMMENT', 'REFERENCE', 'AUTHOR', 'NAME', 'FULLNAME', 'METACOMMENT',
        'VALIDRANGE', 'DATATYPE', 'SPECTRUMTYPE', 'UNIT', 'YIELDS', 'SPEC')


def line(ctx):
    """any text on one line"""
    mode = ctx.randint(0, 9)
    if mode == 0:
        return ''
    if mode <= 6:
        return ctx.choice(PIECES)
    if mode == 7:
        return ctx.choice(PIECES) + ' ' + ctx.choice(PIECES)
    if mode == 8:
        # random printable characters
        out = []
        for _ in range(ctx.randint(1, 25)):
            code = ctx.choice([ctx.randint(32, 126), ctx.randint(32, 126),
                               ctx.randint(161, 1500),
                               ctx.randint(0x4e00, 0x9000)])
            char = chr(code)
            if char.isprintable():
                out.append(char)
        return "".join(out)
    if ctx.chance(0.1):
        return 'a very long text '*ctx.randint(20, 600) + 'ends here'
    return ' ' + ctx.choice(PIECES) + '  '


def like_metadata(text):
    """a comment line that reads as key:value metadata"""
    head = text.split(':')[0].strip().upper()
    return ':' in text and any(head in (k, k + 'S') for k in KEYS)


def same(one, two):
    """equal in value and in kind"""
    return one == two and all(type(one[k]) is type(two[k]) for k in two)


def lines(ctx, most=4):
    """several lines, none of them metadata, blank ones allowed inside"""
    out = []
    if ctx.chance(0.03):
        most = 80
    for _ in range(ctx.randint(1, most)):
        text = line(ctx) if ctx.chance(0.85) else ''
        out.append('' if like_metadata(text) else text)
    return "\n".join(out)


def specification(ctx):
    known = ('n_absolute', 'wavelength_vacuum', 'film_thickness',
             'substrate', 'temperature', 'pressure',
             'deposition_temperature', 'direction')
    out = {}
    for _ in range(ctx.randint(1, 5)):
        key = ctx.choice(known) if ctx.chance(0.7) else ctx.choice(
            ('thickness', 'my key', 'größe', 'source', 'a.b'))
        out[key] = ctx.choice([True, False, None, 0, 25.0, 3, '25 °C', '1 atm', '',
                               'glass: BK7', 1.5e-9, line(ctx).strip()])
    return out
