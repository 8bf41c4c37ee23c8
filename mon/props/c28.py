"""C28 printed references and comments are the stored text"""
import copy
import io
import sys
from dispersion import Material
from .. import gen, words

PROP = 'C28'
RULE = ("a case is a material with any text as reference and comment, "
        "printed to an output of some encoding (UTF-8, Latin-1, ASCII that "
        "refuses everything else); the bytes written are compared with the "
        "ASCII characters of the text; distinct by text and encoding")
ASSUMPTIONS = []
REQUIRED = ['references printed', 'comments printed', 'ascii outputs',
            'texts with other characters', 'material unchanged',
            'multi-line texts', 'long texts', 'texts with separators']


def capture(func, encoding):
    raw = io.BytesIO()
    out = io.TextIOWrapper(raw, encoding=encoding, errors='strict',
                           newline='')
    saved = sys.stdout
    sys.stdout = out
    try:
        func()
        out.flush()
    finally:
        sys.stdout = saved
    return raw.getvalue()


def case_print(ctx):
    mat = gen.make_material(ctx, small=True)[0]
    for field in ('Reference', 'Comment', 'Name', 'Author'):
        mode = ctx.randint(0, 3)
        text = words.line(ctx) if mode else words.lines(ctx)
        if mode == 3:
            text += "".join(chr(ctx.randint(32, 0x2fff)) for _ in range(8)
                            ).encode('utf-8', 'ignore').decode('utf-8')
        if ctx.chance(0.15):
            # ends of lines and separators as they are
            ctx.count('texts with separators')
            for sep in ('\r\n', '\r', '\t', '\x0b', '\x0c', ' \n', '\n\n'):
                if ctx.chance(0.4):
                    text += sep + ctx.choice(['', 'more', ' text '])
        if ctx.chance(0.05):
            # long texts, with long lines
            text = ctx.choice([' ', '', '\n']).join(
                [text, 'abc def']*ctx.choice([40, 300, 3000]))
            ctx.count('long texts')
        mat.meta_data[field] = text
    before = copy.deepcopy(dict(mat.meta_data))
    encoding = ctx.choice(['utf-8', 'latin-1', 'ascii', 'ascii'])
    for func, field in ((mat.print_reference, 'Reference'),
                        (mat.print_comment, 'Comment')):
        for _ in range(2):
            text = before[field]
            got = ctx.accepts(lambda: capture(func, encoding), "printing",
                              field=field, text=text, encoding=encoding)
            want = "".join(c for c in text if ord(c) < 128) + "\n"
            ctx.check(got.decode(encoding) == want, "printed text is not the "
                      "stored one", 'references printed' if
                      field == 'Reference' else 'comments printed',
                      got=got, want=want, field=field)
        if any(ord(c) > 127 for c in text):
            ctx.count('texts with other characters')
        if "\n" in text:
            ctx.count('multi-line texts')
    if encoding == 'ascii':
        ctx.count('ascii outputs')
    ctx.check(dict(mat.meta_data) == before, "printing changed metadata",
              'material unchanged')
    ctx.describe(reference=before['Reference'], comment=before['Comment'],
                 encoding=encoding)
    ctx.sig(before['Reference'], before['Comment'], encoding)


SCENARIOS = {
    'print': {'case': case_print, 'quick': 4000, 'thorough': 80000},
}
