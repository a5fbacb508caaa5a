"""the formatter option space of C06"""
import itertools

INDENT = tuple(range(9))
SPACER = (" ", "\t")
QUOTE = ('"', "'")
NL = ("\n", "\r\n", " ")
BOOL = (False, True)


def all_options():
    for i, s, q, n, e, a, c in itertools.product(INDENT, SPACER, QUOTE, NL, BOOL, BOOL, BOOL):
        if n == " " and e:
            continue
        yield {"indent": i, "spacer": s, "quote": q, "newlinechar": n, "end_comment": e, "align_values": a, "separate_complex_types": c}


def spread(n, start=0):
    """n options walking through the whole space with a step coprime to its size"""
    opts = list(all_options())
    step = 197
    while len(opts) % step == 0:
        step += 2
    return [opts[(start + i) * step % len(opts)] for i in range(n)]


def name(o):
    return "indent=%d%s q=%s nl=%s%s%s%s" % (o["indent"], "t" if o["spacer"] == "\t" else "s", o["quote"], {"\n": "LF", "\r\n": "CRLF", " ": "space"}[o["newlinechar"]], " endc" if o["end_comment"] else "", " align" if o["align_values"] else "", " sep" if o["separate_complex_types"] else "")
