"""S-expression reader for SMT-LIB and Racket text: atoms are Sym / int / Str, lists are Python lists."""


class Sym(str):
    __slots__ = ()

    def __repr__(self):
        return str(self)


class Str(str):
    __slots__ = ()


class ReadError(Exception):
    pass


OPEN = {"(": ")", "[": "]"}


def tokens(text):
    i, n = 0, len(text)
    while i < n:
        c = text[i]
        if c.isspace():
            i += 1
        elif c == ";":
            while i < n and text[i] != "\n":
                i += 1
        elif c in "()[]":
            yield c
            i += 1
        elif c == '"':
            j = i + 1
            out = []
            while j < n and text[j] != '"':
                if text[j] == "\\" and j + 1 < n:
                    out.append(text[j : j + 2])
                    j += 2
                else:
                    out.append(text[j])
                    j += 1
            if j >= n:
                raise ReadError("unterminated string")
            yield Str("".join(out))
            i = j + 1
        elif c == "|":
            if text[i : i + 2] == "||":
                yield Sym("||")
                i += 2
                continue
            j = text.index("|", i + 1)
            yield Sym(text[i : j + 1])
            i = j + 1
        elif c == "'":
            yield "'"
            i += 1
        else:
            j = i
            while j < n and not text[j].isspace() and text[j] not in "()[];\"":
                j += 1
            a = text[i:j]
            i = j
            try:
                yield int(a)
            except ValueError:
                yield Sym(a)


def read_all(text):
    stack, cur, close, quotes = [], [], [], [False]
    pend = False
    for t in tokens(text):
        if type(t) is str and t in OPEN:
            stack.append((cur, pend))
            close.append(OPEN[t])
            cur, pend = [], False
        elif type(t) is str and t in ")]":
            if not close or close.pop() != t:
                raise ReadError(f"unbalanced {t}")
            done = cur
            cur, pend = stack.pop()
            if pend:
                done = [Sym("quote"), done]
                pend = False
            cur.append(done)
        elif type(t) is str and t == "'":
            pend = True
        else:
            if pend:
                t = [Sym("quote"), t]
                pend = False
            cur.append(t)
    if stack:
        raise ReadError("missing closing parenthesis")
    return cur


def read(text):
    r = read_all(text)
    if len(r) != 1:
        raise ReadError(f"expected one expression, found {len(r)}: {text[:80]}")
    return r[0]


def show(e):
    if isinstance(e, list):
        return "(" + " ".join(show(x) for x in e) + ")"
    if isinstance(e, Str):
        return '"' + e + '"'
    return str(e)
