"""SMT-LIB s-expressions: independent reader/printer used by every oracle."""


class ParseError(Exception):
    pass


_WS = " \t\r\n"
_DELIM = set(' \t\r\n()";|')


def tokens(s):
    i, n = 0, len(s)
    while i < n:
        c = s[i]
        if c in _WS:
            i += 1
        elif c == ";":
            while i < n and s[i] != "\n":
                i += 1
        elif c in "()":
            yield c
            i += 1
        elif c == '"':
            j = i + 1
            while True:
                if j >= n:
                    raise ParseError("unterminated string")
                if s[j] == '"':
                    if j + 1 < n and s[j + 1] == '"':
                        j += 2
                        continue
                    break
                j += 1
            yield s[i : j + 1]
            i = j + 1
        elif c == "|":
            j = s.find("|", i + 1)
            if j < 0:
                raise ParseError("unterminated quoted symbol")
            yield s[i : j + 1]
            i = j + 1
        else:
            j = i
            while j < n and s[j] not in _DELIM:
                j += 1
            yield s[i:j]
            i = j


def parse_all(s):
    stack, out = [], []
    for t in tokens(s):
        if t == "(":
            stack.append([])
        elif t == ")":
            if not stack:
                raise ParseError("unbalanced )")
            e = stack.pop()
            (stack[-1] if stack else out).append(e)
        else:
            (stack[-1] if stack else out).append(t)
    if stack:
        raise ParseError("unbalanced (")
    return out


def show(e):
    return e if isinstance(e, str) else "(" + " ".join(show(x) for x in e) + ")"


def unquote(sym):
    """|x| and x are the same symbol."""
    if len(sym) >= 2 and sym[0] == "|" and sym[-1] == "|":
        return sym[1:-1]
    return sym
