"""A small PostScript interpreter: enough of the language to run the documents
stl-to-ps emits (and reasonable re-phrasings of them), recording what is painted.

It raises PSError where a real interpreter would raise an error.
"""
import math

COURIER_BBOX = (-23.0, -250.0, 715.0, 805.0)
COURIER_ADV = 0.6


class PSError(Exception):
    pass


class Name(str):
    __slots__ = ()


class LitName(str):
    __slots__ = ()


class PSString(str):
    __slots__ = ()


class Mark:
    pass


class Font:
    def __init__(self, size=1.0, name="Courier"):
        self.size = size
        self.name = name


WS = " \t\r\n\f\0"
DELIM = "()<>[]{}/%"


def tokenize(src):
    """Yields tokens; '{' '}' etc. as Name."""
    i, n = 0, len(src)
    while i < n:
        c = src[i]
        if c in WS:
            i += 1
        elif c == "%":
            while i < n and src[i] not in "\n\r\f":
                i += 1
        elif c == "(":
            depth, out = 1, []
            i += 1
            while True:
                if i >= n:
                    raise PSError("syntaxerror: unterminated string")
                c = src[i]
                i += 1
                if c == "\\":
                    if i >= n:
                        raise PSError("syntaxerror: unterminated string")
                    e = src[i]
                    i += 1
                    m = {"n": "\n", "r": "\r", "t": "\t", "b": "\b", "f": "\f"}
                    if e in m:
                        out.append(m[e])
                    elif e in "01234567":
                        o = e
                        while len(o) < 3 and i < n and src[i] in "01234567":
                            o += src[i]
                            i += 1
                        out.append(chr(int(o, 8) & 255))
                    elif e == "\r":
                        if i < n and src[i] == "\n":
                            i += 1
                    elif e == "\n":
                        pass
                    else:
                        out.append(e)
                elif c == "\r":
                    if i < n and src[i] == "\n":
                        i += 1
                    out.append("\n")
                elif c == "(":
                    depth += 1
                    out.append(c)
                elif c == ")":
                    depth -= 1
                    if depth == 0:
                        break
                    out.append(c)
                else:
                    out.append(c)
            yield PSString("".join(out))
        elif c == ")":
            raise PSError("syntaxerror: unmatched )")
        elif c == "<":
            if src[i:i + 2] == "<<":
                yield Name("<<")
                i += 2
            else:
                j = src.find(">", i)
                if j < 0:
                    raise PSError("syntaxerror: unterminated hex string")
                h = "".join(x for x in src[i + 1:j] if x not in WS)
                if len(h) % 2:
                    h += "0"
                try:
                    yield PSString(bytes.fromhex(h).decode("latin-1"))
                except ValueError:
                    raise PSError("syntaxerror: hex string")
                i = j + 1
        elif c == ">":
            if src[i:i + 2] != ">>":
                raise PSError("syntaxerror: >")
            yield Name(">>")
            i += 2
        elif c in "[]{}":
            yield Name(c)
            i += 1
        elif c == "/":
            j = i + 1
            while j < n and src[j] not in WS and src[j] not in DELIM:
                j += 1
            yield LitName(src[i + 1:j])
            i = j
        else:
            j = i
            while j < n and src[j] not in WS and src[j] not in DELIM:
                j += 1
            yield number_or_name(src[i:j])
            i = j


def number_or_name(t):
    try:
        if t.lower().lstrip("+-") in ("inf", "infinity", "nan") or "_" in t:
            return Name(t)
        try:
            return int(t)
        except ValueError:
            v = float(t)
            if not math.isfinite(v):
                raise PSError("limitcheck: " + t)
            return v
    except ValueError:
        pass
    if "#" in t:
        b, _, d = t.partition("#")
        try:
            return int(d, int(b))
        except ValueError:
            pass
    return Name(t)


class Page:
    def __init__(self):
        self.segs = []     # ((x0,y0),(x1,y1)) painted
        self.arcs = []     # (cx,cy,r,a0,a1) painted
        self.texts = []    # (x, y, str, size): as placed, start of baseline
        self.anchors = []  # (x, y) of the last absolute moveto before the text
        self.size = None
        self.pens = set()    # widths of what was stroked
        self.fonts = set()   # (name, size) of what was shown


class State:
    def __init__(self):
        self.font = None
        self.cp = None
        self.path = []       # list of ('L',p,q) / ('A',...)
        self.start = None
        self.shown = False   # the current point is where a text ended
        self.width = 1.0
        self.tx = self.ty = 0.0
        self.sx = self.sy = 1.0

    def copy(self):
        s = State()
        s.__dict__.update(self.__dict__)
        s.path = list(self.path)
        return s


class Interp:
    def __init__(self, limit=5000000):
        self.stack = []
        self.dicts = [{}, {}]
        self.g = State()
        self.gsave = []
        self.pages = []
        self.page = Page()
        self.pagesize = None
        self.steps = 0
        self.limit = limit
        self.anchor = None
        self.unstarted = 0   # lines drawn from where a text ended

    # -- helpers
    def pop(self, typ=None):
        if not self.stack:
            raise PSError("stackunderflow")
        v = self.stack.pop()
        if typ is not None and (not isinstance(v, typ) or
                                (typ is not str and isinstance(v, bool))):
            raise PSError("typecheck: %r" % (v,))
        return v

    def num(self):
        v = self.pop()
        if isinstance(v, bool) or not isinstance(v, (int, float)):
            raise PSError("typecheck: expected number, got %r" % (v,))
        if not math.isfinite(v):
            raise PSError("undefinedresult")
        return v

    def lookup(self, n):
        for d in reversed(self.dicts):
            if n in d:
                return d[n]
        return None

    def run(self, src):
        it = tokenize(src)
        for t in it:
            if isinstance(t, Name) and t == "{":
                self.stack.append(self.proc(it))
            elif isinstance(t, Name) and t == "}":
                raise PSError("syntaxerror: }")
            else:
                self.exec_obj(t)
        return self

    def proc(self, it):
        out = []
        for t in it:
            if isinstance(t, Name) and t == "{":
                out.append(self.proc(it))
            elif isinstance(t, Name) and t == "}":
                return out
            else:
                out.append(t)
        raise PSError("syntaxerror: unterminated {")

    def exec_obj(self, t):
        self.steps += 1
        if self.steps > self.limit:
            raise PSError("too many steps")
        if isinstance(t, Name):
            v = self.lookup(str(t))
            if v is not None:
                if isinstance(v, list):
                    self.exec_proc(v)
                else:
                    self.stack.append(v)
                return
            f = OPS.get(str(t))
            if f is None:
                raise PSError("undefined: %s" % str(t)[:60])
            f(self)
        else:
            self.stack.append(t)

    def exec_proc(self, p):
        for t in p:
            if isinstance(t, list):
                self.stack.append(t)
            else:
                self.exec_obj(t)

    def moveto(self, x, y):
        self.g.cp = self.g.start = (x, y)
        self.g.shown = False

    def lineto(self, x, y):
        if self.g.cp is None:
            raise PSError("nocurrentpoint")
        self.unstarted += self.g.shown
        self.g.path.append(("L", self.g.cp, (x, y)))
        self.g.cp = (x, y)

    def dev(self, p):
        return (p[0] * self.g.sx + self.g.tx, p[1] * self.g.sy + self.g.ty)


def op_def(i):
    v = i.pop()
    k = i.pop()
    if not isinstance(k, (LitName, PSString)):
        raise PSError("typecheck: def of %r" % (k,))
    i.dicts[-1][str(k)] = v


def op_div(i):
    b, a = i.num(), i.num()
    if b == 0:
        raise PSError("undefinedresult")
    i.stack.append(a / b)


def arith(f):
    def g(i):
        b, a = i.num(), i.num()
        i.stack.append(f(a, b))
    return g


def op_roll(i):
    j, n = int(i.num()), int(i.num())
    if n < 0 or n > len(i.stack):
        raise PSError("stackunderflow")
    if n:
        part = i.stack[-n:]
        j %= n
        i.stack[-n:] = part[-j:] + part[:-j] if j else part


def op_index(i):
    n = int(i.num())
    if n < 0 or n >= len(i.stack):
        raise PSError("stackunderflow")
    i.stack.append(i.stack[-1 - n])


def op_exch(i):
    b, a = i.pop(), i.pop()
    i.stack += [b, a]


def op_dup(i):
    a = i.pop()
    i.stack += [a, a]


def op_moveto(i):
    y, x = i.num(), i.num()
    i.moveto(x, y)
    i.anchor = (x, y)


def op_rmoveto(i):
    y, x = i.num(), i.num()
    if i.g.cp is None:
        raise PSError("nocurrentpoint")
    i.moveto(i.g.cp[0] + x, i.g.cp[1] + y)


def op_lineto(i):
    y, x = i.num(), i.num()
    i.lineto(x, y)


def op_rlineto(i):
    y, x = i.num(), i.num()
    if i.g.cp is None:
        raise PSError("nocurrentpoint")
    i.lineto(i.g.cp[0] + x, i.g.cp[1] + y)


def op_arc(i, neg=False):
    a1, a0, r, y, x = i.num(), i.num(), i.num(), i.num(), i.num()
    if r < 0:
        raise PSError("rangecheck: arc radius")
    if neg:
        while a1 > a0:
            a1 -= 360
    else:
        while a1 < a0:
            a1 += 360
    p0 = (x + r * math.cos(math.radians(a0)), y + r * math.sin(math.radians(a0)))
    p1 = (x + r * math.cos(math.radians(a1)), y + r * math.sin(math.radians(a1)))
    if i.g.cp is not None:
        i.unstarted += i.g.shown
        i.g.path.append(("L", i.g.cp, p0))
    else:
        i.g.start = p0
    i.g.path.append(("A", x, y, r, min(a0, a1), max(a0, a1)))
    i.g.cp = p1


def op_newpath(i):
    i.g.path, i.g.cp, i.g.start, i.g.shown = [], None, None, False


def op_closepath(i):
    if i.g.cp is not None and i.g.start is not None:
        if i.g.cp != i.g.start:
            i.g.path.append(("L", i.g.cp, i.g.start))
        i.g.cp = i.g.start


def op_stroke(i):
    if i.g.path:
        i.page.pens.add(round(i.g.width * (abs(i.g.sx * i.g.sy)) ** .5, 6))
    for e in i.g.path:
        if e[0] == "L":
            i.page.segs.append((i.dev(e[1]), i.dev(e[2])))
        else:
            c = i.dev((e[1], e[2]))
            i.page.arcs.append((c[0], c[1], e[3] * i.g.sx, e[4], e[5]))
    op_newpath(i)


def op_show(i):
    s = i.pop(PSString)
    if i.g.font is None:
        raise PSError("invalidfont")
    if i.g.cp is None:
        raise PSError("nocurrentpoint")
    p = i.dev(i.g.cp)
    if str(s):
        i.page.fonts.add((i.g.font.name, round(i.g.font.size * i.g.sx, 6)))
    i.page.texts.append((p[0], p[1], str(s), i.g.font.size))
    a = i.dev(i.anchor) if i.anchor else p
    i.page.anchors.append(a)
    w = COURIER_ADV * i.g.font.size * len(s)
    i.g.cp = (i.g.cp[0] + w, i.g.cp[1])
    i.g.shown = True


def op_stringwidth(i):
    s = i.pop(PSString)
    if i.g.font is None:
        raise PSError("invalidfont")
    i.stack += [COURIER_ADV * i.g.font.size * len(s), 0.0]


def op_showpage(i):
    i.page.size = i.pagesize
    i.pages.append(i.page)
    i.page = Page()
    op_newpath(i)
    f = i.g.font
    i.g = State()
    i.g.font = f


def op_setpagedevice(i):
    d = i.pop(dict)
    if "PageSize" in d:
        i.pagesize = tuple(d["PageSize"])
    # resets the graphics state, keeping the font is what stl-to-ps relies on
    f = i.g.font
    i.g = State()
    i.g.font = f


def op_dictend(i):
    out = {}
    items = []
    while True:
        v = i.pop()
        if isinstance(v, Mark):
            break
        items.append(v)
    items.reverse()
    if len(items) % 2:
        raise PSError("rangecheck: dict")
    for k in range(0, len(items), 2):
        out[str(items[k])] = items[k + 1]
    i.stack.append(out)


def op_arrend(i):
    items = []
    while True:
        v = i.pop()
        if isinstance(v, Mark):
            break
        items.append(v)
    items.reverse()
    i.stack.append(tuple(items))


def op_findfont(i):
    n = i.pop()
    if not isinstance(n, (LitName, PSString)):
        raise PSError("typecheck: findfont")
    if str(n) not in ("Courier", "Courier-Bold"):
        raise PSError("invalidfont: " + str(n))
    i.stack.append(Font(1.0, str(n)))


def op_scalefont(i):
    s = i.num()
    f = i.pop(Font)
    i.stack.append(Font(f.size * s, f.name))


def op_selectfont(i):
    s = i.num()
    i.g.font = Font(s, str(i.pop()))


def op_setfont(i):
    i.g.font = i.pop(Font)


def op_currentfont(i):
    if i.g.font is None:
        raise PSError("invalidfont")
    i.stack.append(i.g.font)


def op_begin(i):
    d = i.pop()
    if isinstance(d, Font):
        d = {"FontBBox": None, "__font": d}
        d["FontBBox"] = _BBox()
    if not isinstance(d, dict):
        raise PSError("typecheck: begin")
    i.dicts.append(d)


class _BBox:
    pass


def op_end(i):
    if len(i.dicts) <= 2:
        raise PSError("dictstackunderflow")
    i.dicts.pop()


_orig_exec = Interp.exec_obj


def exec_obj(self, t):
    # FontBBox is an executable array: naming it pushes its four numbers
    if isinstance(t, Name) and isinstance(self.lookup(str(t)), _BBox):
        self.stack += list(COURIER_BBOX)
        return
    _orig_exec(self, t)


Interp.exec_obj = exec_obj


def op_gsave(i):
    i.gsave.append(i.g.copy())


def op_grestore(i):
    if i.gsave:
        i.g = i.gsave.pop()


def op_get(i):
    k = i.pop()
    c = i.pop()
    try:
        if isinstance(c, Font) and str(k) == "FontBBox":
            i.stack.append(tuple(COURIER_BBOX))
        elif isinstance(c, dict):
            i.stack.append(c[str(k)])
        else:
            i.stack.append(c[int(k)])
    except (KeyError, IndexError, ValueError, TypeError):
        raise PSError("rangecheck: get")


def op_aload(i):
    a = i.pop()
    if not isinstance(a, (tuple, list)):
        raise PSError("typecheck: aload")
    i.stack += list(a) + [a]


def op_if(i):
    p, c = i.pop(), i.pop()
    if not isinstance(c, bool):
        raise PSError("typecheck: if")
    if c:
        i.exec_proc(p)


def op_ifelse(i):
    q, p, c = i.pop(), i.pop(), i.pop()
    if not isinstance(c, bool):
        raise PSError("typecheck: ifelse")
    i.exec_proc(p if c else q)


def op_exec(i):
    p = i.pop()
    if isinstance(p, list):
        i.exec_proc(p)
    else:
        i.stack.append(p)


def op_translate(i):
    y, x = i.num(), i.num()
    i.g.tx += x * i.g.sx
    i.g.ty += y * i.g.sy


def op_setlinewidth(i):
    i.g.width = i.num()


def unary(f):
    def g(i):
        i.stack.append(f(i.num()))
    return g


def sink(n):
    def g(i):
        for _ in range(n):
            i.num()
    return g


OPS = {
    "def": op_def, "dup": op_dup, "pop": lambda i: i.pop(), "exch": op_exch,
    "add": arith(lambda a, b: a + b), "sub": arith(lambda a, b: a - b),
    "mul": arith(lambda a, b: a * b), "div": op_div, "roll": op_roll,
    "index": op_index, "neg": unary(lambda a: -a), "abs": unary(abs),
    "moveto": op_moveto, "rmoveto": op_rmoveto, "lineto": op_lineto,
    "rlineto": op_rlineto, "arc": op_arc, "arcn": lambda i: op_arc(i, True),
    "newpath": op_newpath, "closepath": op_closepath, "stroke": op_stroke,
    "show": op_show, "stringwidth": op_stringwidth, "showpage": op_showpage,
    "setpagedevice": op_setpagedevice,
    "<<": lambda i: i.stack.append(Mark()), "[": lambda i: i.stack.append(Mark()),
    "mark": lambda i: i.stack.append(Mark()),
    ">>": op_dictend, "]": op_arrend, "findfont": op_findfont,
    "scalefont": op_scalefont, "setfont": op_setfont, "selectfont": op_selectfont,
    "currentfont": op_currentfont, "begin": op_begin, "end": op_end,
    "gsave": op_gsave, "grestore": op_grestore, "get": op_get, "aload": op_aload,
    "if": op_if, "ifelse": op_ifelse, "exec": op_exec, "bind": lambda i: None,
    "translate": op_translate, "setlinewidth": op_setlinewidth,
    "setgray": sink(1), "setlinecap": sink(1), "setlinejoin": sink(1),
    "setrgbcolor": sink(3), "true": lambda i: i.stack.append(True),
    "false": lambda i: i.stack.append(False), "null": lambda i: i.stack.append(None),
    "dict": lambda i: (i.num(), i.stack.append({})),
}


def interpret(src):
    """Returns (pages, interp). Raises PSError."""
    i = Interp()
    i.run(src)
    return i.pages, i
