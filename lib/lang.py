"""Reference lexer and parser for the script language, written from the grammar
as a user sees it.  Scripts are latin-1 strings (one character per byte)."""
import re

import numpy as np

PUNCT = set("{}[]()=;:,@")
KEYWORDS = {"angle", "dia", "dim", "draw", "load", "page", "rad", "text"}
ID = re.compile(r"[a-zA-Z_][a-zA-Z0-9_]*")
NUM = re.compile(r"[-+]?([0-9]+(\.[0-9]*)?|\.[0-9]+)")
STR = re.compile(r'"([^"\\\n]|\\[\'"?\\n])*"')
COMMENT = re.compile(r"//[^\n]*")


class Reject(Exception):
    def __init__(self, lines):
        self.lines = lines      # acceptable line numbers


class Tok:
    __slots__ = ("k", "s", "line")

    def __init__(self, k, s, line):
        self.k, self.s, self.line = k, s, line


def finite(s):
    with np.errstate(over="ignore"):
        return bool(np.isfinite(np.float32(s)))


def lex(src):
    """Yields Tok; kinds: punctuation itself, keyword itself, ID NUM STR BAD EOF."""
    i, line, last = 0, 1, 1
    n = len(src)
    while i < n:
        c = src[i]
        if c == "\n":
            line += 1
            i += 1
            continue
        if c in " \t\r":
            i += 1
            continue
        m = COMMENT.match(src, i)
        if m:
            i = m.end()
            continue
        if c in PUNCT:
            yield Tok(c, c, line)
            i += 1
            last = line
            continue
        for k, r in (("ID", ID), ("NUM", NUM), ("STR", STR)):
            m = r.match(src, i)
            if m:
                s = m.group()
                kk = k
                if k == "ID" and s in KEYWORDS:
                    kk = s
                if k == "NUM" and not finite(s):
                    kk = "BAD"
                yield Tok(kk, s, line)
                i = m.end()
                last = line
                break
        else:
            yield Tok("BAD", c, line)
            i += 1
            last = line
    e = Tok("EOF", "", range(last, line + 1))
    yield e


class Parser:
    def __init__(self, src):
        self.it = lex(src)
        self.t = next(self.it)
        self.count = 0
        self.stmts = 0

    def fail(self):
        l = self.t.line
        raise Reject(set(l) if isinstance(l, range) else {l})

    def next(self):
        t = self.t
        self.t = next(self.it)
        self.count += 1
        return t

    def want(self, k):
        if self.t.k != k:
            self.fail()
        return self.next()

    def document(self):
        while True:
            if self.t.k == "load":
                self.next()
                self.want("ID"), self.want("="), self.want("STR"), self.want(";")
            elif self.t.k == "page":
                self.next()
                self.want("{")
                self.parts()
            elif self.t.k == "EOF":
                return
            else:
                self.fail()
            self.stmts += 1

    def parts(self):
        while True:
            if self.t.k == "draw":
                self.next()
                self.want("ID"), self.want("{")
                self.draw()
            elif self.t.k == "text":
                self.next()
                self.want("[")
                self.want("STR")
                while self.t.k == "STR":
                    self.next()
                self.want("]"), self.want("{")
                while self.t.k != "}":
                    self.arg()
                    self.want(";")
                self.next()
            elif self.t.k == "}":
                self.next()
                return
            else:
                self.arg()
                self.want(";")

    def draw(self):
        while True:
            if self.t.k == "}":
                self.next()
                return
            if self.t.k in ("angle", "dia", "dim", "rad"):
                self.next()
                self.want("(")
                if self.t.k != ")":
                    self.arg()
                    while self.t.k == ",":
                        self.next()
                        self.arg()
                self.want(")"), self.want(";")
            else:
                self.arg()
                self.want(";")

    def arg(self):
        if self.t.k == "@":
            self.next()
            self.want("["), self.want("NUM"), self.want(","), self.want("NUM"), self.want("]")
            return
        first = self.want("ID")
        self.want("=")
        if self.t.k == "STR":
            while self.t.k == "STR":
                self.next()
        elif self.t.k == "NUM":
            a = self.next()
            if self.t.k == ":":
                self.next()
                b = self.want("NUM")
                for x in (a, b):
                    v = float(np.float32(x.s))
                    if v != int(v) or abs(v) > 2 ** 24:
                        raise Reject({first.line})
        elif self.t.k == "[":
            self.next()
            self.want("NUM"), self.want(","), self.want("NUM")
            if self.t.k == ",":
                self.next()
                self.want("NUM")
            self.want("]")
        elif self.t.k == "ID":
            self.point()
        else:
            self.fail()

    def point(self):
        depth = 0
        while self.t.k == "ID":
            self.next()
            self.want("(")
            depth += 1
        self.want("["), self.want("NUM"), self.want(","), self.want("NUM")
        self.want(","), self.want("NUM"), self.want("]")
        for _ in range(depth):
            self.want(")")


def check(src):
    """-> (None, parser) if accepted, (set of acceptable error lines, parser)."""
    p = None
    try:
        p = Parser(src)
        p.document()
        return None, p
    except Reject as e:
        return e.lines, p
