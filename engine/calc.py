"""The calculator's front end as tables: the lexer's rules, the parser's automaton and its actions, read from the grammar files."""
import os, re, shutil, subprocess, tempfile
import xml.etree.ElementTree as ET
from . import build
from .absint import Undecided


class Lexer:
    """rules of the lexer: longest match, first rule"""

    def __init__(self, path):
        s = open(path).read().split("%%")
        if len(s) < 2:
            raise build.BuildError("no rules in the lexer")
        self.rules = []
        for l in s[1].split("\n"):
            if not l.strip() or l[0] in " \t":
                continue
            i, br, q = 0, False, False
            while i < len(l):
                c = l[i]
                if c == "\\":
                    i += 1
                elif q:
                    q = c != '"'
                elif br:
                    br = c != "]"
                elif c == "[":
                    br = True
                elif c == '"':
                    q = True
                elif c in " \t":
                    break
                i += 1
            pat, act = l[:i], re.sub(r"/\*.*?\*/", "", l[i:]).strip()
            if act.startswith("{") and act.endswith("}"):
                act = act[1:-1].strip()
            state = None
            m = re.match(r"<(\w+)>", pat)
            if m:
                state, pat = m[1], pat[m.end():]
            pat = re.sub(r'"((?:[^"\\]|\\.)*)"', lambda m: re.escape(m[1]), pat)
            try:
                self.rules.append((state, re.compile(pat, re.M), act.split("//")[0].strip()))
            except re.error:
                raise Undecided("lexer pattern " + pat)

    def tokens(self, text, easy=False):
        """[(token, function for its value or None, text)]"""
        out, i, state = [], 0, None
        while i < len(text):
            best = None
            for st, p, act in self.rules:
                if st != state:
                    continue
                m = p.match(text, i)
                if m and m.end() > i and (best is None or m.end() > best[0]):
                    best = (m.end(), act)
            if best is None:
                raise Undecided("no lexer rule for %r" % text[i])
            s, act = text[i:best[0]], best[1]
            i = best[0]
            m = re.match(r"BEGIN\((\w+)\);?$", act)
            if m:
                state = None if m[1] in ("0", "INITIAL") else m[1]
                continue
            if act in ("", ";"):
                continue
            fn = None
            m = re.match(r"yylval\s*=\s*(\w+)\(yytext\)\s*;\s*", act)
            if m:
                fn, act = m[1], act[m.end():]
            m = re.match(r"if\s*\(\s*option_easy\s*\)\s*return (\w+);$", act)
            if m:
                if easy:
                    out.append((m[1], fn, s))
                continue
            m = re.match(r"return option_easy\s*\?\s*(\w+)\s*:\s*(\w+);$", act)
            if m:
                out.append((m[1] if easy else m[2], fn, s))
                continue
            m = re.match(r"return (\w+);$", act)
            if not m:
                raise Undecided("lexer action " + act)
            out.append((m[1], fn, s))
        return out


class Parser:
    """the LALR automaton that bison makes from the grammar, and the actions of its rules"""

    def __init__(self, path, outdir):
        x = os.path.join(outdir, "parser.xml")
        c = os.path.join(outdir, "parser.tab.c")
        r = subprocess.run(["bison", "-d", "-l", "-Wnone", "--xml=" + x, "-o", c, path], capture_output=True, text=True)
        if r.returncode:
            raise build.BuildError("bison: " + r.stderr[-500:])
        t = ET.parse(x).getroot()
        self.rules = {}
        for e in t.find("grammar/rules"):
            self.rules[int(e.get("number"))] = (e.find("lhs").text, len(e.findall("rhs/symbol")))
        self.states = {}
        for e in t.find("automaton"):
            sh, go, rd = {}, {}, {}
            for k in e.find("actions/transitions"):
                (sh if k.get("type") == "shift" else go)[k.get("symbol")] = int(k.get("state"))
            for k in e.find("actions/reductions"):
                if k.get("enabled") == "true":
                    rd[k.get("symbol")] = k.get("rule")
            self.states[int(e.get("number"))] = (sh, go, rd)
        self.actions = {}
        s = open(c).read()
        # the parser switches on rule numbers that count from one
        for m in re.finditer(r"^  case (\d+): /\* ([^:\n]*):[^\n]*\n\s*\{(.*?)\}\n\s*break;", s, re.M | re.S):
            k = int(m[1]) - 1
            if k not in self.rules or self.rules[k][0] != m[2].strip():
                raise Undecided("rule numbers of the parser")
            self.actions[k] = m[3]
        self.end = '"end of file"' if any('"end of file"' in st[0] or '"end of file"' in st[2] for st in self.states.values()) else "$end"

    def run(self, toks, value, call):
        """toks: [(name, value)]; call(function, arguments) -> value; False on a syntax error"""
        toks = list(toks) + [(self.end, None)]
        stack, vals = [0], [None]
        i = 0
        while True:
            sh, go, rd = self.states[stack[-1]]
            t = toks[i][0] if i < len(toks) else self.end
            if t in sh:
                stack.append(sh[t])
                vals.append(value(toks[i]))
                i += 1
                continue
            r = rd.get(t, rd.get("$default"))
            if r is None:
                return False
            if r == "accept":
                return True
            lhs, n = self.rules[int(r)]
            rhs = vals[len(vals) - n:] if n else []
            v = rhs[0] if n else None
            if int(r) in self.actions:
                v = Action(self.actions[int(r)], rhs, v, call).result
            if n:
                del stack[-n:], vals[-n:]
            stack.append(self.states[stack[-1]][1][lhs])
            vals.append(v)


class Action:
    """statements of an action: assignments and calls on semantic values"""

    def __init__(self, text, rhs, val, call):
        self.t = re.findall(r"yyval|yyvsp\s*\[\s*-?\d+\s*\]|\w+|[()=,;]|\S", re.sub(r"//[^\n]*|/\*.*?\*/", " ", text, flags=re.S))
        self.loc = {}
        self.i, self.rhs, self.result, self.call = 0, rhs, val, call
        while self.i < len(self.t):
            if self.t[self.i] == ";":
                self.i += 1
                continue
            self.declared()
            self.expr()
            self.need(";")

    def peek(self):
        return self.t[self.i] if self.i < len(self.t) else ""

    def need(self, c):
        if self.peek() != c:
            raise Undecided("grammar action %r" % " ".join(self.t))
        self.i += 1

    def declared(self):
        """type name = ... : a local name"""
        j = self.i
        while j < len(self.t) and (re.match(r"[A-Za-z_]\w*$", self.t[j]) or self.t[j] == "*"):
            j += 1
        if j - self.i >= 2 and self.t[j:j + 1] == ["="] and self.t[self.i] != "yyval":
            self.loc[self.t[j - 1]] = None
            self.i = j - 1

    def expr(self):
        c = self.peek()
        if c in ("{", "}"):
            raise Undecided("grammar action %r" % " ".join(self.t))
        if re.match(r"\d+$", c):
            self.i += 1
            return int(c)
        if c in self.loc:
            self.i += 1
            if self.peek() == "=":
                self.i += 1
                self.loc[c] = self.expr()
            return self.loc[c]
        if c == "(" and self.t[self.i + 1:self.i + 3] == ["void", ")"]:
            self.i += 3
            return self.expr()
        if c == "(":
            self.i += 1
            lv = self.peek() == "yyval"
            v = self.expr()
            self.need(")")
            if lv and self.peek() == "=":
                self.i += 1
                v = self.result = self.expr()
            return v
        if c == "yyval":
            self.i += 1
            if self.peek() == "=":
                self.i += 1
                self.result = self.expr()
            return self.result
        m = re.match(r"yyvsp\s*\[\s*(-?\d+)\s*\]", c)
        if m:
            self.i += 1
            k = len(self.rhs) - 1 + int(m[1])
            if not 0 <= k < len(self.rhs):
                raise Undecided("grammar action uses a value that is not there")
            return self.rhs[k]
        if re.match(r"[A-Za-z_]\w*$", c):
            self.i += 1
            self.need("(")
            a = []
            while self.peek() != ")":
                a.append(self.expr())
                if self.peek() == ",":
                    self.i += 1
            self.need(")")
            return self.call(c, a)
        raise Undecided("grammar action %r" % " ".join(self.t))


def front(repo):
    """(lexer, parser, program): the calculator's tables and the IR of what they call"""
    d = tempfile.mkdtemp(prefix="pbccalc.")
    try:
        os.makedirs(os.path.join(d, "pbc"))
        lex = Lexer(os.path.join(repo, "pbc", "parser.lex"))
        par = Parser(os.path.join(repo, "pbc", "parser.y"), d)
        r = subprocess.run(["flex", "-o", os.path.join(d, "lex.yy.c"), "--header-file=" + os.path.join(d, "lex.yy.h"), os.path.join(repo, "pbc", "parser.lex")], capture_output=True, text=True)
        if r.returncode:
            raise build.BuildError("flex: " + r.stderr[-500:])
        # a copy next to the generated headers, which #include "..." finds first
        for f in os.listdir(os.path.join(repo, "pbc")):
            if f.endswith((".c", ".h")) and not f.startswith(("lex.yy", "parser.tab")):
                shutil.copy(os.path.join(repo, "pbc", f), os.path.join(d, f))
        srcs = [os.path.join(d, "pbc.c"), os.path.join(d, "parser.tab.c"), "misc/darray.c", "misc/symtab.c", "misc/memory.c", "arith/field.c"]
        prog = build.load(srcs, api=True)
        for m in prog.mods:
            if m.name == srcs[0]:
                m.name = "pbc/pbc.c"
            elif m.name == srcs[1]:
                m.name = "pbc/parser.y"
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return lex, par, prog
