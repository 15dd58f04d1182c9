"""Mechanical extraction of Rust items from /repo for Verus.

Nothing in here knows about any particular property.  A *unit* (see proofs/)
lists items of /repo by path; on every run the text of each item is cut out of
the current source, comments and the declared droppable constructs are removed,
contracts are spliced in (between signature and body, at loop heads and at
declared proof points) and the result is printed as one Verus file.

The only things changed in an executable body are the `rewrites` declared on
the unit; they are regular expressions, are listed with a reason, and are
reported in the evidence file together with how often each one fired.
"""
import os, re

REPO = os.environ.get("VERIF_REPO", "/repo")


class Lost(Exception):
    """An anchor (item, loop, ...) is not where the unit expects it."""


# --------------------------------------------------------------------------
# lexing helpers
# --------------------------------------------------------------------------
def strip_comments(s):
    out, i, n = [], 0, len(s)
    while i < n:
        c = s[i]
        if s.startswith("//", i):
            j = s.find("\n", i)
            i = n if j < 0 else j
            continue
        if s.startswith("/*", i):
            d, i = 1, i + 2
            while i < n and d:
                if s.startswith("/*", i):
                    d += 1; i += 2
                elif s.startswith("*/", i):
                    d -= 1; i += 2
                else:
                    i += 1
            out.append(" ")
            continue
        j = skip_literal(s, i)
        if j > i:
            out.append(s[i:j]); i = j
            continue
        out.append(c); i += 1
    return "".join(out)


def skip_literal(s, i):
    """If a string/char literal starts at i return its end, else i."""
    n = len(s)
    c = s[i]
    m = re.compile(r'b?r(#*)"').match(s, i)
    if m and (i == 0 or not (s[i - 1].isalnum() or s[i - 1] == "_")):
        end = s.find('"' + m.group(1), m.end())
        return n if end < 0 else end + 1 + len(m.group(1))
    if c == '"':
        j = i + 1
        while j < n and s[j] != '"':
            j += 2 if s[j] == "\\" else 1
        return j + 1
    if c == "'":
        m = re.compile(r"'(\\x[0-9a-fA-F]{2}|\\u\{[0-9a-fA-F_]+\}|\\.|[^\\'])'", re.S).match(s, i)
        if m:
            return m.end()
    return i


OPEN, CLOSE = "([{", ")]}"


def match_close(s, i):
    """s[i] is an opening bracket; index just past its partner."""
    d, n = 0, len(s)
    while i < n:
        j = skip_literal(s, i)
        if j > i:
            i = j
            continue
        if s[i] in OPEN:
            d += 1
        elif s[i] in CLOSE:
            d -= 1
            if d == 0:
                return i + 1
        i += 1
    raise Lost("unbalanced brackets")


def find_at_depth0(s, i, chars):
    """first index >= i of one of chars outside (), [], {} (chars win over brackets)."""
    n = len(s)
    while i < n:
        j = skip_literal(s, i)
        if j > i:
            i = j
            continue
        if s[i] in chars:
            return i
        if s[i] in OPEN:
            i = match_close(s, i)
            continue
        i += 1
    return -1


def norm(s):
    return re.sub(r"\s+", " ", s).strip()


# --------------------------------------------------------------------------
# items
# --------------------------------------------------------------------------
ITEM_KW = re.compile(
    r"(?:(?:pub(?:\s*\([^)]*\))?)\s+)?(?:default\s+)?(?:const\s+(?=fn|unsafe|async))?(?:async\s+)?(?:unsafe\s+)?(?:extern\s+\"[^\"]*\"\s+)?"
    r"(macro_rules!|(?:fn|struct|enum|trait|impl|mod|const|static|type|use|union)\b)")


class Item:
    def __init__(self, kind, name, text, attrs, header, body):
        self.kind, self.name, self.text, self.attrs = kind, name, text, attrs
        self.header, self.body = header, body      # body without outer braces (or None)

    def __repr__(self):
        return f"<{self.kind} {self.name}>"


def parse_items(s):
    """Top-level items of a (comment free) source text."""
    items, i, n = [], 0, len(s)
    attrs = []
    while i < n:
        if s[i].isspace() or s[i] == ";":
            i += 1
            continue
        if s[i] == "#":
            j = i + 1
            if j < n and s[j] == "!":
                j += 1
            while s[j].isspace():
                j += 1
            e = match_close(s, j)
            attrs.append(s[i:e]); i = e
            continue
        m = ITEM_KW.match(s, i)
        if not m:
            # macro invocation or associated junk: skip to end of statement/braces
            j = find_at_depth0(s, i, "{;(")
            if j < 0:
                break
            e = j + 1 if s[j] == ";" else match_close(s, j)
            items.append(Item("macro", norm(s[i:j]), s[i:e], attrs, s[i:j], s[j:e])); attrs = []
            i = e
            continue
        kw = m.group(1)
        if kw == "macro_rules!":
            j = s.index("{", i)
            e = match_close(s, j)
            nm = s[m.end():j].strip()
            items.append(Item("macro_rules", nm, s[i:e], attrs, s[i:j], s[j + 1:e - 1])); attrs = []
            i = e
            continue
        if kw in ("use", "const", "static", "type"):
            j = find_at_depth0(s, i, ";")
            e = j + 1
            nm = re.match(r"\s*(?:mut\s+)?(\w+)", s[m.end():e])
            items.append(Item(kw, nm.group(1) if nm else "", s[i:e], attrs, s[i:e], None)); attrs = []
            i = e
            continue
        j = find_at_depth0(s, m.end(), "{;")
        if j < 0:
            break
        if s[j] == ";":
            e, body, header = j + 1, None, s[i:j]
        else:
            e = match_close(s, j)
            body, header = s[j + 1:e - 1], s[i:j]
        if kw == "impl":
            nm = norm(header)
        else:
            nm = re.match(r"\s*(\w+)", s[m.end():]).group(1)
        items.append(Item(kw, nm, s[i:e], attrs, header, body)); attrs = []
        i = e
    return items


_cache = {}


def load(path):
    p = os.path.join(REPO, path)
    if p not in _cache:
        try:
            with open(p, encoding="utf-8") as f:
                src = f.read()
        except OSError as e:
            raise Lost(f"{path}: {e}")
        _cache[p] = parse_items(strip_comments(src))
    return _cache[p]


def _is_test(it):
    return any(re.search(r"cfg\s*\(\s*test|#\[\s*test|tokio::test", a) for a in it.attrs)


def find(path, *route):
    """route elements: 'fn name' | 'struct X' | ... | 'impl <regex on normalised header>'"""
    items = load(path)
    it = None
    for r in route:
        kind, _, name = r.partition(" ")
        if kind == "macro_expand":
            items = expand_macro(items, path, name)
            continue
        cands = []
        for x in items:
            if _is_test(x) or x.kind != kind:
                continue
            if kind == "impl":
                if re.search(name, x.name):
                    cands.append(x)
            elif x.name == name:
                cands.append(x)
        if not cands:
            raise Lost(f"{path}: no `{r}`")
        if len(cands) > 1 and kind == "impl" and r != route[-1]:
            # several matching impl blocks: search all of them
            merged = []
            for c in cands:
                merged += parse_items(c.body or "")
            items = merged
            it = cands[0]
            continue
        if len(cands) > 1:
            # cfg alternatives: prefer those enabled for the tested configuration
            on = [c for c in cands if cfg_on(c.attrs)]
            cands = on or cands
        it = cands[0]
        items = parse_items(it.body) if it.body is not None and it.kind in ("impl", "trait", "mod") else []
    return it


def expand_macro(items, path, what):
    """`name k=v,k=v`: instantiate the single repetition of a macro_rules body"""
    name, _, sub = what.partition(" ")
    name, _, nth = name.partition("#")          # name#2: the second definition of that name in the file
    c = [x for x in items if x.kind == "macro_rules" and x.name == name]
    if len(c) < int(nth or 1):
        raise Lost(f"{path}: no macro_rules {name}")
    b = c[int(nth or 1) - 1].body
    m = re.search(r"=>\s*\{\s*\$\(", b)
    if m:
        e = match_close(b, m.end() - 1)
        t = b[m.end():e - 1]
    else:                                       # a body without repetition
        m = re.search(r"=>\s*\{", b)
        if not m:
            raise Lost(f"{path}: macro {name} has another shape")
        e = match_close(b, m.end() - 1)
        t = b[m.end():e - 1]
    for kv in [x for x in re.split(r",(?=\w+=)", sub) if x]:
        k, _, v = kv.partition("=")
        t = re.sub(r"\$" + k + r"\b", lambda m: v, t)
    if "$" in t:
        raise Lost(f"{path}: macro {name}: unexpanded metavariable")
    return parse_items(t)


def macro_args(path, name):
    """argument lists of the invocations of a macro, split at top-level commas"""
    res = []
    for x in load(path):
        if x.kind == "macro" and x.name.rstrip(" ").rstrip("!") == name and not _is_test(x):
            res.append([norm(a) for a in re.split(r",(?![^|]*\|(?:[^|]*\|[^|]*\|)*[^|]*$)", x.body[1:-1]) if a.strip()])
    return res


FEATURES = {"tokio_io", "default"}


def cfg_on(attrs):
    for a in attrs:
        m = re.search(r"#\[\s*cfg\s*\((.*)\)\s*\]", a, re.S)
        if m and not cfg_eval(norm(m.group(1))):
            return False
    return True


def cfg_eval(c):
    c = c.strip()
    m = re.match(r'^feature\s*=\s*"([^"]*)"$', c)
    if m:
        return m.group(1) in FEATURES
    m = re.match(r"^not\s*\((.*)\)$", c)
    if m:
        return not cfg_eval(m.group(1))
    m = re.match(r"^(any|all)\s*\((.*)\)$", c)
    if m:
        parts = [p for p in re.split(r",(?![^()]*\))", m.group(2)) if p.strip()]
        f = any if m.group(1) == "any" else all
        return f(cfg_eval(p) for p in parts)
    return c == "unix" or c.startswith("target_os = \"linux\"")


# --------------------------------------------------------------------------
# functions with contracts
# --------------------------------------------------------------------------
LOOP = re.compile(r"\b(while|for|loop)\b")


def loops_of(body):
    """[(kw_pos, brace_pos, end_pos, header)] in textual order, `for<'a>`/`impl..for` excluded."""
    res, i, n = [], 0, len(body)
    while i < n:
        j = skip_literal(body, i)
        if j > i:
            i = j
            continue
        m = LOOP.match(body, i)
        if m and (i == 0 or not (body[i - 1].isalnum() or body[i - 1] in "_")):
            k = m.end()
            if m.group(1) == "for" and re.match(r"\s*<", body[k:]):
                i = k
                continue
            b = find_at_depth0(body, k, "{")
            if b < 0:
                raise Lost("loop without body")
            e = match_close(body, b)
            res.append((i, b, e, norm(body[i:b])))
            i = k
            continue
        if body[i].isalnum() or body[i] == "_":
            while i < n and (body[i].isalnum() or body[i] == "_"):
                i += 1
            continue
        i += 1
    return res


def split_sig(header):
    """header 'pub fn f<T>(a: A) -> R where W' -> (prefix 'fn f<T>(a: A)', ret or None, where or '')"""
    h = header
    h = re.sub(r"^\s*pub(\s*\([^)]*\))?\s+", "", h.strip())
    m = re.search(r"\bfn\s+\w+", h)
    i = m.end()
    if h[i:].lstrip().startswith("<"):
        i = h.index("<", i)
        d = 0
        while True:
            if h[i] == "<":
                d += 1
            elif h[i] == ">" and h[i - 1] != "-":
                d -= 1
                if d == 0:
                    i += 1
                    break
            i += 1
    p = h.index("(", i)
    e = match_close(h, p)
    prefix, rest = h[:e], h[e:].strip()
    where = ""
    m = re.search(r"(?:^|\s)where\b", rest)
    if m:
        where = rest[m.start():].strip()
        rest = rest[:m.start()].strip()
    ret = rest[2:].strip() if rest.startswith("->") else None
    return prefix, ret, where


LOG = re.compile(r"(?<![\w:])(?:log::)?(trace|debug|info|warn|error)!\s*(?=[(\[{])")


def drop_logging(s, notes):
    while True:
        m = LOG.search(s)
        if not m:
            return s
        e = match_close(s, m.end())
        k = e
        while k < len(s) and s[k].isspace():
            k += 1
        if k < len(s) and s[k] == ";":
            s = s[:m.start()] + s[k + 1:]
        else:
            s = s[:m.start()] + "()" + s[e:]
        notes["drop logging macros (trace!/debug!/info!/warn!/error!): no effect on values"] = \
            notes.get("drop logging macros (trace!/debug!/info!/warn!/error!): no effect on values", 0) + 1


def drop_cfg_blocks(s, notes):
    """statement-level #[cfg(..)] { .. } / #[cfg(..)] stmt;"""
    key = "resolve #[cfg(feature..)] for the tested configuration (default features)"
    while True:
        m = re.search(r"#\[\s*cfg\s*\(", s)
        if not m:
            break
        a = s.index("[", m.start())
        e = match_close(s, a)
        attr = s[m.start():e]
        k = e
        while s[k].isspace():
            k += 1
        if s[k] == "{":
            end = match_close(s, k)
        else:
            end = find_at_depth0(s, k, ";,") + 1
        notes[key] = notes.get(key, 0) + 1
        if cfg_on([attr]):
            s = s[:m.start()] + s[k:]
        else:
            s = s[:m.start()] + s[end:]
    s = re.sub(r"#\[\s*(inline|allow|must_use|cold|doc)[^\]]*\]", "", s)
    return s


class Fn:
    """Contracted extraction of one function.

    spec   contract text (requires/ensures/decreases ...)
    ret    name of the result in the contract
    loops  list of dicts {head: regex, spec: text, start:, end:}; the function must have
           exactly these loops (in order), otherwise the anchor is lost
    hints  [(where, regex, text)], where in before|after|start|end; optional proof text
    sig    (optional) list of (regex, repl) applied to the signature
    """

    def __init__(self, path, *route, ret="r", spec="", loops=(), hints=(), sig=(), rewrites=(),
                 attrs="", rename=None, vis="", keep_where=True, any_loops=False, group=None, trusted=False,
                 selfspec=None):
        self.path, self.route, self.ret, self.spec = path, route, ret, spec
        self.loops, self.hints, self.sig, self.rewrites = loops, hints, sig, rewrites
        self.attrs, self.rename, self.vis, self.keep_where = attrs, rename, vis, keep_where
        self.any_loops = any_loops
        self.trusted = trusted
        self.qual = path + " :: " + " :: ".join(route)

    def render(self, unit, stub=False, smoke=False):
        """stub: contract only (external_body); smoke: vacuity probe, body starts with assert(false)"""
        it = find(self.path, *self.route)
        if stub:
            return self.render_stub(unit, it)
        notes = unit.notes
        header, body = it.header, it.body
        if body is None:
            raise Lost(self.qual + ": no body")
        body = drop_cfg_blocks(drop_logging(body, notes), notes)
        for pat, rep, why in list(self.rewrites) + list(unit.rewrites):
            body, k = re.subn(pat, rep, body, flags=re.S)
            if k:
                notes[why] = notes.get(why, 0) + k
        prefix, ret, where = self.signature(unit, header, notes)
        # loops
        ls = loops_of(body)
        if not self.any_loops:
            if len(ls) != len(self.loops):
                raise Lost(f"{self.qual}: {len(ls)} loops, contract has {len(self.loops)}")
            for (p, b, e, head), spec in zip(ls, self.loops):
                if not re.search(spec["head"], head):
                    raise Lost(f"{self.qual}: loop head `{head}` does not match /{spec['head']}/")
        edits = []   # (pos, text)
        if not self.any_loops:
            for (p, b, e, head), spec in zip(ls, self.loops):
                edits.append((b, "\n        " + spec.get("spec", "").strip() + "\n    "))
                if spec.get("attrs"):
                    edits.append((p, spec["attrs"] + "\n    "))
                if spec.get("start"):
                    edits.append((b + 1, "\n" + spec["start"] + "\n"))
                if spec.get("end"):
                    edits.append((e - 1, "\n" + spec["end"] + "\n"))
                if spec.get("after"):
                    edits.append((e, "\n" + spec["after"] + "\n"))
                if spec.get("before"):
                    edits.append((p, spec["before"] + "\n    "))
        for where_, pat, text in self.hints:
            if where_ == "start":
                edits.append((0, "\n" + text + "\n"))
                continue
            if where_ == "end":
                edits.append((len(body), "\n" + text + "\n"))
                continue
            m = re.search(pat, body, flags=re.S)
            if not m:
                unit.lost_hints.append(f"{self.qual}: /{pat}/")
                continue
            edits.append((m.start() if where_ == "before" else m.end(), "\n" + text + "\n"))
        for pos, text in sorted(edits, key=lambda x: -x[0]):
            body = body[:pos] + text + body[pos:]
        r = f" -> ({self.ret}: {ret})" if ret else ""
        if ret and ret.startswith("impl "):
            r = f" -> {ret}"
        w = ("\n    " + where) if where and self.keep_where else ""
        spec = self.spec.strip()
        unit.fns.append(self.qual)
        if smoke:
            body = "\n proof { assert(false); }\n" + body
        out = (f"{self.attrs}\n" if self.attrs else "") + f"{self.vis} {prefix}{r}{w}\n    {spec}\n{{{body}}}\n"
        return out


    def signature(self, unit, header, notes):
        header = drop_cfg_blocks(header, notes)
        for pat, rep, why in list(self.sig) + list(unit.sig_rewrites):
            header, k = re.subn(pat, rep, header, flags=re.S)
            if k:
                notes[why] = notes.get(why, 0) + k
        prefix, ret, where = split_sig(header)
        if self.rename:
            prefix = re.sub(r"\bfn\s+\w+", "fn " + self.rename, prefix, count=1)
        return prefix, ret, where

    def render_stub(self, unit, it):
        prefix, ret, where = self.signature(unit, it.header, {})
        if ret and ret.startswith("impl "):
            r = f" -> {ret}"
        else:
            r = f" -> ({self.ret}: {ret})" if ret else ""
        w = ("\n    " + where) if where and self.keep_where else ""
        spec = re.sub(r"\bdecreases\b[^;]*$", "", self.spec.strip())
        prefix = re.sub(r"(?<=[(,\s])mut\s+(?=\w+\s*[:,)])", "", prefix)
        return f"// by contract: {self.qual}\n#[verifier::external_body]\n{self.vis} {prefix}{r}{w}\n    {spec}\n{{ unimplemented!() }}\n"


class Unit:
    def __init__(self, name, rewrites=(), sig_rewrites=()):
        self.name, self.pieces = name, []
        self.rewrites, self.sig_rewrites = list(rewrites), list(sig_rewrites)
        self.notes, self.fns, self.lost_hints = {}, [], []
        self.uses = []

    def text(self, t):
        self.pieces.append(t)

    def fn(self, *a, **k):
        self.pieces.append(Fn(*a, **k))

    def item(self, path, *route, rewrites=(), attrs=""):
        """struct / enum / const copied with derives and attributes removed"""
        self.pieces.append(("item", path, route, rewrites, attrs))

    def open(self, t):
        self.pieces.append(t + " {\n")

    def close(self):
        self.pieces.append("}\n")

    def quals(self):
        return [p.qual for p in self.pieces if isinstance(p, Fn)]

    def render(self, owned=None, stubs=(), smoke=False):
        """owned: predicate on the qualified name; functions it rejects, and those in `stubs`, are
        emitted as contract-only stubs.  A function whose anchors are lost becomes a stub too and is
        listed in self.lost."""
        self.notes, self.fns, self.lost_hints, self.lost = {}, [], [], {}
        out, spans = [], []
        line = 1
        for p in self.pieces:
            q = None
            if isinstance(p, str):
                t = p + "\n"
            elif isinstance(p, Fn):
                q = p.qual
                own = owned is None or owned(q)
                try:
                    t = p.render(self, stub=not own or q in stubs, smoke=smoke)
                except Lost as e:
                    if own:
                        self.lost[q] = str(e)
                    try:
                        t = p.render(self, stub=True)
                    except Lost as e:
                        t = ""
            else:
                _, path, route, rw, attrs = p
                try:
                    it = find(path, *route)
                except Lost as e:
                    self.lost["item " + str(e)] = str(e)
                    continue
                t = it.text
                t = re.sub(r"#\[[^\]]*\]", "", t)
                t = re.sub(r"pub\s*\((crate|super|in [^)]*)\)", "pub", t)
                for pat, rep, why in list(rw) + list(self.rewrites):
                    t, k = re.subn(pat, rep, t, flags=re.S)
                    if k:
                        self.notes[why] = self.notes.get(why, 0) + k
                t = (attrs + "\n" if attrs else "") + t + "\n"
            nl = t.count("\n")
            if q:
                spans.append((line, line + nl, q))
            out.append(t)
            line += nl
        return "".join(out), spans
