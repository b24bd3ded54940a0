"""Ring obligations read off the code: the arithmetic of a `let` of the current source is parsed, and the identity with
the expression the contract names becomes a lemma, decided by the verified normaliser of prelude/ring.rs. Any way of
writing the same polynomial expression therefore passes."""
import ast, re


class No(Exception):
    pass


TOK = re.compile(r"\s*(::|\.\.|=>|->|==|!=|<=|>=|&&|\|\||[A-Za-z_]\w*|\d[\w]*|\"(?:[^\"\\]|\\.)*\"|[^\s\w])")


def toks(s):
    o, i = [], 0
    s = s.strip()
    while i < len(s):
        m = TOK.match(s, i)
        if not m:
            raise No("token at " + s[i:i + 20])
        o.append(m.group(1))
        i = m.end()
        while i < len(s) and s[i].isspace():
            i += 1
    return o


# trees: ("+", a, b) ("-", a, b) ("*", a, b) ("neg", a) ("c", n) ("a", text)
class P:
    polys, calls, xt, mids, dens = [], {}, ("a", "x"), None, []

    def __init__(self, s, lets, stop, at, depth=0, like=None):
        self.t, self.i, self.lets, self.stop, self.at, self.depth = toks(s) if isinstance(s, str) else s, 0, lets, stop, at, depth
        self.poly = False       # whether the expression is a polynomial
        if like is not None:
            self.polys, self.calls, self.xt, self.mids, self.dens = like.polys, like.calls, like.xt, like.mids, like.dens

    def atx(self, tree):
        """the value of a polynomial named by the code, at the point"""
        if tree[0] == "a":
            for rx, sp in self.polys:
                m = re.match(rx, tree[1])
                if m:
                    self.poly = True
                    return ("a", m.expand(sp).replace("$x", fexpr(self.xt, lambda v: v)))
        return tree

    def peek(self):
        return self.t[self.i] if self.i < len(self.t) else ""

    def next(self):
        self.i += 1
        return self.t[self.i - 1]

    def expr(self):
        a = self.term()
        while self.peek() in ("+", "-"):
            o = self.next()
            a = (o, a, self.term())
        return a

    def term(self):
        a = self.unary()
        while self.peek() in ("*", "/"):
            if self.next() == "/":
                a = self.quot(a, self.unary())
            else:
                a = ("*", a, self.unary())
        return a

    def quot(self, a, b):
        """a quotient, with the place of the statement it stands in; only where the contract names denominators"""
        if not self.dens:
            raise No("division")
        return ("/", a, b, self.at)

    def unary(self):
        if self.peek() == "-":
            self.next()
            return ("neg", self.unary())
        if self.peek() in ("*", "&"):
            self.next()
            return self.unary()
        return self.postfix()

    def args(self):
        """the text of the arguments of a call; the opening bracket is next"""
        self.next()
        out, cur, d = [], [], 0
        while True:
            if self.i >= len(self.t):
                raise No("bracket")
            x = self.next()
            if x in ("(", "[", "{"):
                d += 1
            elif x in (")", "]", "}"):
                if d == 0:
                    break
                d -= 1
            if x == "," and d == 0:
                out.append(" ".join(cur))
                cur = []
            else:
                cur.append(x)
        if cur:
            out.append(" ".join(cur))
        return out

    def sub(self, s):
        p = P(s, self.lets, self.stop, self.at, self.depth, self)
        r = p.expr()
        if p.i != len(p.t):
            raise No("expression: " + s)
        self.poly |= p.poly
        return r

    def coeffs(self, t):
        """low degree first; the form of lemma_ev1, lemma_ev2, lemma_ev3"""
        xs = [self.sub(y) for y in re.findall(r"__w \. push \((.*?)\) ;", re.sub(r"^.*?Vec :: new \( \) ;", "", t))]
        if not 1 <= len(xs) <= 3:
            raise No("coefficients " + t)
        self.poly = True
        r = xs[0]
        if len(xs) > 1:
            r = ("+", r, ("*", xs[1], self.xt))
        if len(xs) > 2:
            r = ("+", r, ("*", xs[2], ("*", self.xt, self.xt)))
        return r

    def postfix(self):
        return self.atx(self.postfix_())

    def postfix_(self):
        i0 = self.i
        x = self.next() if self.i < len(self.t) else ""
        if x == "(":
            self.i -= 1
            a = self.args()
            if len(a) != 1:
                raise No("tuple")
            tree = self.sub(a[0])
        elif re.match(r"\d", x):
            tree = ("c", int(re.match(r"\d+", x).group(0)))
        elif re.match(r"[A-Za-z_]", x):
            path = x
            while self.peek() == "::":
                self.next()
                path += "::" + self.next()
            if self.peek() == "(":
                a = self.args()
                if path in ("Fr::vfrom", "F::vfrom", "ScalarField::vfrom", "into_fr") and len(a) == 1:
                    s = a[0].strip()
                    m = re.match(r"^-?\s*\(?\s*(\d+)\w*\s*\)?$", s)
                    if m:
                        tree = ("c", int(m.group(1)) * (-1 if s.startswith("-") else 1))
                    else:
                        tree = ("a", path + "(" + norm(s) + ")")
                elif path in ("Mul::mul", "Add::add", "Sub::sub") and len(a) == 2:
                    tree = ({"M": "*", "A": "+", "S": "-"}[path[0]], self.sub(a[0]), self.sub(a[1]))
                elif path in ("Div::div", "VDivQ::vdivq") and len(a) == 2:
                    tree = self.quot(self.sub(a[0]), self.sub(a[1]))
                elif path == "DensePolynomial::from_coefficients_vec" and self.polys and a[0].startswith("{"):
                    tree = self.coeffs(a[0])
                elif path in self.calls:
                    tree = pyexpr(ast.parse(self.calls[path], mode="eval").body, {"ABCDE"[i]: self.sub(y) for i, y in enumerate(a)})
                elif path in ("Fr::zero", "Fr::one", "F::zero", "F::one", "Fr::vdefault") and not a:
                    tree = ("c", 1 if path.endswith("one") else 0)
                else:
                    tree = ("a", path + "(" + ",".join(norm(y) for y in a) + ")")
            else:
                tree = self.var(path)
        else:
            raise No("unexpected " + x)
        while self.peek() in (".", "["):
            if self.next() == "[":
                self.i -= 1
                tree = ("a", self.text(tree) + "[" + ",".join(norm(y) for y in self.args()) + "]")
                continue
            i1 = self.i - 1
            m = self.next()
            if self.peek() == "(":
                a = self.args()
                if m == "evaluate" and self.polys and len(a) == 1:
                    p = P(self.t[i0:i1], self.lets, self.stop, self.at, self.depth + 1, self)
                    p.xt = self.sub(a[0])
                    tree = p.postfix()
                    if tree[0] == "a" and not tree[1].startswith("pe"):
                        tree = ("a", tree[1] + ".evaluate(" + ",".join(norm(y) for y in a) + ")")
                    continue
                if m == "commit_para" and len(a) == 1:
                    tree = self.sub(a[0])
                elif m in ("mul", "add", "sub") and len(a) == 1:
                    tree = ({"mul": "*", "add": "+", "sub": "-"}[m], self.atx(tree), self.sub(a[0]))
                elif m == "mul_by_vanishing_poly" and self.polys and len(a) == 1:
                    tree = ("*", self.atx(tree), ("a", f"zh({norm(a[0])}.n as int, {fexpr(self.xt, lambda v: v)})"))
                elif m in ("vclone", "clone", "into_affine", "into_group", "vinto") and not a:
                    pass
                elif m in ("v_square", "square") and not a:
                    tree = ("*", tree, tree)
                elif m == "v_inverse" and not a and self.dens and re.match(r"^(unwrap|v_unwrap_refuse|expect)$", "".join(self.t[self.i + 1:self.i + 2])):
                    self.next()
                    self.next()
                    self.args()
                    tree = self.quot(("c", 1), tree)
                elif m == "double" and not a:
                    tree = ("+", tree, tree)
                else:
                    tree = ("a", self.text(tree) + "." + m + "(" + ",".join(norm(y) for y in a) + ")")
            else:
                tree = ("a", self.text(tree) + "." + m)
        return tree

    def var(self, n):
        # the binding in force where the expression stands
        bs = [b for b in self.lets if b[0] == n and b[2] <= self.at]
        if not bs or n in self.stop or self.depth > 60:
            return ("a", n)
        b = bs[-1]
        try:
            text, at, muts = b[3], b[1], []
            if text is None and len(b) > 4 and self.polys:
                text, muts = b[4](self.at)
            if text is None:
                return ("a", n)
            poly = self.poly
            self.poly = False
            r = whole(text, at, self.lets, self.stop, self.depth + 1, self)
            for pos, o, e in muts:
                r = (o, r, whole(e, pos, self.lets, self.stop, self.depth + 1, self))
            if self.poly and self.mids is not None:
                self.mids.append((n, b[2], self.xt, r))
            self.poly |= poly
        except No:
            return ("a", n)
        return r

    def text(self, t):
        if t[0] != "a":
            raise No("field of an expression")
        return t[1]


def whole(text, at, lets, stop, depth, like):
    """the tree of an expression, or of a block's last expression"""
    text = text.strip()
    if text.startswith("{"):
        d, cut = 0, 1
        for i, c in enumerate(text):
            d += c in "([{"
            d -= c in ")]}"
            if c == ";" and d == 1:
                cut = i + 1
        at, text = at + len(text), text[cut:-1].strip()
    p = P(text, lets, stop, at, depth, like)
    r = p.expr()
    if p.i != len(p.t):
        raise No("expression")
    like.poly |= p.poly
    return r


def norm(s):
    return re.sub(r"^[&*]+", "", "".join(toks(s)))


def lets_of(body):
    """bindings of the function in order: (name, where the right-hand side starts, where the binding ends, right-hand side or None)"""
    out = []
    for m in re.finditer(r"\blet\s+(ghost\s+)?(mut\s+)?(\w+|\([^=;]*?\))\s*(:[^=;]*)?=\s*", body):
        j, d = m.end(), 0
        while j < len(body) and not (body[j] == ";" and d == 0):
            d += body[j] in "([{"
            d -= body[j] in ")]}"
            j += 1
        opaque = m.group(1) or m.group(2) or not re.match(r"^\w+$", m.group(3))
        for n in re.findall(r"\w+", m.group(3)):
            if n not in ("mut", "_"):
                out.append((n, m.start(), j, None if opaque else body[m.end():j].strip()) + ((mutated(body, n, body[m.end():j].strip(), j),) if m.group(2) else ()))
    return out


def mutated(body, n, rhs, j):
    """a let mut whose only changes up to a place are to the constant coefficient: the value there"""
    def at(pos):
        out, i = [], j
        for m in re.finditer(r"\b" + n + r"\b", body[j:pos]):
            k = j + m.start()
            if k < i:
                continue
            c = re.match(re.escape(n) + r" \. coeffs \[0 \] = " + re.escape(n) + r" \. coeffs \[0 \] ([-+]) \((.*?)\) ;", body[k:])
            if c:
                out.append((k, c.group(1), c.group(2)))
                i = k + c.end()
            elif re.match(r".*v_nonempty \(& $", body[j:k], re.S):
                pass
            elif re.match(re.escape(n) + r"( \. \w+)* (\[.*?\] )?=[^=]", body[k:]) or re.search(r"& mut $", body[:k]):
                return None, []
        return rhs, out
    return at


def linear(e):
    """canonical text of an integer expression that is linear in its atoms, or None"""
    names = {}
    def sub(m):
        k = f"x{len(names)}_"
        for a, b in names.items():
            if b == m.group(0):
                return a
        names[k] = m.group(0)
        return k
    t = re.sub(r"[A-Za-z_][\w.]*", sub, e)
    try:
        n = ast.parse(t, mode="eval").body
    except SyntaxError:
        return None
    def ev(x):
        if isinstance(x, ast.Constant) and isinstance(x.value, int):
            return {"": x.value}
        if isinstance(x, ast.Name):
            return {names[x.id]: 1}
        if isinstance(x, ast.BinOp):
            l, r = ev(x.left), ev(x.right)
            if l is None or r is None:
                return None
            if isinstance(x.op, (ast.Add, ast.Sub)):
                g = 1 if isinstance(x.op, ast.Add) else -1
                return {k: l.get(k, 0) + g * r.get(k, 0) for k in set(l) | set(r)}
            if isinstance(x.op, ast.Mult):
                if set(l) == {""}:
                    l, r = r, l
                if set(r) == {""}:
                    return {k: v * r[""] for k, v in l.items()}
        return None
    d = ev(n)
    if d is None:
        return None
    return "+".join([(f"{v}*{k}" if v != 1 else k) for k, v in sorted(d.items()) if k and v] + ([str(d[""])] if d.get("") or not any(k for k in d) else []))


def canon(t):
    """text without blanks; exponents of fpow in canonical form"""
    t = re.sub(r"\s+", "", t)
    m = re.match(r"^fpow\((\w+),\((.*)\)asnat\)$", t)
    if m:
        l = linear(m.group(2))
        if l is not None:
            t = f"fpow({m.group(1)},({l})asnat)"
    return t


def expand(t):
    """a polynomial as a map from monomials to coefficients"""
    k = t[0]
    if k == "a":
        return {(t[1],): 1}
    if k == "c":
        return {(): t[1]} if t[1] else {}
    if k == "neg":
        return {m: -c for m, c in expand(t[1]).items()}
    if k == "/":
        raise No("nested division")
    l, r, o = expand(t[1]), expand(t[2]), {}
    if k == "*":
        for m, c in l.items():
            for n, d in r.items():
                q = tuple(sorted(m + n))
                o[q] = o.get(q, 0) + c * d
    else:
        g = 1 if k == "+" else -1
        o = dict(l)
        for m, c in r.items():
            o[m] = o.get(m, 0) + g * c
    return {m: c for m, c in o.items() if c}


def attach(fn, specs, body, Skel):
    """(body with the calls of the lemmas put in, the lemmas)"""
    pre, ins = [], []
    if any(t[0] == "return" for t, *_ in fn.auto):
        # the value returned gets a name
        e = body.rstrip().rindex("}")
        d, cut = 0, body.index("{") + 1
        for i, c in enumerate(body[:e]):
            d += c in "([{"
            d -= c in ")]}"
            if c in ";}" and d == 1:
                cut = i + 1
        if body[cut:e].strip():
            body = body[:cut] + " let __ret = " + body[cut:e].strip() + " ; __ret " + body[e:]
    lets = lets_of(body)
    like = P("x", [], set(), 0)
    like.polys, like.calls, like.dens = fn.polys, fn.calls, fn.dens
    for k, (target, inst, atoms, stop) in enumerate(fn.auto):
        name = "__ret" if target[0] == "return" else target[0]
        bs = [b for b in lets if b[0] == name]
        occ = [int(x[1:]) for x in target[1:] if re.match(r"^#\d+$", x)]
        bs = bs[occ[0] - 1:occ[0]] if occ else bs
        if len(bs) != 1 or bs[0][3] is None:
            raise Skel(f"no single binding of {name}")
        text = bs[0][3]
        try:
            for x in target[1:]:
                m = re.match(r"^arg(\d+)$", x)
                if m:
                    q = P(text[text.index("("):], [], set(), 0)
                    text = q.args()[int(m.group(1))]
                    text = re.sub(r"\.\s*0\s*$", "", text.strip())
            like.mids = []
            code = whole(text, bs[0][1], lets, stop, 0, like)
        except (No, ValueError, IndexError) as e:
            raise Skel(f"arithmetic of {name}: {e}")
        m = re.match(r"^(\w+)\s*\((.*)\)$", inst, re.S)
        vs, eq = specs[m.group(1)]
        args = [x.strip() for x in m.group(2).split(";")]
        if len(vs) != len(args):
            raise SystemExit(f"@autoring {name}: {len(args)} arguments for {len(vs)}")
        shown = {canon(a): a for a in args}
        env = {v: ("a", canon(a)) for v, a in zip(vs, args)}
        spec = pyexpr(ast.parse(eq, mode="eval").body, env)
        known = set(shown)
        def mp(t):
            if t[0] == "a":
                x = t[1]
                for a, b in atoms:
                    x = re.sub(a, b, x)
                if x.startswith("="):
                    # an atom that stands for an expression
                    return mp(pyexpr(ast.parse(x[1:], mode="eval").body, Names()))
                x = canon(x)
                if x not in known:
                    raise Skel(f"arithmetic of {name}: unknown {t[1]}")
                return ("a", x)
            return tuple(mp(x) if isinstance(x, tuple) else x for x in t)
        code = mp(code)
        # quotients: the code's denominator is one of those the contract names, which gives its inverse
        dens = [(pyexpr(ast.parse(a, mode="eval").body, env), pyexpr(ast.parse(b, mode="eval").body, env)) for a, b in fn.dens]
        used = []
        def quot(t):
            if t[0] in ("a", "c"):
                return t
            if t[0] == "/":
                n, d = quot(t[1]), t[2]
                try:
                    e = expand(d)
                    for D, X in dens:
                        if expand(D) == e:
                            used.append((d, D, X, t[3]))
                            return ("*", n, X)
                except No:
                    pass
                raise Skel(f"arithmetic of {name}: a denominator the contract does not know")
            return tuple(quot(x) if isinstance(x, tuple) else x for x in t)
        code0, code = code, quot(code)
        # polynomials on the way that are still in scope and not shadowed
        mids, seen = [], set()
        for n, at, xt, t in like.mids:
            d = low = 0
            for c in body[at:bs[0][2]]:
                d += c == "{"
                d -= c == "}"
                low = min(low, d)
            if low == 0 and not any(b[0] == n and at < b[2] <= bs[0][2] for b in lets) and (n, repr(xt)) not in seen:
                seen.add((n, repr(xt)))
                try:
                    mids.append((n, xt if xt == ("a", "x") else mp(xt), mp(t)))
                except Skel:
                    pass
        ln = f"auto_{fn.id.replace(':', '_')}_{k}"
        vs2, ls = lemma(ln, code, spec)
        pre += ls
        show = lambda v: shown[v]
        dx = lambda v: shown.get(v, v)
        one = "".join(f"assert(pev({n}, {fexpr(xt, dx)}) == {fexpr(t, show)}); " for n, xt, t in mids if "poly" in target or xt != ("a", "x"))
        for j, (d, D, X, at) in enumerate(used):
            # the denominator equals the named one; the named one is not zero; its inverse is what the contract says
            l1, l2 = f"{ln}_d{j}", f"{ln}_i{j}"
            va, ls = lemma(l1, d, D)
            pre += ls
            vb, ls = lemma(l2, ("*", D, X), ("*", dens[0][0], dens[0][1]))
            pre += ls
            de, De, Xe = fexpr(d, show), fexpr(D, show), fexpr(X, show)
            nz = f"{l1}({', '.join(show(v) for v in va)}); assert({de} == {De}); "
            if "divq" not in fn.opts:
                ins.append((at, f"\nproof {{ {nz} {fn.denp} assert({de} != fz(0)); }}\n"))
            B0, B1 = fexpr(dens[0][0], show), fexpr(dens[0][1], show)
            one += f"{nz} {fn.denp} assert({B0} != fz(0)); ax_inv({B0}); {l2}({', '.join(show(v) for v in vb)}); lemma_inv_is({De}, {Xe}); assert(finv({de}) == {Xe}); "
        one += f"{ln}({', '.join(show(v) for v in vs2)}); assert({fexpr(code, show)} == {m.group(1)}({', '.join(args)})); "
        if "poly" in target:
            one = f"assert forall|x: Fr| #[trigger] pev({name}, x) == {m.group(1)}({', '.join(args)}) by {{ {one}assert(pev({name}, x) == {fexpr(code, show)}); }}"
        call = f"\nproof {{ {one} }}\n"
        ins.append((bs[0][2] + 1, call))
    for pos, t in sorted(ins, reverse=True):
        body = body[:pos] + t + body[pos:]
    return body, pre


class Names(dict):
    def __missing__(self, k):
        return ("a", k)


SPECS = {}


def pyexpr(e, env):
    """tree of a python arithmetic expression; env maps names to trees; calls of @spec functions are expanded"""
    if isinstance(e, ast.Call):
        vs, eq = SPECS[e.func.id]
        if len(vs) != len(e.args):
            raise SystemExit(f"{e.func.id} takes {len(vs)} arguments, not {len(e.args)}")
        return pyexpr(ast.parse(eq, mode="eval").body, {v: pyexpr(a, env) for v, a in zip(vs, e.args)})
    if isinstance(e, ast.Name):
        return env[e.id]
    if isinstance(e, ast.Constant):
        return ("c", e.value)
    if isinstance(e, ast.UnaryOp):
        return ("neg", pyexpr(e.operand, env))
    if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Pow):
        b = pyexpr(e.left, env)
        r = b
        for _ in range(e.right.value - 1):
            r = ("*", r, b)
        return r
    return ({ast.Add: "+", ast.Sub: "-", ast.Mult: "*"}[type(e.op)], pyexpr(e.left, env), pyexpr(e.right, env))


def fexpr(t, leaf):
    k = t[0]
    if k == "a":
        return leaf(t[1])
    if k == "c":
        return f"fz({t[1]})"
    if k == "neg":
        return f"fneg({fexpr(t[1], leaf)})"
    if k == "/":
        return f"fmul({fexpr(t[1], leaf)}, finv({fexpr(t[2], leaf)}))"
    return {"+": "fadd", "-": "fsub", "*": "fmul"}[k] + f"({fexpr(t[1], leaf)}, {fexpr(t[2], leaf)})"


def qexpr(t, idx):
    k = t[0]
    if k == "a":
        return f"E::V({idx[t[1]]})"
    if k == "c":
        return f"E::C({t[1]})"
    if k == "neg":
        return f"E::Neg(Box::new({qexpr(t[1], idx)}))"
    return {"+": "E::Add", "-": "E::Sub", "*": "E::Mul"}[k] + f"(Box::new({qexpr(t[1], idx)}), Box::new({qexpr(t[2], idx)}))"


def depth(t):
    return 1 + max([depth(x) for x in t[1:] if isinstance(x, tuple)] or [0])


def leaves(t, o):
    if t[0] == "a":
        if t[1] not in o:
            o.append(t[1])
    else:
        for x in t[1:]:
            if isinstance(x, tuple):
                leaves(x, o)
    return o


def lemma(name, l, r):
    """lines of a lemma: for all values of the leaves, l == r"""
    vs = leaves(r, leaves(l, []))
    idx = {v: i for i, v in enumerate(vs)}
    lf = lambda v: f"v{idx[v]}"
    ps = ", ".join(f"v{i}: Fr" for i in range(len(vs)))
    d = max(depth(l), depth(r)) + 1
    return vs, [f"pub open spec fn {name}__l() -> E {{ {qexpr(l, idx)} }}", f"pub open spec fn {name}__r() -> E {{ {qexpr(r, idx)} }}",
                f"pub proof fn {name}({ps}) ensures {fexpr(l, lf)} == {fexpr(r, lf)} {{ assert(peq(nf({name}__l()), nf({name}__r())) && vars({name}__l(), {len(vs)}) && vars({name}__r(), {len(vs)})) by (compute_only);",
                f"let __v = seq![{', '.join('v%d' % i for i in range(len(vs)))}]; lemma_ring({name}__l(), {name}__r(), __v); reveal_with_fuel(evf, {d}); }}"]
