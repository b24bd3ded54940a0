"""Layer A: contracts on the functions extracted from the current tree, discharged by Verus.

A unit (kzg, fri, nova, plonk) is one contracts/<unit>.vx file. For every run the functions it names are cut out of the
sources again (tools/vx), the contracts are attached, and the result is given to the verifier. See DESIGN.md."""
import ast, hashlib, json, os, re, subprocess, sys, time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import autoring

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
VX = os.path.join(V, "target", "vx", "release", "vx")
WORK = os.path.join(V, "target", "proof")
VERUS = "verus"


REF = [("", "", "", ""), ("'a, ", "", "&'a ", "*"), ("'a, ", "&'a ", "", ""), ("'a, 'b, ", "&'a ", "&'b ", "*")]


def binops(tr, m, f, a, b, c):
    """operator impls for all combinations of values and references, with the assumed meaning f"""
    o = []
    for l, r in ((0, 0), (0, 1), (1, 0), (1, 1)):
        g = "<" + ", ".join((["'a"] if l else []) + (["'b"] if r else [])) + ">" if l or r else ""
        A, B = ("&'a " if l else "") + a, ("&'b " if r else "") + b
        x, y = ("*" if l else "") + "self", ("*" if r else "") + "rhs"
        o.append(f"impl{g} {tr}SpecImpl<{B}> for {A} {{ open spec fn obeys_{m}_spec() -> bool {{ true }} open spec fn {m}_req(self, rhs: {B}) -> bool {{ true }} open spec fn {m}_spec(self, rhs: {B}) -> {c} {{ {f}({x}, {y}) }} }}")
        o.append(f"impl{g} {tr}<{B}> for {A} {{ type Output = {c}; #[verifier::external_body] fn {m}(self, rhs: {B}) -> (r: {c}) {{ unimplemented!() }} }}")
    return o


def ring(name, vs, eq):
    """a lemma for an identity of commutative rings: decided by evaluating the verified normaliser of prelude/ring.rs"""
    import ast
    l, r = eq.split("==")
    env = {v: ("a", v) for v in vs}
    def fe(e):
        if isinstance(e, ast.Call):
            return f"{e.func.id}({', '.join(fe(x) for x in e.args)})"
        if isinstance(e, ast.BinOp) and not isinstance(e.op, ast.Pow):
            return {ast.Add: "fadd", ast.Sub: "fsub", ast.Mult: "fmul"}[type(e.op)] + f"({fe(e.left)}, {fe(e.right)})"
        if isinstance(e, ast.UnaryOp):
            return f"fneg({fe(e.operand)})"
        return autoring.fexpr(autoring.pyexpr(e, env), lambda t: t)
    L, R = ast.parse(l.strip(), mode="eval").body, ast.parse(r.strip(), mode="eval").body
    tl, tr = autoring.pyexpr(L, env), autoring.pyexpr(R, env)
    idx = {v: i for i, v in enumerate(vs)}
    ps = ", ".join(f"{v}: Fr" for v in vs)
    d = max(autoring.depth(tl), autoring.depth(tr)) + 1
    return [f"pub open spec fn {name}__l() -> E {{ {autoring.qexpr(tl, idx)} }}", f"pub open spec fn {name}__r() -> E {{ {autoring.qexpr(tr, idx)} }}",
            f"pub proof fn {name}({ps}) ensures {fe(L)} == {fe(R)} {{ assert(peq(nf({name}__l()), nf({name}__r())) && vars({name}__l(), {len(vs)}) && vars({name}__r(), {len(vs)})) by (compute_only);",
            f"let __v = seq![{', '.join(vs)}]; lemma_ring({name}__l(), {name}__r(), __v); reveal_with_fuel(evf, {d}); }}"]


def binop1(tr, m, f, req, l, a, r, b, c):
    """one operator impl, for values (.) or references (&), with a precondition and a meaning"""
    g = "<" + ", ".join((["'a"] if l == "&" else []) + (["'b"] if r == "&" else [])) + ">" if "&" in (l, r) else ""
    A, B = ("&'a " if l == "&" else "") + a, ("&'b " if r == "&" else "") + b
    x, y = ("*" if l == "&" else "") + "self", ("*" if r == "&" else "") + "rhs"
    return [f"impl{g} {tr}SpecImpl<{B}> for {A} {{ open spec fn obeys_{m}_spec() -> bool {{ true }} open spec fn {m}_req(self, rhs: {B}) -> bool {{ {req}({x}, {y}) }} open spec fn {m}_spec(self, rhs: {B}) -> {c} {{ {f}({x}, {y}) }} }}",
            f"impl{g} {tr}<{B}> for {A} {{ type Output = {c}; #[verifier::external_body] fn {m}(self, rhs: {B}) -> (r: {c}) {{ unimplemented!() }} }}"]


def macros(ls):
    o = []
    for l in ls:
        if l.startswith("@BIN1 "):
            o += binop1(*l.split()[1:])
        elif l.startswith("@BIN "):
            o += binops(*l.split()[1:])
        elif l.startswith("@GRP "):
            g = l.split()[1]
            o += [f"impl Copy for {g} {{}}", f"impl Clone for {g} {{ #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self {{ unimplemented!() }} }}",
                  f"impl PartialEq for {g} {{ #[verifier::external_body] fn eq(&self, o: &{g}) -> (r: bool) ensures r == (*self == *o) {{ unimplemented!() }} }}",
                  f"impl {g} {{ #[verifier::external_body] pub fn into_affine(self) -> (r: {g}) ensures r == self {{ unimplemented!() }}",
                  f"#[verifier::external_body] pub fn into_group(self) -> (r: {g}) ensures r == self {{ unimplemented!() }} }}"]
        elif l.startswith("@ring "):
            n, vs, eq = [x.strip() for x in l[6:].split("|")]
            o += ring(n, vs.split(), eq)
        else:
            o.append(l)
    return o


class Fn:
    def __init__(self, key):
        self.key, self.props, self.ret, self.spec, self.loops, self.at, self.opts = key, [], "r", "", {}, [], {}
        self.subst = []
        self.auto, self.atoms, self.stops, self.polys, self.calls = [], [], [], [], {}
        self.dens, self.denp = [], ""
        self.pre = []
        self.imported = False


class Unit:
    def __init__(self, name):
        self.name, self.files, self.parts, self.fns, self.lemmas, self.baseline = name, [], [], {}, {}, {}
        self.imports = []
        self.preludes = set()
        self.tags = {}      # index of a part -> the unit or prelude it came from
        self.specs = {}     # @spec definitions
        self.renames = []   # @rename
        self.each = ""      # @each: put at the start of every function and loop body


def parse(unit):
    """contracts/<unit>.vx; parts keep their order: ("raw", text) | ("struct", name, opts) | ("fn", Fn)"""
    u = Unit(unit)
    cur = None      # the piece that plain lines go to: callable(line)
    fn = None
    buf = None
    def raw():
        b = []
        u.parts.append(("raw", b))
        return b
    for ln, l in enumerate(open(os.path.join(V, "contracts", unit + ".vx")).read().split("\n"), 1):
        m = re.match(r"^@(\w+)\s*(.*)$", l)
        if m and m.group(1) in ("ring", "BIN", "BIN1", "GRP"):
            u.parts.append(("raw", macros([l])))
            if buf is not None and not isinstance(cur, Fn):
                buf = raw()
            continue
        if not m:
            if buf is not None:
                buf.append(l)
            elif l.strip() and not l.startswith("#"):
                raise SystemExit(f"{unit}.vx:{ln}: text outside a section")
            continue
        d, a = m.group(1), m.group(2).strip()
        if d == "files":
            u.files += a.split()
        elif d == "each":
            u.each = a
        elif d == "import":
            # the contracts of another unit: its functions appear with their contracts only, which that unit discharges
            for n in a.split():
                u.imports.append(n)
                iu = parse(n)
                u.files = iu.files + [f for f in u.files if f not in iu.files]
                for k, v in iu.specs.items():
                    u.specs.setdefault(k, v)
                u.renames += [r for r in iu.renames if r not in u.renames]
                have = set(u.tags.values())
                u.preludes |= iu.preludes
                for qi, q in enumerate(iu.parts):
                    tag = iu.tags.get(qi, n)
                    if q[0] == "lemma" or tag in have or "local" in q[2:]:
                        continue
                    u.tags[len(u.parts)] = tag
                    if q[0] == "fn":
                        if "as" in q[1].opts and "=" not in q[1].opts:
                            continue
                        q[1].imported = True
                    u.parts.append(q)
        elif d == "prelude":
            for p in a.split():
                if p in u.preludes:
                    continue
                u.preludes.add(p)
                u.tags[len(u.parts)] = "prelude:" + p
                u.parts.append(("raw", macros(open(os.path.join(V, "prelude", p)).read().split("\n"))))
        elif d == "raw":
            # `@raw local`: not imported by other units
            buf = []
            u.parts.append(("raw", buf) + tuple(a.split()))
            cur = None
        elif d == "rename":
            # @rename file old => new: an item whose name is taken in another file of the unit
            f, o, _, n = a.split()
            u.renames.append((f, o, n))
            buf = None
        elif d == "struct":
            n, *o = a.split()
            u.parts.append(("struct", n, o))
            buf = None
        elif d == "lemma":
            # @lemma name props...: the raw text that follows proves a property-level statement
            n, *o = a.split()
            u.lemmas[n] = o
            buf = []
            u.parts.append(("lemma", buf))
            cur = None
        elif d == "fn":
            x = [y.strip() for y in a.split("|")]
            fn = Fn(x[0])
            cur = fn
            fn.props = x[1].split() if len(x) > 1 else []
            fn.ret = x[2] if len(x) > 2 and x[2] else "r"
            for o in (x[3].split() if len(x) > 3 else []):
                k, _, v = o.partition("=")
                fn.opts[k] = v or True
            fn.id = fn.opts.get("as", fn.key)
            u.fns[fn.id] = fn
            u.parts.append(("fn", fn))
            buf = []
            fn.specl = buf
        elif d == "loop":
            buf = fn.loops.setdefault(int(a), [])
        elif d in ("start", "post", "loop_start", "loop_end", "after_let", "closure", "before_loop", "after_loop"):
            buf = []
            fn.at.append((d, a, buf))
        elif d == "spec":
            # @spec name | variables | polynomial expression: a spec function that @autoring knows
            n, vs, eq = [y.strip() for y in a.split("|")]
            u.specs[n] = autoring.SPECS[n] = (vs.split(), eq)
            tr = autoring.pyexpr(ast.parse(eq, mode="eval").body, {v: ("a", v) for v in vs.split()})
            u.parts.append(("raw", [f"pub open spec fn {n}({', '.join(v + ': Fr' for v in vs.split())}) -> Fr {{ {autoring.fexpr(tr, lambda t: t)} }}"]))
            buf = None
        elif d == "autoring":
            # @autoring let [com] | name(spec text; ...): the code's expression equals this instance of a @spec
            x = [y.strip() for y in a.split("|")]
            fn.auto.append((x[0].split(), x[1], list(fn.atoms), set(fn.stops)))
            buf = None
        elif d == "poly":
            # @poly atom => its value at $x
            fn.polys.append(tuple(y.strip() for y in a.split("=>")))
            buf = None
        elif d == "den":
            # @den denominator => its inverse, in the variables of the @spec of the next @autoring; @denp: why the first is not zero
            fn.dens.append(tuple(y.strip() for y in a.split("=>")))
            buf = None
        elif d == "denp":
            fn.denp = a
            buf = None
        elif d == "call":
            # @call function => expression in its arguments A, B, ...
            n, e = [y.strip() for y in a.split("=>")]
            fn.calls[n] = e
            buf = None
        elif d == "stop":
            fn.stops += a.split()
            buf = None
        elif d == "atom":
            fn.atoms.append(tuple(y.strip() for y in a.split("=>")))
            buf = None
        elif d == "subst":
            p, q = a.split("=>")
            fn.subst.append((p.strip(), q.strip()))
        elif d == "end":
            buf = None
        else:
            raise SystemExit(f"{unit}.vx:{ln}: unknown directive @{d}")
    return u


def run_vx(files, fmt=False):
    fs = [f for f in files if os.path.exists(os.path.join(REPO, f))]
    p = subprocess.run([VX, REPO] + fs, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=dict(os.environ, **({"VX_FMT": "1"} if fmt else {})))
    if p.returncode:
        raise RuntimeError("extractor: " + p.stderr[-500:])
    return json.loads(p.stdout)


def rename(u, ext):
    for f, o, n in u.renames:
        w = lambda t: re.sub(rf"\b{o}\b", n, t) if isinstance(t, str) else t
        for x in ext["functions"]:
            if x["file"] == f:
                for k in ("key", "owner", "sig", "body", "body_divq", "trait"):
                    if k in x:
                        x[k] = w(x[k])
        for x in ext["structs"]:
            if x["file"] == f:
                x["name"], x["text"] = w(x["name"]), w(x["text"])
    return ext


def build_vx(log):
    p = subprocess.run(["cargo", "build", "--offline", "--release"], cwd=os.path.join(V, "tools", "vx"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                       env=dict(os.environ, CARGO_TARGET_DIR=os.path.join(V, "target", "vx")))
    if p.returncode:
        raise RuntimeError("extractor does not build: " + p.stdout[-800:])


def close(s, i):
    """index of the bracket that closes the one at s[i]"""
    d = 0
    for j in range(i, len(s)):
        if s[j] in "([{":
            d += 1
        elif s[j] in ")]}":
            d -= 1
            if d == 0:
                return j
    raise ValueError("unbalanced")


MARK = r"__vx_%s\s*!\s*\(\s*%d\b([^)]*)\)\s*;"


def weave(fn, x, specs, specnames=frozenset(), each=""):
    """the body with loop contracts and hints put in; raises Skel when an anchor is gone"""
    b = x["body"]
    if fn.opts.get("divq") and x.get("body_divq"):
        b = x["body_divq"]
    for p, q in fn.subst:
        b = re.sub(p, q, b)
    # a local variable named like a specification function would hide it from the contract
    for n in sorted({w for t in re.findall(r"\blet\s+([^=;]*?)\s*(?::[^=;]*)?=", b) for w in re.findall(r"\b[a-z]\w*\b", t)} & specnames - {a.split("#")[0].strip() for k, a, t in fn.at if k == "after_let"} - set(re.findall(r"\b(\w+)\s*:(?!:)", x["sig"].partition("\x01")[0]))):
        b = re.sub(rf"(?<!\. )(?<![\w.]){n}\b(?!\s*:(?!:))|(?<=let ){n}\b|(?<=mut ){n}\b", n + "_v", b)
    nl = len(x["loops"])
    for k in list(fn.loops):
        if k > nl:
            raise Skel(f"loop {k} is gone")
    if fn.loops and max(fn.loops) != nl and not fn.opts.get("someloops"):
        raise Skel(f"{nl} loops where the contract knows {max(fn.loops)}")
    for kind, a, t in fn.at:
        txt = "\n".join(t)
        if kind == "after_let":
            occ = re.search(r"\s*#(\d+)$", a)
            a = a[:occ.start()] if occ else a
            ms = list(re.finditer(r"\blet\s+(mut\s+)?%s\b" % re.escape(a), b))
            m = (ms[int(occ.group(1)) - 1] if len(ms) >= int(occ.group(1)) else None) if occ else ms[0] if ms else None
            m = m if "," not in a else re.search(r"\blet\s+\(\s*" + r"\s*,\s*".join(r"(?:mut\s+)?" + re.escape(y.strip()) for y in a.split(",")) + r"\s*\)", b)
            if not m:
                raise Skel(f"no binding of {a}")
            j = m.end()
            while b[j] != ";":
                j = close(b, j) + 1 if b[j] in "([{" else j + 1
            b = b[:j + 1] + "\n" + txt + "\n" + b[j + 1:]
        elif kind in ("loop_end", "loop_start", "before_loop", "after_loop"):
            k = int(a)
            m = re.search(MARK % ("loop", k), b)
            if not m:
                raise Skel(f"loop {k} is gone")
            if kind == "loop_start":
                b = b[:m.end()] + "\n" + txt + "\n" + b[m.end():]
            else:
                o = b.rindex("{", 0, m.start())
                c = close(b, o)
                if kind == "loop_end":
                    body = b[:c].rstrip()
                    b = body + ("" if body[-1] in ";}" else ";") + "\n" + txt + "\n" + b[c:]
                elif kind == "after_loop":
                    b = b[:c + 1] + "\n" + txt + "\n" + b[c + 1:]
                else:
                    # the while/loop keyword in front
                    ws = [w.start() for w in re.finditer(r"\b(while|loop)\b", b[:o])]
                    b = b[:ws[-1]] + txt + "\n" + b[ws[-1]:]
        elif kind == "closure":
            m = re.search(MARK % ("closure", int(a)), b)
            if not m:
                raise Skel(f"closure {a} is gone")
            o = b.rindex("{", 0, m.start())
            # the result of the closure is called __r
            h = re.search(r"->\s*([^|{}]+?)\s*$", b[:o])
            head = b[:o] if not h else b[:h.start()] + f"-> (__r: {h.group(1)})"
            b = head + "\n" + txt + "\n" + b[o:]
    b, fn.pre = autoring.attach(fn, specs, b, Skel)
    for k in range(1, nl + 1):
        m = re.search(MARK % ("loop", k), b)
        if not m:
            continue
        r = m.group(1).split()
        o = b.rindex("{", 0, m.start())
        inv = [l for l in fn.loops.get(k, []) if l.strip()]
        kind = x["loops"][k - 1]
        # __Ak: where the loop variable starts
        first = lambda t: re.sub(rf"\b__A{k}\b", r[1] if r and r[0] == "r" else "0", t)
        o += len(first(b[:o])) - len(b[:o])
        b, inv = first(b), [first(l) for l in inv]
        m = re.search(MARK % ("loop", k), b)
        auto, dec = [], ""
        i = f"__i{k}"
        if r and r[0] == "r":
            auto = [f"{r[1]} <= {i}", f"{r[1]} <= {r[2]} ==> {i} <= {r[2]}"]
            dec = f"{r[2]} - {i}"
        elif kind not in ("while", "loop"):
            auto = [f"{i} <= __L{k}"]
            dec = f"__L{k} - {i}"
        txt = "\n".join(inv)
        if "decreases" in txt:
            txt, _, dd = txt.partition("decreases")
            dec = dd
        txt = txt.strip().rstrip(",")
        if txt and not re.match(r"(invariant|ensures|invariant_except_break)", txt):
            txt = "invariant " + txt
        pre = ""
        if auto:
            if txt.startswith("invariant"):
                txt = "invariant " + ", ".join(auto) + ",\n" + re.sub(r"^invariant\b(?!_)", "", txt, count=1)
            else:
                txt = ("invariant " + ", ".join(auto) + ",\n" + txt).rstrip()
        b = b[:o] + "\n" + txt + (",\n" if txt and not txt.endswith(",") else "\n") + (f"decreases {dec}\n" if dec.strip() else "") + b[o:m.start()] + f"/*l{k}*/ {each}" + b[m.end():]
    st = ([[each]] if each else []) + [t for k, a, t in fn.at if k == "start"]
    # with a @post section the ghost bindings of @start stay visible there
    pre = ""
    if any(k == "post" for k, a, t in fn.at) and re.match(r"\s*\{\s*__vx_start\s*!", b):
        pre = "\n".join("\n".join(t) for t in st) + "\n"
        st = []
    b = re.sub(r"__vx_start\s*!\s*\(\s*\)\s*;", lambda m: "\n".join("\n".join(t) for t in st), b)
    b = re.sub(r"__vx_closure\s*!\s*\(\s*\d+\s*\)\s*;", "", b)
    for t in [t for k, a, t in fn.at if k == "post"]:
        r = fn.ret if re.match(r"^\w+$", fn.ret) else "__r"
        b = "{ %slet %s = %s;\n%s\n%s }" % (pre, r, b.strip(), "\n".join(t), r)
        pre = ""
    return b


class Skel(Exception):
    pass


OPS = {"Add": "add", "Sub": "sub", "Mul": "mul", "Neg": "neg", "Div": "div"}


def sigtext(fn, x):
    s, _, ret = x["sig"].partition("\x01")
    if "as" in fn.opts and "=" not in str(fn.opts["as"]):
        n = str(fn.opts["as"]).split("::")[-1]
        s = re.sub(r"^fn\s+\w+", "fn " + n, s)
    if not x["owner"]:
        # a lifetime parameter that only the result mentions
        ret = re.sub(r"&\s*'\w+", "& 'static", ret)
    return s, ret.strip()


def emit(fn, x, body, verify=True):
    s, ret = sigtext(fn, x)
    spec = "\n".join(fn.specl)
    hasr = ret != "()"
    out = []
    tr = x["trait"].replace(" ", "")
    op = re.match(r"(\w+)", tr)
    isop = bool(op and op.group(1) in OPS)
    inh = x["owner"]
    attr = "" if verify else "#[verifier::external_body] "
    if verify:
        attr += "#[verifier::loop_isolation(false)] " if x["loops"] and not fn.opts.get("isolate") else ""
        if fn.opts.get("rlimit"):
            attr += f"#[verifier::rlimit({fn.opts['rlimit']})] "
        if fn.opts.get("spinoff"):
            attr += "#[verifier::spinoff_prover] "
        if "nodec" in fn.opts:
            attr += "#[verifier::exec_allows_no_decreases_clause] "
    if not verify:
        body = "{ unimplemented!() }"
    if verify:
        body = "/*b*/ " + body.lstrip()
    sig = f"{attr}{'' if isop else 'pub '}{s}" + (f" -> ({fn.ret}: {ret})" if hasr else "")
    if isop:
        r = "&'a " if x["owner_ref"] else ""
        lt = "<'a>" if x["owner_ref"] else ""
        t = tr
        out.append(f"impl{lt} {t} for {r}{inh} {{ type Output = {ret if ret != 'Self' else inh};")
        out.append(sig)
        out.append(spec)
        out.append(body)
        out.append("}")
    elif inh:
        out.append(f"impl {inh} {{")
        out.append(sig)
        out.append(spec)
        out.append(body)
        out.append("}")
    else:
        out.append(sig)
        out.append(spec)
        out.append(body)
    return "\n".join(out).split("\n")


def assemble(u, ext, stub, skip=()):
    """(lines, line -> owner, notes). stub: function ids emitted with their contract only"""
    lines, who, notes = [], [], {}
    fx = {}
    for x in ext["functions"]:
        fx.setdefault(x["key"], x)
        fx[x["file"] + ":" + x["key"]] = x
    sx = {s["name"]: s for s in ext["structs"]}
    # loops rather than recursion in the emission: every part knows its owner
    def add(ls, owner):
        lines.extend(ls)
        who.extend([owner] * len(ls))
    specnames = frozenset(n for p in u.parts if p[0] in ("raw", "lemma") for l in p[1] for n in re.findall(r"\bspec\s+fn\s+(\w+)", l))
    for p in u.parts:
        if p[0] in ("raw", "lemma"):
            txt = p[1]
            # owner of a raw line: the function or lemma it lies in, found by name
            cur = None
            for l in txt:
                m = re.match(r"^\s*(?:pub\s+|broadcast\s+|open\s+|closed\s+|uninterp\s+|axiom\s+)*(?:proof\s+|spec\s+|axiom\s+)?fn\s+(\w+)", l)
                if m:
                    cur = "lemma:" + m.group(1)
                elif re.match(r"^(pub\s+)?(broadcast\s+(group|use)|struct|enum|trait|impl|mod|use|type|const)\b|^#\[|^@", l):
                    cur = None
                add([l], cur)
        elif p[0] == "struct":
            s = sx.get(p[1])
            if s is None:
                raise Skel(f"struct {p[1]} is gone")
            t = s["text"]
            if "hash" in p[2] and not all(d in s["derives"] for d in ("Hash", "PartialEq", "Eq")):
                raise Skel(f"{p[1]}: hashing and equality are not derived")
            if "copy" in p[2]:
                t += f"\nimpl Copy for {p[1]} {{}}\nimpl Clone for {p[1]} {{ #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self {{ unimplemented!() }} }}"
            if "eq" in p[2] and "PartialEq" in s["derives"]:
                t += f"\nimpl PartialEq for {p[1]} {{ #[verifier::external_body] fn eq(&self, o: &Self) -> (r: bool) ensures r == (*self == *o) {{ unimplemented!() }} }}"
            add(t.split("\n"), None)
        else:
            fn = p[1]
            x = fx.get(fn.key)
            oid = "fn:" + fn.id
            if fn.id in skip:
                continue
            if x is None:
                notes[fn.id] = "not found in the sources"
                continue
            if x["error"]:
                notes[fn.id] = "outside the extractor's subset: " + x["error"]
                if x["sig"]:
                    add(emit(fn, x, None, False), oid)
                continue
            body, verify = None, True
            if fn.id in stub or fn.imported:
                verify = False
            else:
                try:
                    body = weave(fn, x, u.specs, specnames, u.each)
                except (Skel, ValueError) as e:
                    notes[fn.id] = f"anchor: {e}"
                    verify = False
            if verify:
                add(fn.pre, oid)
            add(emit(fn, x, body, verify), oid)
    return lines, who, notes


HEAD = """#![allow(unused_imports, unused_variables, unused_mut, unused_parens, unused_braces, dead_code, non_snake_case, unused_assignments, unreachable_code, unused_must_use)]
use vstd::prelude::*;
use vstd::std_specs::ops::*;
use core::ops::{Add, Sub, Mul, Neg, Div};
verus! {
""".split("\n")


def verus(path, extra=(), errors="4", limit=300):
    t0 = time.time()
    cmd = [VERUS, "--crate-type=lib", path, "--output-json", "--multiple-errors", errors, "--rlimit", "40", "--num-threads", "8"] + list(extra) + ["--", "--error-format=json"]
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=limit, cwd=os.path.dirname(path))
    except subprocess.TimeoutExpired:
        return None, [], "verifier timed out", time.time() - t0
    diags = []
    for l in p.stderr.split("\n"):
        if l.startswith("{"):
            try:
                d = json.loads(l)
            except ValueError:
                continue
            if d.get("level") == "error" and d.get("spans"):
                diags.append(d)
            elif d.get("level") == "error" and not d["message"].startswith("aborting"):
                diags.append(d)
    try:
        o = json.loads(p.stdout[p.stdout.index("{"):])
    except ValueError:
        o = None
    return o, diags, p.stderr, time.time() - t0


VERIF = re.compile(r"postcondition not satisfied|precondition not satisfied|assertion failed|invariant not satisfied|possible arithmetic|possible division|decreases not satisfied|loop invariant|recommendation not met|not satisfied|unable to prove|possible")


def is_verif(d):
    """a diagnostic of the verifier, not one of the compiler (those carry an error code)"""
    return VERIF.search(d["message"]) and not (d.get("code") or {}).get("code")


RLIM = re.compile(r"rlimit|resource limit|timed out|timeout", re.I)


def where(d, who, n0):
    """owners of the primary and of all spans"""
    pr, al = None, []
    for s in d["spans"]:
        i = s["line_start"] - 1 - n0
        o = who[i] if 0 <= i < len(who) else None
        al.append((o, s))
        if s["is_primary"] and pr is None:
            pr = o
    return pr, al


def failed_fn(d, who, n0):
    """the function whose proof failed: for a precondition the caller, for a postcondition the function it belongs to"""
    pr, al = where(d, who, n0)
    m = d["message"]
    if "postcondition" in m:
        for o, s in al:
            if s.get("label") and "end of the function" in (s["label"] or ""):
                return o
        for o, s in al:
            if not s["is_primary"]:
                return o or pr
    return pr


def fixops(src, diags, who, n0):
    out = {}
    for d in diags:
        if "codegen_select_candidate" not in d["message"]:
            continue
        s = d["spans"][0]
        i = s["line_start"] - 1
        if s["line_end"] != s["line_start"]:
            return {}
        l = src[i]
        a, b = s["column_start"] - 1, s["column_end"] - 1
        t = l[a:b]
        depth, best = 0, None
        for j, c in enumerate(t):
            if c in "([{":
                depth += 1
            elif c in ")]}":
                depth -= 1
            elif depth == 0 and c in "+-*/" and j > 0 and t[:j].strip() and t[:j].rstrip()[-1] not in "+-*/&(,=":
                pr = 0 if c in "+-" else 1
                if best is None or pr <= best[0]:
                    best = (pr, j)
        if best is None:
            continue
        j = best[1]
        f = {"+": "Add::add", "-": "Sub::sub", "*": "Mul::mul", "/": "Div::div"}[t[j]]
        k = i - n0
        old, cur = (out[k] if k in out else (l, l))
        if cur != l:
            continue  # one fix per line and round
        out[k] = (l, l[:a] + f + "(" + t[:j] + ", " + t[j + 1:] + ")" + l[b:])
    return out


def skeleton(ext):
    """the kinds of the loops of every function, in order"""
    r = {}
    for x in ext["functions"]:
        if x["loops"]:
            r.setdefault(x["key"], x["loops"])
            r[x["file"] + ":" + x["key"]] = x["loops"]
    return r


def skeleton_ref():
    return json.load(open(os.path.join(V, "contracts", "skeleton.json")))


def write_skeleton():
    r = {}
    for n in sorted(os.listdir(os.path.join(V, "contracts"))):
        if n.endswith(".vx"):
            u = parse(n[:-3])
            sk = skeleton(rename(u, run_vx(u.files, "str.rs" in u.preludes)))
            for f in u.fns.values():
                if f.key in sk:
                    r[f.key] = sk[f.key]
    json.dump(r, open(os.path.join(V, "contracts", "skeleton.json"), "w"), indent=0, sort_keys=True)


def prove_unit(name, log, quick=True):
    u = parse(name)
    ext = rename(u, run_vx(u.files, "str.rs" in u.preludes))
    os.makedirs(WORK, exist_ok=True)
    path = os.path.join(WORK, f"{name}.rs")
    stub, notes, rounds, fixes, gone = {}, {}, 0, {}, set()
    total = 0.0
    while True:
        rounds += 1
        lines, who, n2 = assemble(u, ext, stub, gone)
        for i, l in fixes.items():
            if i < len(lines) and lines[i] == l[0]:
                lines[i] = l[1]
        for k, v in n2.items():
            notes.setdefault(k, v)
        src = HEAD + lines + ["} // verus!", ""]
        n0 = len(HEAD)
        open(path, "w").write("\n".join(src))
        o, diags, err, t = verus(path)
        total += t
        if o is None and not diags:
            return dict(unit=u, ok=False, why="verifier gave no result: " + err[-600:], notes=notes, time=total)
        comp = [d for d in diags if not is_verif(d) and not RLIM.search(d["message"])]
        vr = (o or {}).get("verification-results", {})
        if any("codegen_select_candidate" in d["message"] for d in comp) and rounds < 10:
            # an operator on references in the one place where the extractor could not see it: write it as a call
            fx = fixops(src, comp, who, n0)
            if fx:
                for i, (a, b) in fx.items():
                    fixes[i] = (fixes[i][0] if i in fixes else a, b)
                continue
        if comp or vr.get("encountered-vir-error"):
            # something does not compile: put the functions it is in aside and try again
            new, more = set(), False
            for d in comp:
                for w, s in where(d, who, n0)[1]:
                    if w and w.startswith("fn:") and w[3:] not in stub:
                        new.add((w[3:], d["message"]))
            if not new:
                # a signature that does not compile either: without the function
                for d in comp:
                    for w, s in where(d, who, n0)[1]:
                        if w and w.startswith("fn:") and w[3:] not in gone:
                            gone.add(w[3:])
                            more = True
            if not (new or more) or rounds > 12:
                return dict(unit=u, ok=False, why="does not compile: " + "; ".join(d["message"] + " " + str([(s["line_start"], s["text"][0]["text"].strip()[:120] if s["text"] else "") for s in d["spans"][:2]]) for d in comp[:3]) + err[-300:] * (not comp), notes=notes, time=total)
            for f, m in new:
                stub[f] = m
                notes[f] = "does not compile in the verifier's subset: " + m[:200]
            continue
        break
    failed, rl = {}, set()
    ref = skeleton_ref()
    now = skeleton(ext)
    for d in diags:
        f = failed_fn(d, who, n0)
        if f and f.startswith("fn:") and f[3:] in u.fns:
            k = u.fns[f[3:]].key
            if k in ref and ref[k] != now.get(k):
                # the loop contracts were written for other loops: no statement about this function either way
                notes[f[3:]] = f"its loops are no longer those the contract was written for ({', '.join(ref[k])} -> {', '.join(now.get(k) or ['none'])}) and the old loop contracts do not carry the proof"
                continue
        if f is None:
            f = "unit"
        if RLIM.search(d["message"]):
            rl.add(f)
            continue
        sp = d["spans"]
        txt = [s["text"][0]["text"].strip()[:160] + (f"  <- {s['label']}" if s.get("label") else "") for s in sp if s["text"]]
        failed.setdefault(f, []).append((d["message"] + ": " + " / ".join(txt), d.get("rendered") or ""))
    return dict(unit=u, ok=True, failed=failed, rlimit=rl, notes=notes, verified=vr.get("verified", 0), errors=vr.get("errors", 0), time=total,
                smt=(o.get("times-ms", {}).get("smt", {}) or {}).get("total", 0), src=src, who=who, n0=n0, details=o.get("func-details", {}), ext=ext)


def cached(name, log):
    """one run per tree state: the result only depends on the sources and on /verif"""
    u = parse(name)
    h = hashlib.sha256()
    for f in u.files:
        p = os.path.join(REPO, f)
        h.update(open(p, "rb").read() if os.path.exists(p) else b"-")
    for d in ("contracts", "prelude", "tools", "tools/vx/src"):
        for f in sorted(os.listdir(os.path.join(V, d))):
            p = os.path.join(V, d, f)
            if os.path.isfile(p):
                h.update(open(p, "rb").read())
    return prove_unit(name, log)


UNITS = {"P03": "eqn", "P05": "eqn", "K": "kzg", "F": "fri", "N": "nova", "P01": "circuit", "P02": "circuit", "P06": "slice", "P09": "verifier", "P07": "plonk", "P08": "plonk", "P10": "challenge", "P": "parser"}


def vacuity(name, r, only=None):
    """every function, loop and lemma is reachable: with assert(false) put there, under a condition nothing is known about, the
    verifier must complain. Returns (places tried, places where it does not, places left open by the resource limit, error, time)"""
    src, who, n0 = r["src"], r["who"], r["n0"]
    text = "\n".join(src)
    off, owner, mark = [], [], []
    pos = 0
    for i, l in enumerate(src):
        off.append(pos)
        pos += len(l) + 1
        j = i - n0
        owner.append(who[j] if 0 <= j < len(who) else None)
    ins, spots = [], []
    def at(p, f, what):
        spots.append(f"{f} {what}")
        mark.append(f)
        ins.append((p, (" proof { if vx_any(%d) { assert(false); } } " if f.startswith("fn:") else " if vx_any(%d) { assert(false); } ") % (len(spots) - 1)))
    # stretches of lines with one owner
    i = 0
    while i < len(src):
        j = i
        while j < len(src) and owner[j] == owner[i]:
            j += 1
        o, a, e = owner[i], off[i], off[j] if j < len(src) else len(text)
        seg = text[a:e]
        i = j
        if o is None or only is not None and o not in only:
            continue
        if o.startswith("fn:"):
            m = re.search(r"/\*b\*/ \{", seg)
            if not m:
                continue
            at(a + m.end(), o, "start")
            for l in re.finditer(r"/\*l(\d+)\*/", seg):
                at(a + l.end(), o, "loop " + l.group(1))
            # behind the last statement
            c = close(seg, m.end() - 1)
            d, last = 0, None
            for k in range(m.end(), c):
                d += (seg[k] in "([{") - (seg[k] in ")]}")
                if seg[k] == ";" and d == 0:
                    last = k
            if last and not re.search(r"\breturn\b[^;]*$", seg[:last]):
                at(a + last + 1, o, "end")
        elif re.search(r"\bproof\s+fn\b", seg) and "axiom fn" not in seg:
            q = re.search(r"\bproof\s+fn\b", seg).end()
            c = seg.rfind("}")
            if c < 0 or "external_body" in seg:
                continue
            # the body is the last pair of braces
            d = 0
            for k in range(c, q, -1):
                d += (seg[k] in ")]}") - (seg[k] in "([{")
                if d == 0:
                    break
            at(a + k + 1, o, "start")
    out = text
    for p, t in sorted(ins, reverse=True):
        out = out[:p] + t + out[p:]
    out = out.replace("} // verus!", "pub uninterp spec fn vx_any(n: int) -> bool;\n} // verus!")
    path = os.path.join(WORK, name + "_vac.rs")
    open(path, "w").write(out)
    o, diags, err, t = verus(path, errors="80", limit=1500)
    hit = set()
    for d in diags:
        for sp in d["spans"]:
            for tx in sp["text"]:
                m = re.search(r"vx_any\((\d+)\)", tx["text"])
                for g in re.finditer(r"vx_any\((\d+)\) \{ assert\(false\); \}", tx["text"]):
                    # the assertion the span points at
                    if g.start() <= tx["highlight_start"] - 1 <= g.end() or len(re.findall("vx_any", tx["text"])) == 1:
                        hit.add(int(g.group(1)))
    lim = {w for d in diags if RLIM.search(d["message"]) for w in [failed_fn(d, who, n0)]}
    comp = [d["rendered"] or d["message"] for d in diags if not is_verif(d) and not RLIM.search(d["message"])]
    return spots, [x for n, x in enumerate(spots) if n not in hit and mark[n] not in lim], [x for n, x in enumerate(spots) if n not in hit and mark[n] in lim], "\n".join(comp[:3]) if comp else err if not diags else "", t


def trusted(src):
    """what the verifier takes on trust in this file"""
    t = []
    for i, l in enumerate(src):
        if "external_body" in l or re.search(r"\b(assume|admit)\s*\(", l) or "assume_specification" in l or re.match(r"\s*(pub\s+)?(broadcast\s+)?axiom\s+fn", l):
            m = re.search(r"(?:fn|struct)\s+(\w+)", l) or re.search(r"(?:fn|struct)\s+(\w+)", " ".join(src[i:i + 3]))
            if m and m.group(1) not in t:
                t.append(m.group(1))
    return t


def rests_on(u, ext, mine, pid):
    """the functions under contract that this property's functions reach, by the names they call, and that are discharged under other
    properties' names only: id -> (properties, unit). Operators are not calls by name: every operator impl counts as reached."""
    unit_of = {}
    for i, q in enumerate(u.parts):
        if q[0] == "fn":
            unit_of[q[1].id] = u.tags.get(i, u.name)
    by = {}
    allf = [q[1] for q in u.parts if q[0] == "fn"]
    for f in allf:
        by.setdefault(f.key.split("::")[-1], []).append(f)
    calls = {}
    for x in ext["functions"]:
        calls.setdefault(x["key"], set()).update(c.split("::")[-1].lstrip(".") for c in x.get("calls", []))
    ops = [f for f in allf if re.search(r"::(Add|Sub|Mul|Div|Neg)::", f.key)]
    seen, todo = {}, list(mine) + ops
    while todo:
        f = todo.pop()
        if f.id in seen:
            continue
        seen[f.id] = f
        for c in calls.get(f.key, ()):
            todo += by.get(c, [])
    return {i: (f.props, unit_of[i]) for i, f in seen.items() if pid not in f.props}


def prove(pid, tier, log):
    name = UNITS.get(pid) or UNITS[pid[0]]
    if not os.path.exists(os.path.join(V, "contracts", name + ".vx")):
        return None
    build_vx(log)
    r = cached(name, log)
    u = r["unit"]
    mine = [f for f in u.fns.values() if pid in f.props]
    lem = [l for l, ps in u.lemmas.items() if pid in ps]
    if not mine and not lem:
        return None
    out = {"obligations": 0, "discharged": 0, "functions": [], "checker_cmd": f"verus --crate-type=lib target/proof/{name}.rs --rlimit 40", "trusted_base": [], "failed": [], "undecided": [], "assumptions": [], "output": ""}
    import notes
    out["assumptions"] = notes.BASE + notes.U.get(name, [])
    if not r["ok"]:
        out["undecided"] = [f"{name}: {r['why']}"]
        out["obligations"] = len(mine) + len(lem)
        return out
    ids = ["fn:" + f.id for f in mine] + ["lemma:" + l for l in lem]
    n = 0
    for i in ids:
        k = i.split(":", 1)[1]
        # an obligation: one ensures/requires/invariant clause or assertion of a function under contract
        c = clauses(u, k, i)
        out["obligations"] += c
        if k in r["notes"]:
            out["undecided"].append(f"{k} ({r['notes'][k]})")
        elif i in r["rlimit"]:
            out["undecided"].append(f"{k} (resource limit)")
        elif i in r["failed"]:
            for why, full in r["failed"][i]:
                out["failed"].append({"name": k, "why": why})
                out["output"] += full
        else:
            out["discharged"] += c
            out["functions"].append(k)
    # contracts this property's proof uses that other properties' checks discharge
    ro = rests_on(u, r["ext"], mine, pid)
    out["rests_on"] = {i: " ".join(ps) + (f" (unit {un})" if un != name else "") for i, (ps, un) in sorted(ro.items())}
    res = {name: r}
    if tier == "thorough":
        # those units too: a callee without its contract takes the ground from under this proof, without saying that the property fails
        for un in sorted({un for _, un in ro.values()} - {name}):
            res[un] = cached(un, log)
            out.setdefault("units", {})[un] = {"verified": res[un].get("verified", 0), "wall_s": round(res[un]["time"], 2)}
            if not res[un]["ok"]:
                out["undecided"].append(f"unit {un}, which the proof rests on: {res[un]['why'][:300]}")
    for i, (ps, un) in sorted(ro.items()):
        q = res.get(un)
        if q and q["ok"]:
            if "fn:" + i in q["failed"]:
                out["undecided"].append(f"{i}, which the proof rests on, does not keep its contract (its check: {' '.join(ps)})")
            elif i in q["notes"] or "fn:" + i in q["rlimit"]:
                out["undecided"].append(f"{i}, which the proof rests on ({q['notes'].get(i, 'resource limit')})")
    if tier == "thorough" and not r["failed"]:
        spots, empty, lim, err, t = vacuity(name, r, set(ids))
        out["vacuity"] = {"places": len(spots), "not_reached": empty, "resource_limit": lim, "wall_s": round(t, 2)}
        if err:
            out["undecided"].append("vacuity run: " + err[-200:])
        elif empty:
            out["undecided"].append("contradictory assumptions at: " + ", ".join(empty))
    out["trusted_base"] = trusted(r["src"])
    out["verified_queries"] = r["verified"]
    out["solver"] = {"back_end": "Verus 0.2026.09.13 / Z3", "wall_s": round(r["time"], 2), "smt_ms": r["smt"]}
    out["lemmas"] = lem
    return out


def clauses(u, k, i):
    if i.startswith("lemma:"):
        return 1
    f = u.fns[k]
    n = 0
    for b in [f.specl] + list(f.loops.values()) + [t for _, _, t in f.at]:
        t = "\n".join(b)
        n += max(1, len(re.findall(r",\s*(?:\n|$)", t))) if t.strip() else 0
        n += len(re.findall(r"\bassert\b", t))
    return max(1, n)


if __name__ == "__main__":
    # layera.py <unit>: prove one unit and print what happened
    build_vx([])
    if sys.argv[1] == "--skeleton":
        write_skeleton()
        sys.exit(0)
    r = prove_unit(sys.argv[1], [])
    print("time", round(r["time"], 1), "ok", r["ok"], "verified", r.get("verified"), "errors", r.get("errors"))
    for k, v in r["notes"].items():
        print("NOTE", k, v)
    if not r["ok"]:
        print(r["why"])
    for k, v in r.get("failed", {}).items():
        print("FAILED", k)
        for why, full in v:
            print(full if "-v" in sys.argv else "   " + why)
    for k in r.get("rlimit", []):
        print("RLIMIT", k)
    if "--vacuity" in sys.argv:
        spots, empty, lim, err, t = vacuity(sys.argv[1], r)
        print(f"vacuity: {len(spots)} places, {len(empty)} not reached, {len(lim)} left open by the resource limit, {t:.1f} s", err[-1500:])
        for e in empty:
            print("VACUOUS", e)
