#!/usr/bin/env python3
"""Redirect every floating point instruction of an LLVM module to the symbolic runtime.

Works on the textual IR rustc emits for one crate (opt-level 0, one codegen unit). Anything that
computes with a float and is not redirected is an error, so no arithmetic is silently executed on
the encoding of a symbolic value.
"""
import re
import sys

W = {"double": "64", "float": "32"}
PRED = ["false", "oeq", "ogt", "oge", "olt", "ole", "one", "ord", "uno", "ueq", "ugt", "uge",
        "ult", "ule", "une", "true"]
UN = {"fabs": 0, "sqrt": 1, "exp": 2, "log": 3, "log1p": 4, "floor": 5, "ceil": 6, "round": 7,
      "trunc": 8, "expm1": 9}
BIN = {"minnum": 0, "maxnum": 1, "minimumnum": 0, "maximumnum": 1, "minimum": 0, "maximum": 1,
       "copysign": 2, "pow": 3}

R_ARITH = re.compile(r"^(\s*%\S+ = )(fadd|fsub|fmul|fdiv|frem)\s+(?:(?:fast|nnan|ninf|nsz|arcp|contract|afn|reassoc)\s+)*(double|float) ([^,]+), (.+)$")
R_NEG = re.compile(r"^(\s*%\S+ = )fneg\s+(?:(?:fast|nnan|ninf|nsz|arcp|contract|afn|reassoc)\s+)*(double|float) (.+)$")
R_CMP = re.compile(r"^(\s*%\S+ = )fcmp\s+(?:(?:fast|nnan|ninf|nsz|arcp|contract|afn|reassoc)\s+)*(\w+) (double|float) ([^,]+), (.+)$")
R_EXT = re.compile(r"^(\s*%\S+ = )fpext float (\S+) to double")
R_TRUNC = re.compile(r"^(\s*%\S+ = )fptrunc (?:\w+ )*double (\S+) to float")
R_TOINT = re.compile(r"^(\s*%\S+ = )(fptosi|fptoui) (double|float) (\S+) to (\w+)")
R_BITS = re.compile(r"^(\s*%\S+ = )bitcast (double|float) (\S+) to (\w+)")
R_CALL = re.compile(r"^(\s*%\S+ = )(?:tail |notail |musttail )?(call|invoke)\b(.*?)@([\w.$]+)\((.*)$")
R_DEFINE = re.compile(r"^define .*?@([^\s(]+)\((.*?)\).*\{")

# Functions that may look at the bits of an encoded value: the all-zero test behind `vec![x; n]`
# (an encoding is never zero) and serde_json, which prints and parses the encoding like any number.
RAW_BITS = re.compile(r"7is_zero|10serde_json|10serde_core")

LIBM = re.compile(r"^(sin|cos|tan|asin|acos|atan|atan2|sinh|cosh|tanh|asinh|acosh|atanh|cbrt|hypot|exp2|exp10|log2|log10|fmod|fdim|rint|nearbyint|roundeven|ldexp|tgamma|lgamma|erf|erfc)f?$")

FLOATY = re.compile(r"\b(double|float|half|bfloat|fp128|x86_fp80)\b")


def strip(op):
    return op.split(", !")[0].strip()


def last(op):
    op = op.strip()
    # drop trailing metadata / attribute references
    op = op.split(", !")[0]
    op = re.sub(r"\s+#\d+$", "", op)
    return op.strip()


def args_of(s):
    """Split the argument list that starts at s (after the opening parenthesis)."""
    depth, cur, out = 1, "", []
    for i, c in enumerate(s):
        if c in "([{<":
            depth += 1
        elif c in ")]}>":
            depth -= 1
            if depth == 0:
                if cur.strip():
                    out.append(cur.strip())
                return out, s[i + 1:]
        if c == "," and depth == 1:
            out.append(cur.strip())
            cur = ""
        else:
            cur += c
    raise ValueError("unbalanced call: " + s)


class Instrument:
    def __init__(self):
        self.tmp = 0
        self.count = {}
        self.errors = []
        self.fn = ""

    def bump(self, k):
        self.count[k] = self.count.get(k, 0) + 1

    def fresh(self):
        self.tmp += 1
        return f"%symtmp{self.tmp}"

    def special_body(self, name, params):
        """Functions of core whose body works on float bit patterns."""
        for w, ty, m in (("64", "double", ("3f64", "d")), ("32", "float", ("3f32", "f"))):
            is_core = re.search(r"4core3f%s" % w, name)
            if not is_core:
                continue
            if re.search(r"9total_cmp(17h|[BCE]|$)", name):
                ps = [p.strip().split()[-1] for p in params.split(",")]
                return f"  %r = call i8 @sym_total_cmp{w}(ptr {ps[0]}, ptr {ps[1]})\n  ret i8 %r\n"
            if re.search(r"16is_sign_negative(17h|[BCE]|$)", name):
                p = params.strip().split()[-1]
                return f"  %r = call zeroext i1 @sym_isneg{w}({ty} {p})\n  ret i1 %r\n"
            if re.search(r"16is_sign_positive(17h|[BCE]|$)", name):
                p = params.strip().split()[-1]
                return (f"  %r = call zeroext i1 @sym_isneg{w}({ty} {p})\n  %n = xor i1 %r, true\n"
                        f"  ret i1 %n\n")
        return None

    def line(self, l):
        m = R_ARITH.match(l)
        if m:
            p, op, ty, a, b = m.groups()
            self.bump(op)
            return f"{p}call {ty} @sym_{op}{W[ty]}({ty} {a}, {ty} {last(b)})\n"
        m = R_CMP.match(l)
        if m:
            p, pred, ty, a, b = m.groups()
            self.bump("fcmp")
            return f"{p}call zeroext i1 @sym_fcmp{W[ty]}(i32 {PRED.index(pred)}, {ty} {a}, {ty} {last(b)})\n"
        m = R_NEG.match(l)
        if m:
            p, ty, a = m.groups()
            self.bump("fneg")
            return f"{p}call {ty} @sym_fneg{W[ty]}({ty} {last(a)})\n"
        m = R_EXT.match(l)
        if m:
            self.bump("fpext")
            return f"{m.group(1)}call double @sym_fpext(float {m.group(2)})\n"
        m = R_TRUNC.match(l)
        if m:
            self.bump("fptrunc")
            return f"{m.group(1)}call float @sym_fptrunc(double {m.group(2)})\n"
        m = R_TOINT.match(l)
        if m:
            p, op, ty, a, it = m.groups()
            self.bump(op)
            t = self.fresh()
            return f"  {t} = call {ty} @sym_conc{W[ty]}({ty} {a})\n{p}{op} {ty} {t} to {it}\n"
        m = R_BITS.match(l)
        if m and not RAW_BITS.search(self.fn):
            p, ty, a, it = m.groups()
            self.bump("bitcast")
            t = self.fresh()
            return f"  {t} = call {ty} @sym_bits{W[ty]}({ty} {a})\n{p}bitcast {ty} {t} to {it}\n"
        if m:
            return l
        if re.match(r"^\s*%\S+ = (fadd|fsub|fmul|fdiv|frem|fneg|fcmp|fpext|fptrunc|fptosi|fptoui|bitcast <)", l):
            if not re.match(r"^\s*%\S+ = bitcast <\d+ x i\d+> \S+ to (i\d+|<\d+ x i\d+>)\s*$", l):
                # Reaching it ends the path as not supported.
                self.bump("unhandled")
                return "  call void @sym_unsupported()\n" + l
            return l
        m = R_CALL.match(l)
        if m:
            return self.call(l, *m.groups())
        return l

    def call(self, l, p, kind, pre, name, rest):
        intr = re.match(r"^llvm\.([\w.]+?)\.(f64|f32)(?:\.i32)?$", name)
        libm = re.match(r"^(exp|log|log1p|expm1|pow|sqrt|floor|ceil|round|trunc|fabs|fmin|fmax)(f?)$", name)
        sat = re.match(r"^llvm\.fpto[us]i\.sat\.i\d+\.(f64|f32)$", name)
        if sat:
            ty = "double" if sat.group(1) == "f64" else "float"
            args, tail = args_of(rest)
            a = args[0].split()[-1]
            t = self.fresh()
            self.bump("fptoint")
            return f"  {t} = call {ty} @sym_conc{W[ty]}({ty} {a})\n{p}{kind}{pre}@{name}({ty} {t}){tail}\n"
        if intr or libm:
            if intr:
                op, ty = intr.group(1), ("double" if intr.group(2) == "f64" else "float")
            else:
                op, ty = libm.group(1), ("float" if libm.group(2) else "double")
                op = {"fmin": "minnum", "fmax": "maxnum"}.get(op, op)
            w = W[ty]
            args, tail = args_of(rest)
            vals = [a.split()[-1] for a in args]
            br = ""
            if kind == "invoke":
                self.errors.append("invoke of a float intrinsic: " + l.strip())
            if op in UN:
                self.bump(op)
                return f"{p}call {ty} @sym_un{w}(i32 {UN[op]}, {ty} {vals[0]})\n{br}"
            if op == "copysign" and RAW_BITS.search(self.fn):
                return l
            if op in BIN:
                self.bump(op)
                return f"{p}call {ty} @sym_bin{w}(i32 {BIN[op]}, {ty} {vals[0]}, {ty} {vals[1]})\n{br}"
            if op == "powi":
                self.bump(op)
                return f"{p}call {ty} @sym_powi{w}({ty} {vals[0]}, i32 {vals[1]})\n"
            if op in ("fma", "fmuladd"):
                self.bump(op)
                return f"{p}call {ty} @sym_fma{w}({ty} {vals[0]}, {ty} {vals[1]}, {ty} {vals[2]})\n"
            return self.concrete_args(l, p, kind, pre, name, rest)
        if LIBM.match(name):
            return self.concrete_args(l, p, kind, pre, name, rest)
        return l

    def concrete_args(self, l, p, kind, pre, name, rest):
        """A float function without a symbolic counterpart: its arguments have to be concrete."""
        args, tail = args_of(rest)
        head, new = "", []
        for a in args:
            m = re.match(r"^(double|float)\b(.*?)(\S+)$", a)
            if m:
                t = self.fresh()
                head += f"  {t} = call {m.group(1)} @sym_nobits{W[m.group(1)]}({m.group(1)} {m.group(3)})\n"
                a = f"{m.group(1)} {t}"
            new.append(a)
        self.bump("concrete_only")
        return f"{head}{p}{kind}{pre}@{name}({', '.join(new)}){tail}\n"

    def run(self, src, dst, own=lambda name: False):
        """`own(name)`: functions whose basic blocks get a coverage counter."""
        out = []
        skip = False
        fns = set()
        self.blocks = []
        track = pending = False
        with open(src) as f:
            for l in f:
                if skip:
                    if l.startswith("}"):
                        skip = False
                        out.append(l)
                    continue
                if l.startswith("define "):
                    m = R_DEFINE.match(l)
                    if m:
                        fns.add(m.group(1))
                        self.fn = m.group(1)
                        body = self.special_body(m.group(1), m.group(2))
                        if body is not None:
                            out.append(l)
                            out.append("start:\n" + body)
                            self.bump("replaced_fn")
                            skip = True
                            continue
                    out.append(l)
                    track = bool(m) and own(self.fn)
                    pending = False
                    continue
                if l.startswith("attributes #"):
                    l = re.sub(r"\b(nounwind|willreturn|memory\([^)]*\))", "", l)
                    l = l.replace("{", '{ "sym"', 1)
                    out.append(l)
                    continue
                if l.startswith("declare "):
                    out.append(l)
                    continue
                if track and re.match(r"^[\w.$\"-]+:", l):
                    pending = True
                if l and l[0] in " \t":
                    if pending and l.strip() and not l.strip().startswith(";") and not re.match(
                            r"^\s*%\S+ = (phi|landingpad|cleanuppad|catchpad)\b", l) and not re.match(
                            r"^\s*(cleanup|catch|filter)\b", l):
                        out.append(f"  store i8 1, ptr getelementptr (i8, ptr @sym_cov, i64 {len(self.blocks)})\n")
                        self.blocks.append(self.fn)
                        pending = False
                    out.append(self.line(l))
                else:
                    out.append(l)
        d = []
        for w, ty in (("64", "double"), ("32", "float")):
            for op in ("fadd", "fsub", "fmul", "fdiv", "frem"):
                d.append(f"declare {ty} @sym_{op}{w}({ty}, {ty})")
            d.append(f"declare {ty} @sym_fneg{w}({ty})")
            d.append(f"declare zeroext i1 @sym_fcmp{w}(i32, {ty}, {ty})")
            d.append(f"declare {ty} @sym_un{w}(i32, {ty})")
            d.append(f"declare {ty} @sym_bin{w}(i32, {ty}, {ty})")
            d.append(f"declare {ty} @sym_powi{w}({ty}, i32)")
            d.append(f"declare {ty} @sym_fma{w}({ty}, {ty}, {ty})")
            d.append(f"declare {ty} @sym_conc{w}({ty})")
            d.append(f"declare {ty} @sym_nobits{w}({ty})")
            d.append(f"declare {ty} @sym_bits{w}({ty})")
            d.append(f"declare i8 @sym_total_cmp{w}(ptr, ptr)")
            d.append(f"declare zeroext i1 @sym_isneg{w}({ty})")
        d.append("declare void @sym_unsupported()")
        n = max(1, len(self.blocks))
        d.append(f"@sym_cov = global [{n} x i8] zeroinitializer")
        d.append(f"@sym_cov_len = constant i64 {n}")
        d.append("declare double @sym_fpext(float)")
        d.append("declare float @sym_fptrunc(double)")
        out.append("\n" + "\n".join(d) + "\n")
        if self.errors:
            raise SystemExit("instrument: " + "\n".join(self.errors[:20]))
        with open(dst, "w") as f:
            f.writelines(out)
        return fns


if __name__ == "__main__":
    i = Instrument()
    i.run(sys.argv[1], sys.argv[2])
    print(i.count, file=sys.stderr)
