#!/usr/bin/env python3
"""proto3 -> small self-contained C++ message classes (for the solver run and
its native replay; the wire format is a fixed-width one, see pbl.h).

usage: protolite.py REPO OUTDIR a.proto b.proto ...   (imports are followed)
Generates OUTDIR/<path>.pb.h
"""
import os
import re
import sys

SCALAR = {"double": "double", "float": "float", "int32": "int32_t", "int64": "int64_t", "uint32": "uint32_t",
          "uint64": "uint64_t", "sint32": "int32_t", "sint64": "int64_t", "fixed32": "uint32_t", "fixed64": "uint64_t",
          "sfixed32": "int32_t", "sfixed64": "int64_t", "bool": "bool", "string": "std::string", "bytes": "std::string"}


def tokenize(s):
    s = re.sub(r"//[^\n]*", "", s)
    s = re.sub(r"/\*.*?\*/", "", s, flags=re.S)
    return re.findall(r'"[^"]*"|[A-Za-z_][\w.]*|\.[A-Za-z_][\w.]*|-?\d+|[{}=;<>,\[\]()]', s)


class Msg:
    def __init__(self, name, outer, pkg):
        self.name, self.outer, self.pkg = name, outer, pkg
        self.fields, self.msgs, self.enums, self.oneofs = [], [], [], []

    @property
    def cname(self):
        return (self.outer.cname + "_" if self.outer else "") + self.name

    @property
    def full(self):
        return (self.outer.full if self.outer else self.pkg) + "." + self.name


class Enum:
    def __init__(self, name, outer, pkg):
        self.name, self.outer, self.pkg, self.vals = name, outer, pkg, []

    cname = Msg.cname
    full = Msg.full


class File:
    pass


def parse(path):
    t = tokenize(open(path).read())
    f = File()
    f.pkg, f.imports, f.msgs, f.enums = "", [], [], []
    p = [0]

    def nx():
        p[0] += 1
        return t[p[0] - 1]

    def skip_to(c):
        while nx() != c:
            pass

    def enum(outer):
        e = Enum(nx(), outer, f.pkg)
        assert nx() == "{"
        while True:
            a = nx()
            if a == "}":
                break
            if a in ("reserved", "option"):
                skip_to(";")
                continue
            assert nx() == "="
            e.vals.append((a, int(nx())))
            skip_to(";")
        return e

    def field(m, first, oneof=None):
        rep = opt = False
        ty = first
        if ty == "repeated":
            rep, ty = True, nx()
        elif ty == "optional":
            opt, ty = True, nx()
        if ty == "map":
            assert nx() == "<"
            k = nx()
            assert nx() == ","
            v = nx()
            assert nx() == ">"
            name = nx()
            assert nx() == "="
            num = int(nx())
            skip_to(";")
            m.fields.append(dict(kind="map", k=k, v=v, name=name, num=num, oneof=None))
            return
        name = nx()
        assert nx() == "=", (path, m.name, name)
        num = int(nx())
        skip_to(";")
        m.fields.append(dict(kind="rep" if rep else "one", ty=ty, name=name, num=num, oneof=oneof, opt=opt))

    def message(outer):
        m = Msg(nx(), outer, f.pkg)
        assert nx() == "{"
        while True:
            a = nx()
            if a == "}":
                break
            if a == ";":
                continue
            if a == "message":
                m.msgs.append(message(m))
            elif a == "enum":
                m.enums.append(enum(m))
            elif a == "oneof":
                o = nx()
                m.oneofs.append(o)
                assert nx() == "{"
                while True:
                    b = nx()
                    if b == "}":
                        break
                    field(m, b, o)
            elif a in ("reserved", "option"):
                skip_to(";")
            else:
                field(m, a)
        return m

    while p[0] < len(t):
        a = nx()
        if a == "syntax" or a == "option":
            skip_to(";")
        elif a == "package":
            f.pkg = nx()
            nx()
        elif a == "import":
            b = nx()
            if b in ("public", "weak"):
                b = nx()
            f.imports.append(b.strip('"'))
            nx()
        elif a == "message":
            f.msgs.append(message(None))
        elif a == "enum":
            f.enums.append(enum(None))
        elif a == ";":
            pass
        else:
            raise SystemExit("%s: unexpected token %s" % (path, a))
    return f


def main():
    repo, out, todo = sys.argv[1], sys.argv[2], list(sys.argv[3:])
    files, order = {}, []

    def load(n):
        if n in files:
            return
        src = os.path.join(repo, n)
        if not os.path.exists(src):
            src = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "shims", n)
        files[n] = f = parse(src)
        for i in f.imports:
            load(i)
        order.append(n)

    for n in todo:
        load(n)
    types = {}

    def reg(m):
        types[m.full] = m
        for e in m.enums:
            types[e.full] = e
        for k in m.msgs:
            reg(k)

    for n in order:
        for m in files[n].msgs:
            reg(m)
        for e in files[n].enums:
            types[e.full] = e

    def resolve(ty, m):
        if ty in SCALAR:
            return SCALAR[ty], "str" if ty in ("string", "bytes") else ("flt" if ty in ("double", "float") else "int"), None
        if ty.startswith("."):
            x = types[ty[1:]]
        else:
            sc = m.full.split(".")
            x = None
            while x is None:
                x = types.get(".".join(sc + [ty]))
                if x is None:
                    if not sc:
                        raise SystemExit("unknown type " + ty)
                    sc.pop()
        c = "::" + "::".join(x.pkg.split(".") if x.pkg else []) + "::" + x.cname
        return c, "enum" if isinstance(x, Enum) else "msg", x

    for n in order:
        f = files[n]
        o = ['#pragma once', '#include "google/protobuf/message.h"']
        o += ['#include "%s.pb.h"' % i[:-6] for i in f.imports]
        ns = f.pkg.split(".") if f.pkg else []
        o += ["namespace %s {" % x for x in ns]
        enums, msgs = list(f.enums), []

        def flat(m):
            for e in m.enums:
                enums.append(e)
            for k in m.msgs:
                flat(k)
            msgs.append(m)

        for m in f.msgs:
            flat(m)
        for e in enums:
            pre = e.outer.cname + "_" if e.outer else ""
            o.append("enum %s : int {" % e.cname)
            o += ["  %s%s = %d," % (pre, a, v) for a, v in e.vals]
            o.append("};")
            o.append("inline bool %s_IsValid(int v) { switch (v) { %s return true; default: return false; } }" % (e.cname, " ".join("case %d:" % v for v in sorted(set(v for _, v in e.vals)))))
            o.append("inline std::string %s_Name(int v) { if (sym_is_symbolic((uint64_t)v)) return \"<sym>\"; switch (v) { %s default: return std::string(); } }" % (e.cname, " ".join('case %d: return "%s";' % (v, a) for a, v in dict((v, (a, v)) for a, v in e.vals[::-1]).values())))
            o.append("inline bool %s_Parse(std::string_view s, %s* out) { %s return false; }" % (e.cname, e.cname, " ".join('if (s == "%s") { *out = (%s)%d; return true; }' % (a, e.cname, v) for a, v in e.vals)))
            o.append("inline std::ostream& operator<<(std::ostream& os, %s v) { return os << %s_Name(v); }" % (e.cname, e.cname))
        # order messages so that members are complete
        done, sorted_ = set(), []

        def visit(m, st=()):
            if m.full in done or m.full in st:
                return
            for fl in m.fields:
                for ty in ([fl["ty"]] if fl["kind"] != "map" else [fl["v"]]):
                    _, k, x = resolve(ty, m)
                    if k == "msg" and x in msgs:
                        visit(x, st + (m.full,))
            done.add(m.full)
            sorted_.append(m)

        for m in msgs:
            visit(m)
        for m in msgs:
            o.append("class %s;" % m.cname)
        for m in sorted_:
            c = m.cname
            o.append("class %s final : public ::google::protobuf::Message {\n public:" % c)
            for k in m.msgs:
                o.append("  typedef %s %s;" % (k.cname, k.name))
            for e in m.enums:
                o.append("  typedef %s %s;" % (e.cname, e.name))
                o += ["  static constexpr %s %s = %s_%s;" % (e.cname, a, c, a) for a, _ in e.vals]
                o.append("  static std::string %s_Name(int v) { return %s_Name(v); }" % (e.name, e.cname))
                o.append("  static bool %s_IsValid(int v) { return %s_IsValid(v); }" % (e.name, e.cname))
                o.append("  static bool %s_Parse(std::string_view s, %s* o) { return %s_Parse(s, o); }" % (e.name, e.cname, e.cname))
            for on in m.oneofs:
                cc = "".join(x.capitalize() for x in on.split("_")) + "Case"
                o.append("  enum %s { %s, %s_NOT_SET = 0 };" % (cc, ", ".join("k%s = %d" % ("".join(x[:1].upper() + x[1:] for x in fl["name"].split("_")), fl["num"]) for fl in m.fields if fl["oneof"] == on), on.upper()))
                o.append("  %s %s_case() const { return (%s)%s_case_; }" % (cc, on, cc, on))
                o.append("  void clear_%s() { %s_case_ = 0; }" % (on, on))
                o.append("  bool has_%s() const { return %s_case_ != 0; }" % (on, on))
            mem, wr, rd, isd, eq = [], [], [], [], []
            for on in m.oneofs:
                mem.append("  int %s_case_ = 0;" % on)
                wr.append("    ::pbl::W(o, %s_case_);" % on)
                rd.append("    if (!::pbl::R(i, %s_case_)) return false;" % on)
                isd.append("::pbl::D(%s_case_)" % on)
            for fl in m.fields:
                nm = fl["name"]
                v = nm + "_"
                if fl["kind"] == "map":
                    kt, _, _ = resolve(fl["k"], m)
                    vt, _, _ = resolve(fl["v"], m)
                    T = "::google::protobuf::Map<%s, %s>" % (kt, vt)
                    mem.append("  %s %s;" % (T, v))
                    o.append("  const %s& %s() const { return %s; }\n  %s* mutable_%s() { return &%s; }\n  int %s_size() const { return (int)%s.size(); }\n  void clear_%s() { %s.clear(); }" % (T, nm, v, T, nm, v, nm, v, nm, v))
                elif fl["kind"] == "rep":
                    ct, k, _ = resolve(fl["ty"], m)
                    T = "::google::protobuf::%s<%s>" % ("RepeatedPtrField" if k in ("str", "msg") else "RepeatedField", ct)
                    mem.append("  %s %s;" % (T, v))
                    o.append("  const %s& %s() const { return %s; }\n  %s* mutable_%s() { return &%s; }\n  int %s_size() const { return (int)%s.size(); }\n  void clear_%s() { %s.Clear(); }" % (T, nm, v, T, nm, v, nm, v, nm, v))
                    if k in ("str", "msg"):
                        o.append("  const %s& %s(int i) const { return %s.Get(i); }\n  %s* mutable_%s(int i) { return %s.Mutable(i); }\n  %s* add_%s() { return %s.Add(); }" % (ct, nm, v, ct, nm, v, ct, nm, v))
                        if k == "str":
                            o.append("  void add_%s(const std::string& x) { *%s.Add() = x; }\n  void add_%s(std::string&& x) { *%s.Add() = std::move(x); }\n  void add_%s(const char* x) { *%s.Add() = x; }\n  void add_%s(const void* p, size_t n) { %s.Add()->assign((const char*)p, n); }\n  void set_%s(int i, const std::string& x) { *%s.Mutable(i) = x; }" % (nm, v, nm, v, nm, v, nm, v, nm, v))
                    else:
                        o.append("  %s %s(int i) const { return %s.Get(i); }\n  void add_%s(%s x) { %s.Add(x); }\n  void set_%s(int i, %s x) { %s.Set(i, x); }" % (ct, nm, v, nm, ct, v, nm, ct, v))
                else:
                    ct, k, _ = resolve(fl["ty"], m)
                    on = fl["oneof"]
                    case = "%s_case_ = %d;" % (on, fl["num"]) if on else ""
                    if on:
                        has = "%s_case_ == %d" % (on, fl["num"])
                    elif k == "msg":
                        has = "has_%s_" % nm
                    else:
                        has = None
                    if k == "msg":
                        mem.append("  %s %s;" % (ct, v))
                        if not on:
                            mem.append("  bool has_%s_ = false;" % nm)
                            case = "has_%s_ = true;" % nm
                            wr.append("    ::pbl::W(o, has_%s_);" % nm)
                            rd.append("    if (!::pbl::R(i, has_%s_)) return false;" % nm)
                            isd.append("::pbl::D(has_%s_)" % nm)
                            eq.append("has_%s_ == x.has_%s_" % (nm, nm))
                        o.append("  bool has_%s() const { return %s; }" % (nm, has))
                        reset = "if (!(%s)) %s = %s(); " % (has, v, ct)
                        o.append("  const %s& %s() const { static const %s dflt; return %s ? %s : dflt; }" % (ct, nm, ct, has, v))
                        o.append("  %s* mutable_%s() { %s%s return &%s; }" % (ct, nm, reset, case, v))
                        o.append("  void clear_%s() { %s = %s(); %s }" % (nm, v, ct, "if (%s) %s_case_ = 0;" % (has, on) if on else "has_%s_ = false;" % nm))
                        o.append("  void set_allocated_%s(%s* p) { if (p) { *mutable_%s() = *p; delete p; } else clear_%s(); }" % (nm, ct, nm, nm))
                    elif k == "str":
                        mem.append("  std::string %s;" % v)
                        o.append("  const std::string& %s() const { return %s; }" % (nm, v))
                        o.append("  void set_%s(std::string x) { %s %s = std::move(x); }\n  void set_%s(const char* x) { %s %s = x; }\n  void set_%s(std::string_view x) { %s %s.assign(x.data(), x.size()); }\n  void set_%s(const void* p, size_t n) { %s %s.assign((const char*)p, n); }" % (nm, case, v, nm, case, v, nm, case, v, nm, case, v))
                        o.append("  std::string* mutable_%s() { %s return &%s; }\n  void clear_%s() { %s.clear(); }" % (nm, case, v, nm, v))
                        if on:
                            o.append("  bool has_%s() const { return %s; }" % (nm, has))
                    else:
                        mem.append("  %s %s{};" % (ct, v))
                        o.append("  %s %s() const { return %s; }\n  void set_%s(%s x) { %s %s = x; }\n  void clear_%s() { %s = %s(); }" % (ct, nm, v, nm, ct, case, v, nm, v, ct))
                        if on:
                            o.append("  bool has_%s() const { return %s; }" % (nm, has))
                wr.append("    ::pbl::W(o, %s);" % v)
                rd.append("    if (!::pbl::R(i, %s)) return false;" % v)
                isd.append("::pbl::D(%s)" % v)
                eq.append("::pbl::E(%s, x.%s)" % (v, v))
            o.append("  static const %s& default_instance() { static const %s d; return d; }" % (c, c))
            o.append("  void Clear() override { *this = %s(); }" % c)
            o.append("  std::string GetTypeName() const override { return \"%s\"; }" % m.full)
            o.append("  void CopyFrom(const %s& x) { *this = x; }" % c)
            o.append("  void Swap(%s* x) { std::swap(*this, *x); }" % c)
            o.append("  void PblWrite(std::string& o) const override {\n%s\n  }" % "\n".join(wr))
            o.append("  bool PblRead(::pbl::In& i) override {\n%s\n    return true;\n  }" % "\n".join(rd))
            o.append("  bool PblDefault() const override { return %s; }" % (" && ".join(isd) or "true"))
            for on in m.oneofs:
                eq.append("%s_case_ == x.%s_case_" % (on, on))
            o.append("  bool operator==(const %s& x) const { return %s; }" % (c, " && ".join(eq) or "true"))
            o.append("  bool PblEquals(const ::google::protobuf::Message& m) const override { return *this == static_cast<const %s&>(m); }" % c)
            o += mem
            o.append("};")
        o += ["}"] * len(ns)
        dst = os.path.join(out, n[:-6] + ".pb.h")
        os.makedirs(os.path.dirname(dst), exist_ok=True)
        open(dst, "w").write("\n".join(o) + "\n")


if __name__ == "__main__":
    main()
