"""Tree specifications, and their translation to (a) an arg_router parse tree and (b) the model's description."""
LANGS = ["en_GB", "fr", "ja"]

class L:
    """A string with one text per language."""
    def __init__(self, *texts): self.t = list(texts)

class N:
    def __init__(self, kind, *children, **kw):
        self.kind, self.children, self.kw = kind, list(children), kw
    def g(self, k, d=None): return self.kw.get(k, d)

class E:
    """index of a run-time switch / value in the instance's configuration"""
    def __init__(self, i): self.i = i

def root(*c, **k): return N("Root", *c, **k)
def mode(*c, **k): return N("Mode", *c, **k)
def flag(**k): return N("Flag", **k)
def cflag(**k): return N("CFlag", **k)
def arg(vt, **k): return N("Arg", vt=vt, **k)
def multi(vt, **k): return N("Multi", vt=vt, list=True, **k)
def pos(vt, **k): return N("Pos", vt=vt, list=k.pop("list", True), **k)
def fwd(**k): return N("Fwd", vt="View", list=True, arvec=True, **k)
def help_(**k): return N("Help", **k)
def one_of(*c, **k): return N("OneOf", *c, **k)
def alias_group(*c, **k): return N("AliasGroup", *c, **k)

CPP = dict(Bool="bool", Int="int", Double="double", Str="std::string", View="std::string_view", Probe="sim::Probe",
           Enum="sim::Color", OptInt="std::optional<int>", Level="sim::Level",
           UInt="unsigned", I64="std::int64_t", U64="std::uint64_t", I8="std::int8_t", U8="std::uint8_t", Float="float", Char="char")
INTS = ("Int", "UInt", "I64", "U64", "I8", "U8")

def q(s):
    out = '"'
    for b in s.encode() if isinstance(s, str) else s:
        c = chr(b)
        if c in '"\\': out += "\\" + c
        elif c == "\n": out += "\\n"
        elif 32 <= b < 127 and c != "?": out += c
        else: out += "\\%03o" % b
    return out + '"'

def enc_str(s):
    r = "s"
    for b in s.encode():
        c = chr(b)
        if 0x20 <= b < 0x7F and c not in "|;%[]": r += c
        else: r += "%%%02X" % b
    return r

class Gen:
    def __init__(self, name, root, flags=(), langs=None):
        self.name, self.root, self.flags, self.langs = name, root, flags, langs
        self.texts = []      # L objects
        self.views = []
        self.next_router = 0
        self.switches = 0

    # ---- strings
    def s(self, v):
        if isinstance(v, L):
            if v not in self.texts: self.texts.append(v)
            return "typename T::s%d{}" % self.texts.index(v)
        return q(v) + "_S"
    def ms(self, v):
        if isinstance(v, L):
            return "pick(lang, {%s})" % ", ".join("std::string{%s}" % q(t) for t in v.t)
        return "std::string{%s}" % q(v)

    def vtype(self, n):
        if n.kind in ("Flag",): return "bool"
        if n.kind == "CFlag": return CPP[n.g("vt", "Int")]
        if n.kind == "Fwd": return "ar::vector<std::string_view>"
        if n.kind == "OneOf":
            ts = []
            for c in n.children:
                t = self.vtype(c)
                if t not in ts: ts.append(t)
            return ts[0] if len(n.children) == 1 else "std::variant<%s>" % ", ".join(self.vtype(c) for c in n.children)
        if n.kind == "AliasGroup": return self.vtype(n.children[0])
        t = CPP[n.g("vt")]
        if n.g("list"):
            return "%s<%s>" % ("ar::vector" if n.g("arvec") else "std::vector", t)
        return t
    def en(self, e):
        if isinstance(e, E):
            self.switches = max(self.switches, e.i + 1)
            return "cfg.e(%d)" % e.i
        return "true" if e else "false"
    def num(self, v):
        return "cfg.v[%d]" % v.i if isinstance(v, E) else str(v)
    # default value -> (C++ expression, model encoding expression, model number)
    def default(self, n, v):
        if n.kind == "OneOf":
            vt, val = v
            e, m, k = self.default(N("Arg", vt=vt), val)
            return "%s" % e, '"v(" + (%s) + ")"' % m, k
        vt = {"Flag": "Bool", "CFlag": n.g("vt", "Int")}.get(n.kind) or (n.children[0].g("vt") if n.kind == "AliasGroup" else n.g("vt"))
        if n.kind == "AliasGroup" and vt is None: vt = "Int" if n.children[0].kind == "CFlag" else "Bool"
        if n.g("list"):
            es, ms = [], []
            for x in v:
                e, m, _ = self.default(N("Arg", vt=vt), x)
                es.append(e); ms.append(m)
            return "%s{%s}" % (self.vtype(n), ", ".join(es)), 'std::string{"["}+' + '+";"+'.join(ms or ['""']) + '+"]"', "0"
        if vt == "Int" and isinstance(v, E): return "(int)cfg.v[%d]" % v.i, '"i"+std::to_string((int)cfg.v[%d])' % v.i, "cfg.v[%d]" % v.i
        if vt in INTS and vt != "Int": return "static_cast<%s>(%dLL)" % (CPP[vt], v), 'std::string{"i%d"}' % v, "%dL" % v
        if vt == "Float": return "%rf" % float(v), "fenc(%rf)" % float(v), repr(float(v))
        if vt == "Char": return "char{%d}" % ord(v), 'std::string{"c%d"}' % ord(v), "0"
        if vt == "Int": return str(v), 'std::string{"i%d"}' % v, str(v)
        if vt == "Bool": return ("true" if v else "false"), 'std::string{"b%d"}' % v, "0"
        if vt == "Double":
            h = float(v).hex()
            return repr(float(v)), "denc(%r)" % float(v), repr(float(v))
        if vt == "Str": return "std::string{%s}" % q(v), "std::string{%s}" % q(enc_str(v)), "0"
        if vt == "View":
            self.views.append(v)
            return "view_%d" % (len(self.views) - 1), "std::string{%s}" % q(enc_str(v)), "0"
        if vt == "Probe": return "sim::Probe{%s, sim::Probe::Quiet{}}" % q(v), "std::string{%s}" % q("p" + enc_str(v)), "0"
        if vt == "Enum": return "sim::Color::%s" % v, 'std::string{"e%d"}' % ["red", "green", "blue"].index(v), "0"
        if vt == "Level":
            i = ["none", "some", "more", "most"].index(v)
            return "sim::Level::%s" % v, 'std::string{"i%d"}' % i, str(i)
        if vt == "OptInt":
            if v is None: return "std::optional<int>{}", 'std::string{"n"}', "0"
            return "std::optional<int>{%d}" % v, 'std::string{"i%d"}' % v, "0"
        raise Exception(vt)

    def names(self, l):
        return ", ".join("arp::%s_name_t{%s}" % (k, self.s(v)) for k, v in l)

    def limits(self, n):
        lo, hi = n.g("min"), n.g("max")
        lvl = n.g("vt") == "Level"
        lt = n.g("limtype")      # type of the limits, if not int
        def c(v): return "sim::Level::%s" % ["none", "some", "more", "most"][v] if lvl else "static_cast<%s>(%s)" % (lt, v) if lt else str(v)
        if n.g("rtlim"):
            if lo is not None and hi is not None: return "arp::min_max_value((%s)%s, (%s)%s)" % (lt, lo, lt, hi)
            if lo is not None: return "arp::min_value((%s)%s)" % (lt, lo)
            return "arp::max_value((%s)%s)" % (lt, hi)
        if isinstance(lo, E) or isinstance(hi, E):
            if lo is not None and hi is not None: return "arp::min_max_value((int)%s, (int)%s)" % (self.num(lo), self.num(hi))
            if lo is not None: return "arp::min_value((int)%s)" % self.num(lo)
            return "arp::max_value((int)%s)" % self.num(hi)
        if lo is not None and hi is not None: return "arp::min_max_value<%s, %s>()" % (c(lo), c(hi))
        if lo is not None: return "arp::min_value<%s>()" % c(lo)
        return "arp::max_value<%s>()" % c(hi)

    def result_children(self, n):
        return [c for c in n.children if c.kind not in ("Mode", "Help") and not c.g("alias")]

    # ---- C++ tree
    def cpp(self, n, ind="    "):
        p = []
        if n.kind == "Root": p.append("arp::validation::default_validator")
        if n.kind == "Root" and self.langs and n.g("translated"): p.append("arp::exception_translator<T>")
        for k, t in (("long", "long_name_t"), ("short", "short_name_t"), ("none", "none_name_t"), ("display", "display_name_t"),
                     ("desc", "description_t")):
            if n.g(k) is not None: p.append("arp::%s{%s}" % (t, self.s(n.g(k))))
        if n.g("sep"): p.append("arp::value_separator_t{%s}" % self.s(n.g("sep")))
        if n.g("marker"): p.append("arp::token_end_marker_t{%s}" % self.s(n.g("marker")))
        if n.g("count"):
            a, b = n.g("count")
            if a == b: p.append("arp::fixed_count<%d>" % a)
            elif b is None: p.append("arp::min_count<%d>" % a)
            elif a == 0: p.append("arp::max_count<%d>" % b)
            else: p.append("arp::min_max_count<%d, %d>" % (a, b))
        if n.g("required"): p.append("arp::required")
        if n.g("default") is not None or n.g("default_none"):
            e, _, _ = self.default(n, n.g("default"))
            t = self.vtype(n)
            p.append("arp::default_value{%s}" % (("%s{%s}" % (t, e)) if n.kind == "OneOf" else e))
        if n.g("min") is not None or n.g("max") is not None: p.append(self.limits(n))
        if n.g("alias"): p.append("arp::alias_t{%s}" % self.names(n.g("alias")))
        if n.g("dep"): p.append("arp::dependent_t{%s}" % self.names(n.g("dep")))
        if n.g("en") is not None: p.append("arp::runtime_enable<>{%s}" % self.en(n.g("en")))
        if n.g("rtreq") is not None:
            e, v = n.g("rtreq")
            x, _, _ = self.default(n, v)
            p.append("arp::runtime_enable_required<%s>{%s, %s}" % (self.vtype(n), self.en(e), x))
        if n.g("parser"):
            t = CPP[n.g("vt")]
            fn = {"Probe": "sim::parse_probe", "Enum": "sim::parse_color"}[n.g("vt")]
            p.append("arp::custom_parser<%s>{[](std::string_view s) -> %s { return %s(s); }}" % (t, t, fn))
        if n.kind == "Help":
            for k, t in (("prog", "program_name_t"), ("version", "program_version_t"), ("intro", "program_intro_t"), ("addendum", "program_addendum_t")):
                if n.g(k) is not None: p.append("arp::%s{%s}" % (t, self.s(n.g(k))))
            if n.g("flatten"): p.append("arp::flatten_help")
            i = n.g("indent")
            f = "colour_help_formatter_t" if n.g("colour") else "default_help_formatter_t"
            if i: p.append("arp::%s<ar::traits::integral_constant<std::size_t{%d}>>{}" % (f, i))
            elif n.g("colour"): p.append("arp::colour_help_formatter")
        for c in n.children: p.append(self.cpp(c, ind + "    "))
        if n.g("router"):
            rid = self.rid(n)
            if n.kind == "Help":
                p.append("arp::router{[](ar::ostringstream&& s) { sim::route_help(%d, std::move(s)); }}" % rid)
            else:
                ts = [self.vtype(c) for c in self.result_children(n)] if n.kind == "Mode" else [self.vtype(n)]
                byref = n.g("router") == "ref"
                p.append("arp::router{[](%s) { sim::route(%s); }}" % (
                    ", ".join("%s a%d" % (t + ("&&" if byref else ""), i) for i, t in enumerate(ts)),
                    ", ".join([str(rid)] + ["a%d" % i for i in range(len(ts))])))
        fn = {"Root": "ar::root", "Mode": "ar::mode", "Flag": "ar::flag", "Help": "ar::help", "Fwd": "ar::forwarding_arg",
              "OneOf": "ard::one_of", "AliasGroup": "ard::alias_group"}.get(n.kind)
        if n.kind == "CFlag": fn = "ar::counting_flag<%s>" % CPP[n.g("vt", "Int")]
        if n.kind == "Arg": fn = "ar::arg<%s>" % CPP[n.g("vt")]
        if n.kind == "Multi": fn = "ar::multi_arg<%s>" % self.vtype(n)
        if n.kind == "Pos": fn = "ar::positional_arg<%s>" % self.vtype(n)
        return fn + "(\n" + ind + (",\n" + ind).join(p) + ")"

    def rid(self, n):
        if not hasattr(n, "_rid"):
            n._rid = self.next_router
            self.next_router += 1
        return n._rid

    # ---- model description
    def model(self, n, out, var, depth=0):
        w = lambda s: out.append("    " + s)
        w("%s.kind = sim::K::%s;" % (var, n.kind))
        for k, f in (("long", "long_name"), ("short", "short_name"), ("none", "none_name"), ("display", "display"), ("desc", "desc"), ("sep", "sep"),
                     ("marker", "marker"), ("prog", "prog"), ("version", "version"), ("intro", "intro"), ("addendum", "addendum")):
            if n.g(k) is not None: w("%s.%s = %s;" % (var, f, self.ms(n.g(k))))
        if n.kind in ("Multi", "Pos", "Fwd"):
            a, b = n.g("count") or (1 if n.kind == "Multi" else 0, None)
            w("%s.minc = %d; %s.maxc = %s;" % (var, a, var, "sim::unbounded" if b is None else b))
        if n.g("list"): w("%s.list = true;" % var)
        vt = n.g("vt")
        if n.kind == "CFlag": vt = "Int"
        if n.kind == "Flag": vt = "Bool"
        if vt: w("%s.vt = sim::VT::%s;" % (var, vt))
        if n.g("required"): w("%s.required = true;" % var)
        if n.g("default") is not None or n.g("default_none"):
            _, m, k = self.default(n, n.g("default"))
            w("%s.has_default = true; %s.def = %s; %s.def_num = %s;" % (var, var, m, var, k))
        elif n.g("rtreq") is not None:
            _, m, k = self.default(n, n.g("rtreq")[1])
            w("%s.has_default = true; %s.def = %s; %s.def_num = %s;" % (var, var, m, var, k))
        if n.kind == "Flag": w("%s.has_default = true; %s.def = \"b0\";" % (var, var))
        if n.g("en") is not None: w("%s.enable = %s ? 1 : 0;" % (var, self.en(n.g("en"))))
        if n.g("rtreq") is not None: w("%s.rt_required = %s ? 1 : 0;" % (var, self.en(n.g("rtreq")[0])))
        for k, f in (("alias", "aliases"), ("dep", "deps")):
            for kind, v in n.g(k) or []:
                w("%s.%s.push_back({%s, %s});" % (var, f, "true" if kind == "long" else "false", self.ms(v)))
        lo, hi = n.g("min"), n.g("max")
        lim = n.g("limtype")
        if lo is not None: w("%s.has_min = true; %s.minv = %s%s;" % (var, var, "" if lim else "(int)", self.num(lo)))
        if hi is not None: w("%s.has_max = true; %s.maxv = %s%s;" % (var, var, "" if lim else "(int)", self.num(hi)))
        if n.g("limtype") in ("unsigned", "std::size_t", "std::uint8_t"): w("%s.unsigned_limits = true;" % var)
        if (lo is not None or hi is not None) and not isinstance(lo, E) and not isinstance(hi, E) and not n.g("rtlim"): w("%s.ct_limits = true;" % var)
        if n.g("flatten"): w("%s.flatten = true;" % var)
        if n.g("colour"): w("%s.colour = true;" % var)
        if n.g("indent"): w("%s.indent = %d;" % (var, n.g("indent")))
        if n.g("router"): w("%s.router = %d;" % (var, self.rid(n)))
        if n.kind == "Root":
            for code, text in (n.g("messages") or {}).items():
                w("if (auto m = %s; !m.empty()) %s.messages[%d] = m;" % (self.ms(text), var, code))
        for i, c in enumerate(n.children):
            cv = "n%d_%d" % (depth + 1, i)
            w("{ sim::Node %s;" % cv)
            self.model(c, out, cv, depth + 1)
            w("%s.children.push_back(std::move(%s)); }" % (var, cv))

    CODES = {0: "unknown_argument", 1: "unhandled_arguments", 2: "argument_has_already_been_set", 3: "failed_to_parse", 4: "no_arguments_passed",
             5: "minimum_value_not_reached", 6: "maximum_value_exceeded", 7: "minimum_count_not_reached", 8: "maximum_count_exceeded",
             9: "unknown_argument_with_suggestion", 100: "mode_requires_arguments", 101: "missing_required_argument",
             102: "too_few_values_for_alias", 103: "dependent_argument_missing", 104: "one_of_selected_type_mismatch", 105: "missing_value_separator"}

    def emit(self):
        tree = self.cpp(self.root, "        ")
        m = []
        self.model(self.root, m, "r")
        o = ['#include "harness.hpp"', "using namespace ar::literals;", "namespace {", "namespace tree_%s {" % self.name]
        for i, v in enumerate(self.views):
            o.append("constexpr std::string_view view_%d{%s};" % (i, q(v)))
            o.append("sim::ViewReg view_reg_%d{view_%d};" % (i, i))
        o.append('[[maybe_unused]] std::string denc(double d) { return sim::enc(d); }')
        o.append('[[maybe_unused]] std::string fenc(float d) { return sim::enc(d); }')
        o.append('''[[maybe_unused]] std::string pick(int lang, std::initializer_list<std::string> l) { return *(l.begin() + lang); }''')
        if self.langs:
            o.append("template <typename Id> struct Texts;")
            for li, lang in enumerate(self.langs):
                o.append("template <> struct Texts<ar::str<%s>> {" % q(lang))
                for i, t in enumerate(self.texts): o.append("    using s%d = AR_STRING(%s);" % (i, q(t.t[li])))
                if self.root.g("translated"):
                    es = ["std::pair<ar::traits::integral_constant<ar::error_code::%s>, AR_STRING(%s)>" % (self.CODES[c], q(t.t[li]))
                          for c, t in (self.root.g("messages") or {}).items() if t.t[li]]
                    o.append("    using error_code_translations = std::tuple<%s>;" % ",\n        ".join(es))
                o.append("};")
            o.append("sim::Inst* make([[maybe_unused]] const sim::Cfg& cfg)\n{")
            o.append("    const auto factory = [&](auto tr_) {\n        using T = Texts<typename sim::lang_id<decltype(tr_)>::type>;\n        return %s;\n    };" % tree)
            o.append("    return sim::make_inst(cfg.v[7], [&] { return ar::multi_lang::root<%s>(ar::multi_lang::iso_locale(cfg.lang), factory); });\n}" %
                     ", ".join("ar::str<%s>" % q(l) for l in self.langs))
        else:
            o.append("sim::Inst* make([[maybe_unused]] const sim::Cfg& cfg)\n{\n    return sim::make_inst(cfg.v[7], [&] { return %s; });\n}" % tree)
        o.append("sim::Node describe([[maybe_unused]] const sim::Cfg& cfg)\n{")
        o.append("    [[maybe_unused]] const int lang = sim::lang_index(cfg.lang, {%s});" % ", ".join(q(l) for l in self.langs or []))
        o.append("    sim::Node r;")
        o += m
        o.append("    return r;\n}")
        fl = ["0"] + ["sim::tf_" + f for f in self.flags]
        if self.switches: fl.append("sim::tf_switch")
        if self.langs: fl.append("sim::tf_lang")
        o.append("sim::TreeReg reg{%s, make, describe, %s, %d};" % (q(self.name), " | ".join(fl), self.switches))
        o.append("}\n}")
        return "\n".join(o) + "\n"
