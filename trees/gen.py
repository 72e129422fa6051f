"""Seeded random trees.  Keeps to what the default validator and the documentation allow."""
import random
from spec import *

WORDS = ["alpha", "beta", "gamma", "delta", "epsilon", "zeta", "input", "output", "output-file", "verbose", "quiet", "all", "force", "dry-run", "level", "name",
         "depth", "width", "height", "colour", "color", "theme", "mode", "max-lines", "min-lines", "tags", "list", "show-all", "show-ends", "xy", "xyz", "no-pager",
         "größe", "été", "日本", "名前", "año", "помощь", "한국어", "größer", "ünï"]
SHORT = list("abcdefgijklmnopqrstuvwxyzABCDEFGIJKLMNOPQRSTUVWXYZ0") + ["ß", "é", "日", "ж", "名"]
MODES = ["add", "remote", "prune", "fetch", "copy", "run", "build-all", "x1", "größe-mode", "一覧"]
DESC = ["Show it", "Display the full version information of this program and then exit", "Maximum number of lines to output", "日本語の説明", "Die Größe, in Zeichen",
        "A", "Set the thing that was set before to another thing, unless it was not set at all; see the manual for more about it",
        "Averyverylongsinglewordwithoutanyplacetobreakit", "One, two, three", "Force it"]
# drawn apart from the rest, so that they change nothing else about a tree
DESC2 = ['Either "fast" or "slow" (the default is "fast"), or "none" - "any"', "Use - or -- to stop - see the manual - or --- - - - - -", "Rate in % or $/s (e.g. 50%, +10 or 3.5/s); [optional]!",
         "Les cafe\u0301s \u2013 \u00abnai\u0308ve\u00bb e\u0301te\u0301s a\u0300 l\u2019e\u0301cole\u2026 de\u0301ja\u0300", "\u300c日本語\u300dの説明\uff08一覧\uff09、終わり。カー\uff01",
         "a/b/c-d-e|f {x} <y> 'it's' C:\\\\temp #1 & *.txt @home ~ ^ = 100-200 \u20ac5 \u00b110\u00b0", "12 345 1,000.50 (3) [4] 5% 6-7 8/9 x2 2x"]
SEP = ["=", ":", "→", "≔"]
MARK = [";", ",", "--", "END", "；"]

MORE = ["UInt", "I64", "U64", "I8", "U8", "Float", "Char"]

class G:
    def __init__(self, seed):
        self.r = random.Random(seed)
        self.r2 = random.Random("text/%s" % seed)
        self.nsw = 0
        self.strict = self.r.random() < 0.35      # only types that take their memory from the configured allocator
        self.has_help = False
        self.small = False
    def ch(self, p): return self.r.random() < p
    def pick(self, l): return self.r.choice(l)
    def sw(self):
        if self.nsw >= 20: return None
        self.nsw += 1
        return E(self.nsw - 1)
    def names(self, used, need_long=False):
        k = {}
        if need_long or self.ch(0.85):
            c = [w for w in WORDS if ("long", w) not in used]
            if c: k["long"] = self.pick(c)
        if not k or self.ch(0.55):
            c = [w for w in SHORT if ("short", w) not in used]
            k["short"] = self.pick(c)
        for a, b in k.items(): used.add((a, b))
        return k
    def desc(self, p=0.75):
        if not self.ch(p): return {}
        d = self.pick(DESC)
        return dict(desc=self.r2.choice(DESC2) if self.r2.random() < 0.35 else d)
    def vt(self, scalar=True):
        l = ["Int", "Int", "View", "Double", "Enum", "Bool"] + [self.pick(MORE)] if self.strict else ["Int", "Int", "Int", "Str", "Str", "View", "Double", "Enum", "Bool", "Probe", "OptInt", self.pick(MORE), self.pick(MORE)]
        if not scalar: l = [x for x in l if x not in ("OptInt",)]
        return self.pick(l)
    def value(self, vt, k=None):
        if vt == "Int": return self.r.randint(-20, 20)
        if vt == "I64": return self.pick([-5000000000, -1, 0, 4294967296])
        if vt == "I8": return self.r.randint(-128, 127)
        if vt in ("UInt", "U64", "U8"): return self.r.randint(0, 255)
        if vt == "Float": return self.pick([0.5, -1.25, 3.0])
        if vt == "Char": return self.pick("xZ7%")
        if vt == "Bool": return self.ch(0.5)
        if vt == "Double": return self.pick([0.5, -1.25, 3.0, 100.0])
        if vt == "Str": return self.pick(["dflt", "a rather long default text that needs the heap", ""])
        if vt == "View": return self.pick(["static view", "..", ""])
        if vt == "Probe": return self.pick(["def", "oo", "x"])
        if vt == "Enum": return self.pick(["red", "green", "blue"])
        return None
    def limits(self, k, vt):
        if not self.ch(0.4): return
        which = self.r.randrange(6)
        if which < 4:
            lo = self.r.randint(-10, 5)
            hi = lo + self.r.randint(0, 15)
            if which != 0: k["min"] = lo
            if which != 1: k["max"] = hi
            if isinstance(k.get("default"), (int, float)) and not isinstance(k.get("default"), bool):
                d = max(lo, min(hi, k["default"]))
                k["default"] = float(d) if vt in ("Float", "Double") else d if vt[0] != "U" else max(0, d)
                if k["default"] > k.get("max", 1e30) or k["default"] < k.get("min", -1e30): del k["default"]
            if vt in ("Float", "Double"):
                k["limtype"], k["rtlim"] = self.pick(["int", "double"]), 1
            elif vt != "Int":
                k["limtype"] = self.pick(["int", "std::int64_t"])
                if self.ch(0.5): k["rtlim"] = 1
        elif which == 4: k["min"], k["max"] = E(0), E(1)
        else:
            k["min"] = E(2)
        if isinstance(k.get("min"), E): k.pop("default", None)
    def opt(self, used, in_group=False, root=False):
        """an arg"""
        vt = self.vt()
        k = self.names(used, need_long=True if self.ch(0.4) else False)
        k.update(self.desc())
        if self.ch(0.35) and "long" in k: k["sep"] = self.pick(SEP)
        if k.get("sep") and "short" in k and self.ch(0.7):
            used.discard(("short", k["short"])); del k["short"]
        if vt in ("Probe", "Enum") and self.ch(0.3): k["parser"] = 1
        if not in_group and not root:
            x = self.r.random()
            if x < 0.35:
                if vt == "OptInt": k["default_none"] = 1
                else: k["default"] = self.value(vt)
            elif x < 0.5: k["required"] = 1
            elif x < 0.6 and vt != "OptInt":
                s = self.sw()
                if s: k["rtreq"] = (s, self.value(vt))
        if vt in ("Int", "UInt", "I64", "U64", "I8", "U8", "Float", "Double") and "rtreq" not in k: self.limits(k, vt)
        if "rtreq" not in k and "required" not in k and self.ch(0.15):
            s = self.sw()
            if s: k["en"] = s
        return arg(vt, **k)
    def flag(self, used, root=False):
        k = self.names(used)
        k.update(self.desc())
        if self.ch(0.15):
            s = self.sw()
            if s: k["en"] = s
        return flag(**k)
    def cflag(self, used, in_group=False):
        k = self.names(used)
        k.update(self.desc())
        if not in_group:
            if self.ch(0.4): k["max"] = self.r.randint(1, 6)
            if self.ch(0.25): k["min"] = self.r.randint(0, 1)
            if self.ch(0.5): k["default"] = max(k.get("min", 0), min(self.r.randint(0, 2), k.get("max", 9)))
            elif k.get("min"): k["default"] = k["min"]
            if self.ch(0.12):
                s = self.sw()
                if s: k["en"] = s
        return cflag(**k)
    def listy(self, k, vt):
        k["arvec"] = 1 if self.strict or self.ch(0.3) else None
        return k
    def multi(self, used):
        vt = self.vt(False)
        k = self.names(used)
        k.update(self.desc())
        self.listy(k, vt)
        if self.ch(0.5):
            n = self.r.randint(2, 3)
            k["count"] = (n, n)
        else:
            a = self.r.randint(1, 2)
            k["count"] = (a, self.pick([a + 1, a + 3, None]))
            k["marker"] = self.pick(MARK)
        if self.ch(0.3) and not (self.strict and vt in ("Str", "Probe")):
            n = k["count"][0]
            k["default"] = [self.value(vt) for _ in range(max(n, 1))]
        elif self.ch(0.2): k["required"] = 1
        return multi(vt, **k)
    def positionals(self):
        out = []
        n = self.pick([0, 0, 1, 1, 1, 2, 3])
        disp = self.r.sample(["FILES", "SRC", "DST", "NUMS", "出力", "REST"], 3)
        for i in range(n):
            vt = self.vt(False)
            k = dict(display=disp[i])
            k.update(self.desc(0.5))
            last = i == n - 1
            if self.ch(0.25):
                k["count"] = (1, 1)
                k["list"] = False
            else:
                self.listy(k, vt)
                x = self.r.random()
                if x < 0.35:
                    c = self.r.randint(1, 3)
                    k["count"] = (c, c)
                elif last and x < 0.85:
                    k["count"] = self.pick([(0, None), (1, None), (0, 2), (1, 4), (2, 3)])
                else:
                    k["count"] = self.pick([(0, 2), (1, 3), (0, None)])
                    k["marker"] = self.pick(MARK)
            if k["count"][0] >= 1 and self.ch(0.5): k["required"] = 1
            elif k.get("list") is False and self.ch(0.6): k["default"] = self.value(vt)
            out.append(pos(vt, **k))
        return out
    def one_of(self, used):
        out, types = [], []
        for _ in range(self.r.randint(2, 3)):
            if "Bool" not in types and self.ch(0.4):
                out.append(self.flag(used)); types.append("Bool")
            else:
                for _ in range(10):
                    keep = set(used)
                    a = self.opt(used, in_group=True)
                    if a.g("vt") not in types and not (a.g("vt") == "View" and "Str" in types) and not (a.g("vt") == "Str" and "View" in types) and a.g("vt") not in ("OptInt",):
                        break
                    used.clear(); used.update(keep)
                else:
                    continue
                out.append(a); types.append(a.g("vt"))
        if len(out) < 2: return out
        k = {}
        if self.ch(0.4): k["display"] = "Pick one"
        if self.ch(0.5): k["required"] = 1
        else:
            ok = [t for t in types if t != "OptInt"]
            if not ok: k["required"] = 1
            else:
                t = self.pick(ok)
                v = self.value(t)
                for c in out:
                    if c.g("vt") == t and (isinstance(c.g("min"), (int, E)) or isinstance(c.g("max"), (int, E))):
                        c.kw.pop("min", None); c.kw.pop("max", None)
                k["default"] = (t, v)
        if any(c.g("en") for c in out) and k.get("required"): pass
        return [one_of(*out, **k)]
    def group(self, used):
        n = self.r.randint(2, 3)
        k = {}
        if self.ch(0.5):
            out = [self.cflag(used, True) for _ in range(n)]
            if self.ch(0.5): k["max"] = self.r.randint(1, 5)
            k["default"] = self.r.randint(0, 1) if self.ch(0.8) else 0
        else:
            vt = self.vt()
            while vt == "OptInt": vt = self.vt()
            out = []
            for _ in range(n):
                q = self.names(used)
                q.update(self.desc(0.5))
                out.append(arg(vt, **q))
            if self.ch(0.3): k["required"] = 1
            else: k["default"] = self.value(vt)
        return [alias_group(*out, **k)]
    def body(self, used, n, nested):
        c = []
        for _ in range(n):
            x = self.r.random()
            if x < 0.3: c.append(self.flag(used))
            elif x < 0.62: c.append(self.opt(used))
            elif x < 0.72: c.append(self.cflag(used))
            elif x < 0.81: c.append(self.multi(used))
            elif x < 0.92: c += self.one_of(used)
            else: c += self.group(used)
        # aliases and dependencies refer to plain siblings
        flags = [x for x in c if x.kind == "Flag"]
        for f in flags:
            if len(flags) >= 2 and self.ch(0.25):
                t = [g for g in flags if g is not f and not g.g("alias")]
                if t and not any(a == nm for g in flags for a in (g.g("alias") or []) for nm in self.ids(f)):
                    f.kw["alias"] = [self.pick(self.ids(g)) for g in self.r.sample(t, min(len(t), self.r.randint(1, 2)))]
        plain = [x for x in c if x.kind in ("Flag", "Arg") and not x.g("alias")]
        for d in plain:
            if self.ch(0.12) and len(plain) > 1 and not d.g("required") and not d.g("rtreq"):
                o = self.pick([x for x in plain if x is not d])
                if not o.g("dep"): d.kw["dep"] = [self.pick(self.ids(o))]
        p = self.positionals()
        if not p and self.ch(0.12):
            k = dict(none=self.pick(["--", "++", "then"]))
            if self.ch(0.3): k["required"] = 1
            k.update(self.desc())
            p = [fwd(**k)]
        return c + p
    def ids(self, n):
        return [(k, n.g(k)) for k in ("long", "short") if n.g(k)]
    def mode(self, name, used_names, depth):
        used = set()
        c = []
        if depth < 2 and name and self.ch(0.25):
            sub = self.r.sample([m for m in MODES if m != name], self.r.randint(1, 2))
            c += [self.mode(s, used_names, depth + 1) for s in sub]
        c += self.body(used, self.r.randint(1, 4 if depth or self.small else 6), depth)
        k = dict(router=1)
        if name:
            k["none"] = name
            k.update(self.desc())
        if self.ch(0.12):
            s = self.sw()
            if s: k["en"] = s
        return mode(*c, **k)
    def tree(self):
        c = []
        used = set()
        k = {}
        flags = []
        if self.ch(0.6):
            h = dict(long="help", short="h") if self.ch(0.7) else dict(long="help")
            h.update(self.desc())
            if self.ch(0.6): h["prog"] = self.pick(["prog", "a-tool"])
            if self.ch(0.4): h["version"] = "v1.2.3"
            if self.ch(0.4): h["intro"] = "Does things, and more things."
            if self.ch(0.3): h["addendum"] = "See the manual."
            if self.ch(0.25): h["flatten"] = 1
            if self.ch(0.3): h["colour"] = 1
            if self.ch(0.25): h["indent"] = self.r.randint(1, 9)
            if self.ch(0.6): h["router"] = 1
            else: flags.append("exit")
            flags.append("help")
            used |= {("long", "help"), ("short", "h")}
            c.append(help_(**h))
        for _ in range(self.pick([0, 0, 1, 2])):
            x = self.flag(used) if self.ch(0.5) else self.opt(used, root=True)
            x.kw["router"] = 1
            c.append(x)
        named = self.pick([0, 1, 1, 2])
        for m in self.r.sample(MODES, named): c.append(self.mode(m, None, 0))
        if named == 0 or self.ch(0.6): c.append(self.mode(None, None, 0))
        if self.strict: flags.append("strict")
        flags += ["pos", "spell", "limits"]
        return root(*c, **k), flags

def shape(seed):
    """What the tree of this seed has."""
    g = G(seed)
    r, flags = g.tree()
    g.help_seen = "help" in flags
    def walk(n): return [n] + [x for c in n.children for x in walk(c)]
    g.lists_seen = any(n.kind in ("Multi", "Pos", "Fwd") for n in walk(r))
    g.limits_seen = any("min" in n.kw or "max" in n.kw for n in walk(r))
    return g

LANGUAGES = ["en_GB", "fr", "ja", "de_DE", "en_US"]
MESSAGES = {0: ("", "Argument inconnu", "不明な引数"), 1: ("", "Arguments non gérés", "未処理の引数"), 2: ("Set twice", "L'argument a déjà été défini", "設定済み"),
            3: ("", "L'analyse a échoué", "解析に失敗しました"), 4: ("", "Aucun argument passé", ""), 5: ("", "Valeur minimale non atteinte", "最小値に達していません"),
            6: ("Too big", "Valeur maximale dépassée", "最大値を超えました"), 7: ("Too few", "", "少ない"), 8: ("", "Trop", "多い"),
            9: ("", "Argument inconnu : {}. Vouliez-vous dire { }?", "不明な引数 {}, { } の間違い"), 101: ("", "Argument requis manquant", "必要な引数がありません"),
            103: ("Needs another", "", ""), 104: ("Only one", "Un seul", ""), 105: ("", "Attendu un séparateur de valeur", "値の区切り文字が必要です")}

def translate(r, seed):
    """Gives every text of the tree one form per language: names stay distinct within a language."""
    rnd = random.Random(seed * 7 + 3)
    langs = rnd.sample(LANGUAGES, 2 if rnd.random() < 0.8 else 3)
    style = [rnd.randrange(4) for _ in langs]
    turn = [rnd.randrange(len(SHORT)) for _ in langs]
    cache = {}
    def one(kind, t, i):
        if kind == "short":
            return SHORT[(SHORT.index(t) + turn[i]) % len(SHORT)] if t in SHORT else t
        if kind in ("desc", "intro", "addendum"):
            return [t, "In " + langs[i] + ": " + t, t[::-1] if t.isascii() and "." not in t and "," not in t else t, t + " - " + t][style[i]]
        return [t, "le-" + t, t + "語", "xx" + t][style[i]]
    def tr(kind, t):
        k = (kind if kind in ("short", "desc", "intro", "addendum") else "name", t)
        if k not in cache: cache[k] = L(*[one(k[0], t, i) for i in range(len(langs))])
        return cache[k]
    def walk(n):
        for k in ("long", "short", "none", "display", "desc", "intro", "addendum"):
            if n.g(k) is not None: n.kw[k] = tr(k, n.g(k))
        for k in ("alias", "dep"):
            if n.g(k): n.kw[k] = [(a, tr(a, b)) for a, b in n.g(k)]
        for c in n.children: walk(c)
    walk(r)
    if rnd.random() < 0.8:
        r.kw["translated"] = 1
        r.kw["messages"] = {c: L(*[t[(i + style[i]) % 3] for i in range(len(langs))]) for c, t in MESSAGES.items() if rnd.random() < 0.7}
    return langs

def tree(name, seed):
    g = G(seed)
    g.small = name[0] == "m"
    r, flags = g.tree()
    return Gen(name, r, flags, translate(r, seed) if name[0] == "m" else None)
