from spec import *

T = {}
def tree(name, r, *flags, langs=None): T[name] = Gen(name, r, flags, langs)

# --- a file tool in the style of the documentation's running example
tree("cat", root(
    help_(long="help", short="h", desc="Display this help and exit", prog="my-cat", version="v3.14",
          intro="Concatenates files, and prints them.", addendum="See the manual."),
    flag(long="version", desc="Output version information and exit", router=1),
    mode(
        flag(long="show-all", short="A", desc="Equivalent to giving n and E", alias=[("short", "E"), ("short", "n")]),
        flag(long="show-ends", short="E", desc="Display a marker at the end of each line that is shown, whatever the line holds"),
        flag(long="show-nonprinting", short="n", desc="Use caret notation, except for the line feed and the tab which stay"),
        arg("Int", long="max-lines", desc="Maximum lines to output", sep="=", default=-1),
        arg("OptInt", long="max-line-length", desc="Maximum line length", sep="=", default_none=1),
        one_of(
            flag(long="skip-line", short="s", desc="Skips line output if the maximum line length is reached", dep=[("long", "max-line-length")]),
            arg("View", long="line-suffix", desc="Shortens lines to the maximum with the given suffix", sep="=", dep=[("long", "max-line-length")]),
            default=("View", "...")),
        arg("Enum", long="theme", desc="Set the output colour theme", sep="=", default="green", parser=1),
        cflag(vt="Level", long="verbose", short="v", desc="Verbosity level, number of repeats sets the level", max=3, default="none"),
        pos("View", display="FILES", desc="Files to read", required=1, count=(1, None)),
        router=1)),
    "help", "exit", "spell", "limits", "pos")

# --- nested modes, help with a router
tree("modes", root(
    help_(long="help", short="h", desc="Show help", prog="tool", version="1.0", router=1),
    mode(flag(long="force", short="f", desc="Force it"),
         arg("Str", long="name", short="n", desc="The name to use", required=1),
         none="add", desc="Add things", router=1),
    mode(mode(flag(long="tags", desc="Prune the tags also"), flag(long="dry-run", short="d", desc="Only print what would be done"),
              none="prune", desc="Prune stale remotes", router=1),
         mode(arg("Int", long="depth", desc="Depth to fetch", min=1, max=100, default=10),
              flag(long="force", short="f", desc="Force the fetch"),
              pos("Str", display="REFS", desc="References", count=(0, 3)),
              none="fetch", desc="Fetch a remote", router=1),
         none="remote", desc="Manage remotes"),
    mode(mode(flag(long="force", desc="Really"), none="hard", desc="Reset hard", router=1),
         flag(long="quiet", short="q", desc="Be quiet"),
         cflag(short="v", desc="More output"),
         none="reset", desc="Reset state", router=1),
    mode(flag(long="all", short="a", desc="All of it"),
         pos("Int", display="NUMS", desc="Numbers", count=(1, 4)), router=1)),
    "help", "pos")

# --- limits of all sorts
tree("limits", root(
    arg("Int", long="root-level", short="r", desc="A root argument", min=-5, max=5, router=1),
    flag(long="root-flag", desc="A root flag", router=1),
    mode(
        arg("Int", long="need", short="n", required=1, min=E(0), max=E(1)),
        arg("Int", long="low", min=E(2), default=E(4)),
        arg("Int", long="high", max=E(3), default=E(5)),
        arg("Int", long="both", sep="=", min=-10, max=10),
        cflag(long="count", short="c", min=1, max=3, default=1),
        one_of(
            arg("Int", long="one-int"), flag(long="one-flag", short="o"), arg("Enum", long="one-enum", sep=":"),
            required=1),
        arg("Int", long="base", short="b", default=0),
        flag(long="on-base", short="B", dep=[("long", "base")]),
        flag(long="on-both", dep=[("short", "B"), ("long", "base")]),
        multi("Int", long="few", short="f", count=(1, 3), marker=",", default=[]),
        pos("Int", display="PAIR", count=(2, 2), required=1),
        none="run", router=1),
    mode(
        one_of(flag(long="aa", short="a"), arg("Int", long="bb", short="b"), default=("Int", 7)),
        one_of(flag(long="cc", short="c"), arg("Double", long="dd", short="d"), display="Pick one", required=1),
        alias_group(cflag(long="loud", short="l"), cflag(long="noisy", short="y"), min=0, max=4, default=2),
        router=1)),
    "limits")

# --- spellings
tree("spell", root(
    mode(
        flag(long="all", short="a", alias=[("long", "red"), ("short", "g"), ("long", "blue")]),
        flag(long="every", short="e", alias=[("short", "a"), ("long", "yellow")]),
        flag(long="red", short="r"), flag(long="green", short="g"), flag(long="blue", short="b"), flag(short="y", long="yellow"),
        arg("Int", long="width", short="w", sep="="),
        arg("Int", long="height", short="t"),
        arg("Int", long="size", short="s", alias=[("long", "height"), ("long", "depth")]),
        arg("Int", long="depth", short="d"),
        cflag(long="verbose", short="v", max=6),
        alias_group(arg("Str", long="output", short="o"), arg("Str", long="out-file"), arg("Str", long="result", short="R"), default="out.txt"),
        alias_group(cflag(long="colour", short="c"), cflag(long="color"), default=0),
        router=1)),
    "spell")

# --- run-time switches everywhere
tree("switch", root(
    help_(long="help", short="h", desc="Show help", prog="sw", router=1),
    flag(long="rootflag", short="R", desc="A root flag", router=1, en=E(0)),
    mode(flag(long="alpha", short="a", desc="Alpha"), arg("Int", long="beta", short="b", desc="Beta", default=3, en=E(1)),
         mode(flag(long="deep", desc="Deep flag"), flag(long="dark", desc="Dark flag", en=E(3)), none="inner", desc="Inner mode", router=1, en=E(4)),
         none="extra", desc="Extra mode", en=E(2), router=1),
    mode(flag(long="list", short="l", desc="List things", alias=[("long", "one"), ("long", "two")]),
         flag(long="one", desc="First", en=E(5)), flag(long="two", short="t", desc="Second", en=E(6)),
         arg("Int", long="level", desc="A level", min=1, en=E(7)),
         arg("Str", long="must", short="m", desc="Needed when on", rtreq=(E(8), "absent")),
         arg("Int", long="sepd", desc="With a separator", sep="=", default=9, en=E(9)),
         cflag(long="vv", short="v", desc="Counts", en=E(10), min=1, default=2),
         one_of(flag(long="left", desc="Go left", en=E(11)), arg("Int", long="right", desc="Go right", en=E(12)), default=("Int", 5)),
         pos("Str", display="REST", desc="The rest", count=(0, 2), en=E(13)),
         router=1)),
    "help", "limits")
tree("switch_anon", root(
    help_(long="help", short="h", desc="Show help"),
    flag(long="version", desc="Show version", router=1),
    mode(flag(long="x-ray", short="x", desc="X ray", en=E(1)), arg("Int", long="yield", desc="Yield", en=E(2), default=1), router=1, en=E(0))),
    "help", "exit")
tree("switch_anon2", root(
    mode(flag(long="go", desc="Go now"), none="first", router=1, en=E(1)),
    mode(flag(long="x-ray", short="x"), arg("Int", long="zoom", rtreq=(E(2), 4)), pos("Int", display="N", count=(0, None), en=E(3)), router=1, en=E(0))),
    "pos")

# --- positional, multi, forwarding, end markers; all containers use the configured allocator
tree("pos", root(
    mode(
        flag(long="flag", short="f"),
        multi("Int", long="ints", short="i", count=(1, 3), marker=";", arvec=1),
        multi("View", long="words", short="w", count=(2, 2), arvec=1),
        pos("View", display="FIRST", count=(1, 1), arvec=1, required=1),
        pos("Int", display="SECOND", count=(2, 2), arvec=1, required=1),
        pos("View", display="REST", arvec=1),
        router=1)),
    "pos", "strict")
tree("marker", root(
    mode(
        flag(long="flag", short="f"),
        multi("View", long="list", short="l", count=(1, 4), marker=";", arvec=1),
        pos("View", display="SRC", count=(0, 3), marker="--", arvec=1),
        pos("View", display="DST", count=(0, 2), arvec=1),
        none="copy", router=1),
    mode(
        cflag(short="v", long="verbose"),
        fwd(none="--", required=1),
        none="exec", router=1),
    mode(
        flag(long="time", short="t"),
        arg("Int", long="nice", short="n", default=0),
        fwd(none="--", desc="Everything after this goes to the child"), router=1)),
    "pos", "strict")
tree("single", root(
    mode(arg("Int", long="opt", default=1), pos("Int", display="ONLY", count=(1, 1), list=False, required=1),
         pos("Str", display="MORE", count=(1, 1), list=False, default="none"), router=1)),
    "pos")

# --- value types
tree("types", root(
    arg("Str", long="echo", router=1),
    arg("View", long="peek", sep="=", router=1),
    mode(
        arg("Bool", long="bool", short="b", default=True), arg("Int", long="int", short="i", default=-7),
        arg("Double", long="double", short="d", default=0.5), arg("Str", long="str", short="s", default="dflt"),
        arg("View", long="view", short="v", default="static view"), arg("Enum", long="enum", short="e", default="blue"),
        arg("OptInt", long="opt", short="o", default_none=1), arg("Str", long="plain"), arg("Double", long="plaind"), arg("View", long="plainv"),
        multi("Str", long="strs", count=(1, 3), marker="."), multi("Double", long="doubles", count=(2, 2), default=[1.5, 2.5]),
        pos("Bool", display="BOOLS", count=(0, 4)),
        router="ref")),
    "pos")
tree("types2", root(
    arg("U64", long="echo", router=1),
    mode(
        arg("UInt", long="uint", short="u", default=7, desc="An unsigned number"), arg("I64", long="long", short="l", default=-5000000000),
        arg("U64", long="ulong", default=1), arg("I8", long="tiny", short="t", default=-1), arg("U8", long="byte", short="b", default=65),
        arg("Float", long="float", short="f", default=0.25), arg("Char", long="char", short="c", default="x"),
        arg("I64", long="lim-long", short="L", min=-10, max=1000, limtype="int", rtlim=1), arg("Double", long="lim-double", short="D", min=-1, max=2, limtype="int", rtlim=1),
        arg("U8", long="lim-byte", short="B", min=5, max=200, limtype="int", desc="Limited byte"), arg("UInt", long="lim-uint", short="U", min=-5, max=40, limtype="int"),
        arg("Int", long="lim-int", short="I", min=5, limtype="unsigned"), arg("Int", long="lim-int2", max=50, limtype="std::size_t", desc="Up to fifty"),
        arg("Float", long="lim-float", max=1.5, limtype="double", rtlim=1), arg("I8", long="lim-tiny", min=-3, max=3, limtype="std::int8_t", rtlim=1),
        cflag(vt="U8", long="count", short="n", max=4), 
        multi("U8", long="bytes", count=(1, 3), marker="."), multi("Float", long="floats", count=(2, 2), default=[1.5, 2.5]), multi("Char", long="chars", count=(2, 2)),
        one_of(arg("I64", long="one-long"), arg("U8", long="one-byte"), default=("U8", 9)),
        pos("UInt", display="UINTS", count=(0, 4)),
        router=1)),
    "pos", "limits")
tree("probe", root(
    help_(long="help", short="h", desc="Help on probes", prog="probe", router=1),
    arg("Probe", long="root-probe", router=1),
    mode(
        flag(long="flag", short="f", desc="A plain flag"),
        arg("Probe", long="first", short="a", default="def", desc="First probe"),
        arg("Probe", long="second", short="b", required=1, parser=1, desc="Second probe"),
        arg("Enum", long="colour", default="red", desc="A colour"),
        one_of(arg("Probe", long="p-one"), flag(long="p-two"), default=("Probe", "oo")),
        alias_group(arg("Probe", long="ga"), arg("Probe", long="gb", short="g"), default="gg"),
        multi("Probe", long="many", short="m", count=(1, 3), marker="/", default=["x", "y"]),
        pos("Probe", display="PROBES", desc="More probes", count=(0, 5)),
        router=1)),
    "probe", "pos", "help")
tree("probe2", root(
    mode(arg("Probe", long="only"), arg("Str", long="text", default="a rather long default text that needs the heap"),
         pos("Probe", display="P", count=(1, 1), list=False, default="pos-default"), none="one", router="ref"),
    mode(arg("Probe", long="pin", rtreq=(E(0), "off-default")), flag(short="z"), router=1)),
    "probe")

# --- text that is not ASCII
tree("unicode", root(
    help_(long="помощь", short="п", desc="Показать справку", prog="программа", router=1),
    mode(
        flag(long="größe", short="ß", desc="Die Größe, in Zeichen"), flag(long="\u00e9t\u00e9", short="\u00e9", desc="Bient\u00f4t"),
        flag(short="日", long="日本", desc="日本語の説明文はここにあります"), cflag(short="한", long="한국어", desc="한국어 설명"),
        arg("Str", long="名前", short="名", desc="名前を入力する", sep="→"), arg("Int", long="año", sep="≔", default=1, desc="El año"),
        flag(short="e\u0301", long="decomposed", desc="An accented letter in two parts"),
        arg("View", long="xx", short="X", sep="¶", default="¤"), pos("View", display="ファイル", desc="Files", count=(0, None)),
        router=1)),
    "unicode", "help", "pos", "spell")

# --- help layouts
tree("help_colour", root(
    help_(long="help", desc="Show the coloured help text of this program", prog="paint", version="2.0", intro="Paints a wall.", colour=1, router=1),
    mode(flag(long="brush", short="b", desc="Use a brush instead of a roller, which takes more time but leaves a finer finish"),
         mode(arg("Int", long="coats", desc="Number of coats", sep="=", min=1, max=9), none="gloss", desc="Gloss paint", router=1),
         none="interior", desc="Paint the inside of the house, room by room", router=1),
    mode(arg("Str", long="colour-name", short="c", desc="Colour of the paint"), pos("Str", display="WALLS", desc="Walls to paint, in order", count=(1, 8)), router=1)),
    "help")
tree("help_flat", root(
    help_(long="help", short="h", desc="Flattened help", flatten=1, prog="flat", intro="Intro text.", addendum="The end.", indent=2),
    flag(long="version", short="V", desc="Version", router=1),
    mode(mode(flag(long="leaf-flag", desc="A leaf flag with quite a long description that will have to be wrapped on most terminals in use"),
              flag(long="hidden", desc="Hidden flag", en=E(0)), none="inner", desc="Inner mode", router=1),
         arg("Int", long="limit", desc="Limit", max=50, default=5),
         one_of(flag(long="yes", desc="Agree"), arg("Int", long="maybe", desc="Perhaps", en=E(1)), arg("Str", long="no", desc="Refuse"), default=("Int", 3)),
         none="outer", desc="Outer mode", router=1),
    mode(alias_group(cflag(long="aye", desc="Aye"), cflag(long="bee", desc="Bee"), max=4, default=0), multi("Int", long="mult", desc="Several", count=(2, 5), marker=";"),
         fwd(none="--", desc="Forwarded"), router=1)),
    "help", "exit")
tree("help_wide", root(
    help_(long="help", short="h", desc="ヘルプを表示します。 とても長い説明文なので折り返しが必要です, 念のため", prog="wide", colour=1, indent=3),
    mode(flag(long="漢字", desc="漢字の説明 and some latin words mixed in for good measure"), flag(long="none", desc="Either \"fast\" or \"slow\" - the default is \"fast\" (or 50%, de\u0301ja\u0300)\u2026 - - -"), flag(short="q", desc="Averyveryveryverylongwordthatcannotbebrokenatanyspace yes"),
         pos("View", display="出力", desc="出力ファイル", count=(0, 1)), router=1)),
    "help", "exit", "unicode")
tree("no_help", root(mode(flag(long="plain"), arg("Int", long="number", required=1), router=1)))

# --- strictly configured allocator
tree("strict", root(
    help_(long="help", short="h", desc="Strict help", prog="strict", router=1),
    mode(flag(long="all", short="a", alias=[("short", "b"), ("short", "c")]), flag(short="b", long="bold"), flag(short="c", long="clear"),
         arg("Int", long="num", short="n", sep="="), cflag(long="verbose", short="v"), arg("View", long="view", short="w", default=""),
         one_of(flag(long="left"), arg("Int", long="right"), default=("Int", 0)),
         arg("Int", long="dep", dep=[("long", "num")]),
         pos("View", display="ARGS", arvec=1), router=1)),
    "strict", "pos", "help", "spell")

# --- languages
MSG = {0: L("", "Argument inconnu", "不明な引数"), 1: L("", "Arguments non gérés", "未処理の引数"), 2: L("", "L'argument a déjà été défini", "設定済み"),
       3: L("", "L'analyse a échoué", "解析に失敗しました"), 4: L("", "Aucun argument passé", ""), 5: L("", "Valeur minimale non atteinte", "最小値に達していません"),
       6: L("Too big", "Valeur maximale dépassée", "最大値を超えました"), 9: L("", "Argument inconnu : {}. Vouliez-vous dire { }?", "不明な引数「{}{ }」の間違い"),
       101: L("", "Argument requis manquant", "必要な引数がありません"), 105: L("", "Attendu un séparateur de valeur", "値の区切り文字が必要です")}
tree("lang", root(
    help_(long=L("help", "aider", "ヘルプ"), short="h", desc=L("Display this help", "Afficher cette aide et quitter", "このヘルプを表示して終了"),
          prog="simple", intro=L("A simple tool.", "Un outil simple.", "簡単な道具"), addendum=L("Done here.", "Fin de texte.", "終わり"), router=1),
    mode(flag(long=L("force", "forcer", "強制"), short=L("f", "F", "強"), desc=L("Force overwrite", "Forcer le tout", "強制的に上書きする")),
         arg("Int", long=L("level", "niveau", "段階"), desc=L("The level", "Le niveau", "段階を指定"), min=1, max=5, default=2),
         pos("Str", display=L("DST", "CIBLE", "先"), desc=L("Target", "Répertoire", "宛先"), count=(1, 1), required=1),
         none=L("copy", "copier", "コピー"), desc=L("Copy files", "Copier les fichiers", "ファイルをコピー"), router=1),
    mode(arg("Str", long=L("name", "nom", "名前"), sep=L("=", ":", "："), required=1), none=L("move", "déplacer", "移動"), desc=L("Move files", "Déplacer", "移動する"), router=1),
    translated=1, messages=MSG), "help", langs=LANGS)
tree("lang2", root(
    help_(long=L("hilfe", "help"), short="h", desc=L("Hilfe zeigen", "Show help"), colour=1),
    mode(flag(long=L("alle", "all"), short="a"), cflag(long=L("laut", "loud"), short="v", max=2), one_of(flag(long=L("links", "left")), arg("Int", long=L("rechts", "right")), required=1), router=1),
    translated=1, messages={104: L("Nur eins davon", ""), 6: L("Zu gross", "Too large")}), "help", "exit", "limits", langs=["de_DE", "en_US"])
