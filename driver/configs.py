"""Constants of the bounded models: alphabets, pools and bounds."""


def C(s):
    return [ord(c) for c in s]


# ---- tokens ----
def K(k, text=None):
    return dict(text=text or k, tok=dict(t="kw", k=k, x=[]))


def I(t, k="p"):
    return dict(text=t, tok=dict(t="id", k=k, x=C(t)))


def P(p):
    return dict(text=p, tok=dict(t="p", k=p, x=[]))


def O(p):
    return dict(text=p, tok=dict(t="op", k=p, x=[]))


def alphabet(toks, max_, prefix=()):
    texts = [t["text"] for t in toks]
    return dict(toks=toks, prefix=[texts.index(p) + 1 for p in prefix], max=max_)


def token_configs(tier):
    """name -> alphabet for ReadEnum"""
    d = 1 if tier == "thorough" else -1
    body = ["graph", "{"]
    return {
        # everything at once, shallow
        "all": alphabet(
            [K("graph"), K("subgraph"), I("a"), P("{"), P("}"), P("["), P("]"), P("="), P(";"), P(","), P(":"), O("--")],
            10 + d,
        ),
        # statements of a body
        "edges": alphabet(
            [K("graph"), P("{"), P("}"), I("a"), O("--"), K("subgraph"), P("["), P("]"), P(";")], 11 + d, body
        ),
        # vertices only, deeper
        "nesting": alphabet([K("graph"), P("{"), P("}"), I("a"), O("--"), K("subgraph", "SubGraph")], 12 + d, body),
        # attribute lists
        "attrs": alphabet(
            [K("graph", "GRAPH"), P("{"), P("}"), I("a"), P("["), P("]"), P("="), P(","), P(";"), K("node"), K("edge", "Edge")],
            11 + d,
            ["GRAPH", "{"],
        ),
        # ports
        "ports": alphabet(
            [K("digraph"), P("{"), P("}"), I("a"), I("ne"), I('"n"', "q"), P(":"), O("->"), P("["), P("]"), P("=")],
            10 + d,
            ["digraph", "{"],
        ),
        # heads of documents
        "heads": alphabet(
            [K("strict"), K("strict", "STRICT"), K("graph"), K("digraph", "DiGraph"), K("digraph"), I("a"), I('"q"', "q"),
             I("<h>", "h"), I("1"), P("{"), P("}"), P(";"), O("--"), O("->")],
            7 + d,
        ),
    }


# ---- characters ----
SPECIAL = list(range(0, 128)) + [
    0x80, 0x81, 0x84, 0x85, 0x8d, 0x90, 0x9f, 0xa0, 0xa1, 0xad, 0xb7, 0xbf, 0xc0, 0xd7, 0xff, 0x100, 0x130, 0x131, 0x149, 0x17f, 0x1c5, 0x300, 0x301,
    0x345, 0x37e, 0x3a3, 0x3c2, 0x600, 0x61c, 0x6dd, 0x7ff, 0x800, 0x1680, 0x180e, 0x1e9e, 0x2000, 0x200b, 0x200c, 0x200d, 0x200e, 0x200f, 0x2028,
    0x2029, 0x202a, 0x202e, 0x202f, 0x203f, 0x2060, 0x2064, 0x206f, 0x20ac, 0x212a, 0x2160, 0x2212, 0x24b6, 0x3000, 0x3001, 0x4e00, 0xac00, 0xd7ff,
    0xe000, 0xf8ff, 0xfdd0, 0xfeff, 0xff1a, 0xff1d, 0xff21, 0xff3b, 0xff5b, 0xfff9, 0xfffd, 0xfffe, 0xffff, 0x10000, 0x1f600, 0x1f1e6, 0xe0001, 0xe0100,
    0x10fffd, 0x10fffe, 0x10ffff]
PLACES = [
    ('graph{a[b="x', 'y" c=d]}'), ('graph{a[b="', '"]}'), ('graph{"a\\', 'b"}'), ('graph{a[b=<x', 'y>]}'), ("graph{a/* x", "y */b}"), ("graph{a// x", "y\nb}"),
    ("graph{a# ", "y\r\nb}"), ("graph{ab", "cd}"), ("graph{", "a}"), ("graph{a", "}"), ("graph{a ", " b}"), ("graph{a1", "2}"), ("graph{1", "2}"),
    ("graph{a=-", "2}"), ("", "graph{}"), ("graph{}", ""), ("graph ", "{}"), ("graph{a--b", "--c}"), ("graph{a[b=c", "d=e]}"), ("graph{a:", ":n}"), ("graph{a:n", "}"),
    ("strict", "graph{}"), ("graph{node", "[a=b]}")]


def piece_configs(tier):
    d = 1 if tier == "thorough" else 0
    chars = [C(x) for x in 'a n 1 - . " \\ < > : é /'.split(" ")] + [C(" ")]
    out = [
        # a statement made of any characters
        dict(pre=C("graph{"), suf=C("}"), pieces=chars, max=3 + d),
        # numerals
        dict(pre=C("graph{a="), suf=C(" b}"), pieces=[C(x) for x in "0 7 . -".split()], max=5 + d),
        # quoted strings
        dict(pre=C('graph{a [b="'), suf=C('" c=d]}'), pieces=[C('"'), C("\\"), C("x"), C("\n"), C("]")], max=4 + d),
        # html strings
        dict(pre=C("graph{a [b=<"), suf=C("> c=d]}"), pieces=[C("<"), C(">"), C("x"), C('"'), C("]")], max=5 + d),
        # ports and compass points
        dict(pre=C("graph{a"), suf=C(";b}"),
             pieces=[C(x) for x in [":n", ":ne", ":nes", ":_", ":c", ":p", ':"n"', ":1", ":<h>", ": sw ", " :W", ":", "[", "--b"]],
             max=3),
        # comments
        dict(pre=C("graph{a"), suf=C("b}"), pieces=[C("/"), C("*"), C("\n"), C("#"), C('"'), C(" "), C("-"), C("\r\n")], max=4 + d),
        # words next to keywords, in every case
        dict(pre=C("graph{"), suf=C("x}"),
             pieces=[C(x) for x in ["node", "edge", "graph", "subgraph", "strict", "digraph", "NoDe", "s", "_", "1", " ", "=", "é"]],
             max=3),
    ]
    # numerals and words
    out += [
        dict(pre=C("graph{"), suf=C("}"), pieces=[C(x) for x in ["1", "e", "-", ".", "+"]], max=5 + d),
        dict(pre=C("graph{a="), suf=C("}"), pieces=[C(x) for x in ["0", "x", "E", "-", "1", "_", "é"]], max=4 + d),
    ]
    # special characters in every place
    every = [[c] for c in SPECIAL]
    for pre, suf in PLACES:
        out.append(dict(pre=C(pre), suf=C(suf), pieces=every, max=1))
    # sequences that other programs take for one character, or write in another way
    seqs = [C(x) for x in ["e\u0301", "\u0065\u0300\u0301", "\u00e9", "\u212b", "A\u030a", "\ufb01", "\u1100\u1161", "\uac00", "\u0e33", "\U0001f469\u200d\U0001f467", "\U0001f1e9\U0001f1ea",
                           "\u2764\ufe0f", "a\u200b", "\u0130\u0131", "\u00df", "\u017f", "\u03c3\u03c2", "\u01c6", "\u0958", "\u05d0\u05b0", "\u202ea\u202c", "\ufdfa", "\u2126", "\u00b5"]]
    for pre, suf in [("graph{", "}"), ("graph{e", "x=y}"), ('graph{a[b="x', 'y" c=d]}'), ("graph{a[b=<", ">]}"), ("graph ", "{}"), ("graph{a:", "}"), ("graph{/*", "*/b}"), ("graph{#", "\nb}")]:
        out.append(dict(pre=C(pre), suf=C(suf), pieces=seqs, max=1))
    # what is often written, and may tempt to be taken for more than it is
    often = ["rank", "same", "label", "color", "red", "shape", "record", "cluster", "cluster_0", "clusterx", "style", "invis", "true", "false", "none", "pos", "lhead", "width", "graph_", "Nodes",
             '"#ff0000"', '"1,2"', '"{<f0> a|b}"', '"\\N"', '"\\l"', '"a:p"', '"true"', '"node"', '"cluster_1"', '"rank"', '"label"', '"http://a/b"', '"red:blue"', "<<table><tr><td>x</td></tr></table>>",
             "<a & b>", "<a &amp; b>", "<&amp;&lt;>", "<&#38;>", "<a<br/>b>", "<<BR>>", "< a >", "<a  b>", "<\n>", '"a & b"', '"&amp;"', '"&#10;"', '"a\\nb"', '"a\\\\nb"', '"a  b"', '" a "', '"a\n"',
             "<<font color=\"red\">x</font>>", "<<b>a</b><i>b</i>>", "<<hr/>>", "<<td port=\"p\">x</td>>", '"\\G"', '"\\E:\\T"', '"\\t"', '"\\\""', '"\'"', '"<b>x</b>"', '"1.0"', '"-1"', '"\\u00e9"', '"\\x41"',
             "<i>", '"a b"', '"A"', '" "', '"\t"', "html", "esc", '"%"', '"{}"', '"$x"', "0x1f", "nan", "inf", "1e5"]
    often = [C(x) for x in often if not x[0].isdigit()]
    for pre, suf in [("graph{", "=x}"), ("graph{x=", "}"), ("graph{a[", "=x]}"), ("graph{a[label=", "]}"), ("graph{edge[color=", ",x=y]}"), ("graph{subgraph ", "{a}}"), ("digraph{", "->a}"),
                     ("graph{a:", "}"), ("graph ", "{rank=same}"), ("graph{subgraph{rank=same;", ";b}--c}"), ("graph{a--subgraph ", "{label=x}[label=y]}")]:
        out.append(dict(pre=C(pre), suf=C(suf), pieces=often, max=1))
    # words that only look like keywords
    out.append(dict(pre=C("graph{"), suf=C(" a}"), pieces=[C(x) for x in
               ["\u017ftrict", "\u017fubgraph", "Subgraph\u0301", "n\u043ede", "\uff4eode", "ed\u0261e", "EDGE\u200b", "\ufeffnode", "node\ufeff", " ", "="]], max=2))
    # every place an id can stand
    ids = [C(x) for x in ["a", "Z_9", "é", "日本", "_", "node1", "graphs", "1", "-.5", "007", "1.", "-0", '""', '"x y"', '"\\""',
                          '"a\\\\"', '"12"', '"-1.5"', '"graph"', '"a"', '"n"', '"<b>"', '<12>', '<"a">', '"/*x*/"', '"#"', '"//\n"', '"}"', "<>", "<b>", "<<a>\n<b/>>", "</*x*/>", "<\">", "n", "se"]]
    for pre, suf in [("graph ", "{}"), ("digraph{subgraph ", "{}}"), ("graph{", "}"), ("graph{a:", "}"), ("graph{a:", ":ne}"),
                     ("graph{", ":p:s}"), ("graph{a[", "=b]}"), ("graph{a[b=", "]}"), ("graph{", "=b}"), ("graph{b=", "}"),
                     ("graph{a--", "--b}"), ("graph{node[a=", ",c=d]}")]:
        out.append(dict(pre=C(pre), suf=C(suf), pieces=ids, max=1))
    # one kind of id next to another
    kinds = ["a", "é", "1", "-.5", "n", '"x y"', '"12"', '"a"', '"n"', '""', "<b>", "<>", "<12>"]
    for pre, suf, signs in [("graph{", "}", ["", "=", ":", "--"]), ("graph{a[", "]}", ["", "=", "=x,"]), ("graph{a--b[k=v;", "]}", ["", "="]), ("digraph{", "->b:n->c:p:w}", ["", ":"]),
                            ("graph{a:p", "}", [":", "--", "=", "--b:"])]:
        out.append(dict(pre=C(pre), suf=C(suf), pieces=[C(g + x) for g in signs for x in kinds], max=2))
    # two ids, with and without a blank between them
    out.append(dict(pre=C("graph{"), suf=C("}"), pieces=ids + [C(" ")], max=2 + d))
    return out


def wide_config():
    """texts with one letter above ASCII, in every place a character can stand; the letter is é"""
    return [dict(pre=C(a), suf=C(b), pieces=[[233]], max=1) for a, b in PLACES] + \
        [dict(pre=C(a), suf=C(b), pieces=[[233]], max=1) for a, b in
         [("graph{", "=1}"), ("graph{a1", "_=1}"), ("graph{a:p", "x:n}"), ("graph{subgraph ", "{}}"), ("graph{a[b=x", "]}"), ("graph{1.", "}"), ('graph{"a"', "b}")]]


def pump_config(kind, tier):
    """x, y and z of texts x y..y z"""
    d = 1 if tier == "thorough" else 0

    def p(xs, zs, pieces, most):
        return dict(xs=[C(x) for x in xs], zs=[C(z) for z in zs], pieces=[C(y) for y in pieces], max=most + d)

    structure = [
        # statements
        p(["graph{", "strict digraph s{a ", "graph{subgraph x{"], ["}", "}->b[k=v]}"],
          ["a;", "a ", "x=y ", "{}", "subgraph s{a}", "node[k=v]", "a[k=v,l=w]", "a--b;", "a->b->c[k=v];", "edge[]", ";", "n:p:ne "], 2),
        # edges
        p(["graph{a", "graph{a--b--{c", "graph{x;{a}"], ["}", "[k=v]}", "}}", "}[k=v];b--c}"], ["--b", "--{c}", "--c:p:n", "--subgraph{d--e}", "--subgraph s{a}", "[k=v]", "--b;a", " "], 2),
        # attributes
        p(["graph{a[", "graph{node[", "digraph{a->b[", 'graph{{a--b[x=y]['], ["]}", "]a}", "]}--c}", "k=v]}"], ["k=v,", "k=v;", "k=v ", "k=v][", '"k"=<v>,'], 2),
    ]
    ids = [
        p(['graph{a="', 'graph{"', 'graph "'], ['"}', '"{}', '"[k=v]}'], ["x", "\\\"", "\\\\", "\n", "é", "\\x", " ", "//", "/*", "#"], 2),
        p(["graph{a=<", "graph{<", "graph <"], [">}", ">{}", ">[k=v]}"], ["x", "<b>", "<b/>", "</>", "é\r\n", '"', "<a>x</a>", "<!"], 2),
        p(["graph ", "graph{", "graph{a:", "graph{n", "digraph{a->x", "graph{a[k=_"], ["{}", "}", ":n}", "=1}", "]}"], ["x", "9", "é", "_", "graph", "ne", "N"], 2),
        p(["graph{a=", "graph{-", "graph{a=1", "graph{a=.5", "graph 0"], ["}", ".}", ".5}", "{}", " b}"], ["1", "0", "90", "1.", ".", "-1"], 1),
        p(["digraph{a", "digraph{b->a:p"], ["}", ":n}", "->b}"], ["->c:p:n", "->c:ne", '->"c":"p":_', "->c:nn", ":n"], 2),
    ]
    gaps = [
        p(["graph{a", "graph", "", "graph{}", "graph{a[k=v", "graph{a--", "digraph{a:"], ["b}", "{}", "graph{}", "", "]}", "n}"],
          [" ", "\n", "\r\n", "\t", "/**/", "/* }\n*/", "//\n", "#x\n", "// x", "/*", "*/"], 2),
        p(["graph{a[k=v", "graph{a[k=v,l=w", "graph{edge[k=v"], ["]}", "l=w]}", "]a}"], [",", ";", "][", " ", "k=v", ",k=v", ";\n"], 2),
        p(["graph{a", "graph{a--b", "graph{x=y", "graph{{}"], ["}", "b}", "[k=v]}"], [";", ";b", " ;c;", "\n;"], 2),
    ]
    broken = ["", "]}", "}}", "}x", "=}", "[", "--}", "}graph{}", '"', "<", "/*", ":}", "->"]
    if kind == "broken":
        return [dict(c, zs=[C(z) for z in broken], max=1 + d) for c in structure + ids[:3] + gaps[:1]]
    return dict(structure=structure, ids=ids, gaps=gaps)[kind]


def anon_config(tier):
    """documents with and without anonymous parts"""
    d = 1 if tier == "thorough" else 0
    body = [C(x) for x in ["{", "}", " subgraph ", " x", "--", " ", '""', ";", "{}"]]
    return [
        dict(pre=C("graph{"), suf=C("}"), pieces=body, max=4 + d),
        dict(pre=C("graph{{a}"), suf=C("{}}"), pieces=body, max=3 + d),
        dict(pre=[], suf=C("{a}"), pieces=[C(x) for x in ["strict ", "graph", "digraph", " ", "x", '""', "<>", "{}", "1", "_"]], max=4 + d),
    ]


# ---- attributes ----
def attr_values(tier):
    texts = ["", "a", "a b", '"q"', '"x y"', '"a\\"b"', '"\\\\"', "<b>", "<<i>x</i>>", "<x", "1", "-.5", "007", "1.", "1,2", "x;y", "é日", "a-b", "node",
             "Graph", "\\n", "_", '"}"', " lead", "a=b", '"', "true", "0x1", "😀", "a_", "_a", "box_", "a\nb", '"a\nb"']
    # beginnings and ends something could be made of
    texts += ["1.0", "a.0", ".0", "1.50", "100", "00", "0", "-0", "+1", "1e5", "1E5", "1.0.0", "false", "True", "FALSE", "none", "None", "null", "nan", "inf", "-", "_a_", "__",
              "GREY", "grey", "gray", "Red", "#ff0000", "#FF0000", "#fff", "red:blue", "red;0.5:blue", "/accent3/1", "0.1 0.2 0.3", "transparent",
              '"1.0"', '" a "', '"a\\\\"', '"a\\n"', '"a\\l"', '"\\"a\\""', '""', "'a'", "'", "`a`", "a ", " a", "\\ta", "a\r\n", "a\n", "\na", "\t", "\u00a0a", "\u200b", "a\u0301", "\ufeffa",
              "<>", "<a", "a>", "<<a>>", "< a >", "<a>\n", "&amp;", "<b>&lt;</b>", "a;", ";a", "a,", ",a", "a]", "[a", "{a", "a}", "{a|b}", "<f0> a|<f1> b", "a:b", "a:n", "n", "se", "_", "c",
              "subgraph", "digraph", "strict", "edge", "http://a.b/?c=d&e#f", "C:\\dir\\x", "//a", "/*a*/", "#a", "a--b", "a->b", "%d", "{}", "$HOME", "\\N", "\\G \\E \\T \\H \\L",
              "times-roman", "Times-Roman", "Times New Roman", "Times,Roman", "x" * 70, "x" * 300 + ".0", "ab" * 130 + " c", "\\" * 9, "0" * 40, "é" * 50]
    nums = ["0", "1", "-1", "0.5", "-0.5", "0.0555", "1.5", "12", "100000", "-25", "3.1415927", "16777216", "0.1", "0.3", "1000000", "0.00001",
            "123456.78", "340282350000000000000000000000000000000", "-0", "0.000000000000000000000000000000000000000000001", "2.25", "-1000.125",
            "0.1234567", "4194304.5", "0.7", "72", "14", "10", "100", "0.10000001", "0.01", "0.001", "0.0001", "9", "99", "999.5", "1.25", "-0.125", "-12.5", "3", "4", "5", "6", "7", "8",
            "20", "1000", "10000", "255", "256", "65536", "2147483600", "4294967300", "9007199000000000", "0.25", "0.75", "2.5", "7.5", "33.3", "66.6", "99999.99"]
    ints = ["0", "1", "-1", "7", "10", "100", "-25", "2147483647", "-2147483648", "1000000", "42", "2", "3", "9", "99", "255", "256", "-10", "-255", "1234567890", "65535", "65536", "-999999"]
    pairs = [["1", "2"], ["0", "0"], ["0.5", "-0.25"], ["10", "100"], ["1.5", "1.5"], ["0.1", "10"], ["72", "-72"], ["3", "0"], ["1000000", "0.001"]]
    return dict(texts=[C(x) for x in texts], nums=[C(x) for x in nums], ints=[C(x) for x in ints], pairs=[[C(a), C(b)] for a, b in pairs])


# ---- separators ----
def sep_config(tier, seed):
    w = lambda *toks: [C(t) for t in toks]
    one = lambda t: [w(t)]
    semi = [w(";"), []]
    comma = [w(","), w(";"), [], w("]", "[")]
    trail = [[], w(","), w(";")]

    def attrs(*kv):
        out = [one("[")]
        for n, (k, v) in enumerate(kv):
            if n:
                out.append(comma)
            out += [one(k), one("="), one(v)]
        return out + [trail, one("]")]

    bases = [
        [one("strict"), one("graph"), one("g"), one("{"), one("a"), semi, one("b"), *attrs(("x", "1"), ("y", '"q"')), semi, one("}")],
        [one("digraph"), one("{"), one("a"), one(":"), one("p"), one(":"), one("ne"), one("->"), one("b"), one("->"), one("c"),
         *attrs(("k", "<h>")), semi, one("x"), one("="), one("-1.5"), semi, one("}")],
        [one("graph"), one('"/* x */ // y # z"'), one("{"), one("node"), *attrs(("a", '"//"'), ("b", "</* # >"), ("c", '"\\"#"')),
         semi, one("edge"), one("["), one("]"), semi, one("}")],
        [one("graph"), one("{"), one("subgraph"), one("s"), one("{"), one("a"), semi, one("}"), semi, one("{"), one("b"), semi,
         one("}"), one("--"), one("subgraph"), one("{"), one("}"), *attrs(("w", "2.")), semi, one("}")],
        [one("digraph"), one("é"), one("{"), one("é1"), one(":"), one('"p"'), semi, one("graph"), *attrs(("_", "日本")), semi,
         one('"a"'), one("="), one('"b"'), semi, one("<a>"), one("->"), one("<b>"), semi, one("}")],
        # ids over several lines, all indented
        [one("digraph"), one('" a\n b"'), one("{"), one('"a\n b\n  c "'), *attrs(("x", "<\n  <b>\n </b>\n >"), ("y", "2")), semi, one("a"), one("->"), one('"\\\n \\\n "'), semi, one("}")],
        [one("graph"), one("{"), one('"a\n\tb"'), one("="), one("<\n\tx\n\t>"), semi, one("}")],
        # ids with what would be a separator inside, line by line
        [one("graph"), one("{"), one('"a\n b\n\tc"'), *attrs(("x", '"x \n#y\n // z\n"'), ('"/*\n"', '"*/\r\n  "')), semi, one("<\n\t<b>\n </b>\n>"), one("="), one('"a\\\n b\\\n\n\n c "'),
         semi, one('"\t;\t,"'), semi, one("}")],
    ]
    gaps = ["", "\n", "\r\n", "\t", "  ", "/**/", "/* x */", "/***/", "/*/*/", "/*\n * }]\n */", "//\n", "// { [ \" <\n", "#\n",
            "# }\r\n", "//*\n", "/*//*/", "/*\"*/", "/*a*//*b*/", " # /*\n", "/* é日 */", "//\\\n", "\n#line 1\n", "/* ; */", "\n ", "\n\t", "\r\n  ", "\n\n\n", " \n", "/*\n*/", "\n// x\n ", " \n ", "\t\n\t", "//\n//\n", "\n#\n#\n"]
    ends = ["// x", "#", "//", "# }", "/**/ //y", "\n\n", "#é"]
    return dict(bases=bases, gaps=[C(g) for g in gaps], ends=[C(g) for g in ends], pairs=True,
                every=1 if tier == "thorough" else 80, seed=seed)


# ---- graphs ----
def pid(t):
    return dict(k="p", t=C(t))


def qid(t):
    return dict(k="q", t=C('"' + t + '"'))


def hid(t):
    return dict(k="h", t=C("<" + t + ">"))


AN = dict(k="a", t=[])
NO = dict(k="-", t=[])


def nid(i, p=NO, c=""):
    return dict(o="nid", id=i, port=p, comp=C(c))


def at(k, v):
    return dict(key=k, val=v)


def node(n, a=()):
    return dict(o="node", nid=n, at=list(a))


def gattr(ty, a):
    return dict(o="gattr", ty=ty, at=list(a))


def asg(k, v):
    return dict(o="assign", key=k, val=v)


def edge(vs, a=()):
    return dict(o="edge", pair=len(vs) == 2, vs=vs, at=list(a))


def sub(i, body):
    return dict(o="sub", id=i, body=body)


def graph(di, body, strict=False, i=AN):
    return dict(o="graph", di=di, strict=strict, id=i, body=body)


def S(ls="\n", step=2, size=90, semi=False, multi=False, comma=True, fm=()):
    return dict(ls=C(ls), step=step, size=size, semi=semi, multi=multi, comma=comma, fm=list(fm))


a, b = pid("a"), pid("b")
A1 = [at(a, pid("1"))]
A2 = [at(a, qid("x y")), at(pid("color"), hid("<b/>"))]
A3 = [at(pid("k"), qid("é")), at(a, pid("-.5")), at(qid("q"), a)]
LEAF = [
    node(nid(a)),
    node(nid(b, pid("p"), "ne"), A1),
    node(nid(qid("q{;")), A2),
    asg(a, pid("-1.5")),
    gattr("node", A1),
    gattr("edge", []),
    edge([nid(a), nid(b)]),
    edge([nid(a), nid(b, NO, "s"), nid(pid("1"))], A2),
    node(nid(hid("h"), qid("p")), A3),
    edge([nid(pid("7")), nid(pid("x1"), pid("n1"), "_")], A1),
]
SETTINGS = [
    S(), S(ls=""), S(semi=True), S(ls="", semi=True, multi=True), S(multi=True, size=20),
    S(multi=True, comma=False, size=0, step=3), S(ls=" ", size=12, step=0),
    S(ls="\r\n", size=30, semi=True, multi=True, comma=False),
    S(ls="", multi=True, comma=False), S(ls="\t", size=1000, multi=True), S(ls="\n\n", size=0, step=5, semi=True),
]
KINDS = [dict(di=False, strict=False, id=1), dict(di=True, strict=True, id=2), dict(di=True, strict=False, id=3),
         dict(di=False, strict=True, id=4)]


def print_config(tier, seed, every):
    return dict(leaf=LEAF, verts=[nid(a), nid(b, pid("x"))], ids=[AN, pid("s"), qid("s s"), hid("i")], ats=[[], A1, A2],
                settings=SETTINGS, kinds=KINDS, len=2, inner=1, every=every, seed=seed)


def terse_config(tier, seed):
    """short statements of ids of every kind next to each other"""
    ids = [a, pid("-1"), pid("2"), pid(".5"), pid("3."), pid("-.0"), pid("e"), pid("\u00e9"), qid(""), qid("-"), hid(""), hid("-"), pid("_")]
    leaf = [node(nid(i)) for i in ids]
    leaf += [asg(x, y) for x, y in [(a, pid("-1")), (pid("-1"), a), (pid("1."), pid(".5")), (a, qid("q")), (a, hid("h")), (pid("\u00e9"), pid("\u00e9"))]]
    leaf += [edge([nid(x), nid(y)]) for x, y in [(a, pid("-1")), (pid("-1"), pid("1.")), (qid("q"), hid("h"))]]
    leaf += [node(nid(a, pid("1"))), node(nid(pid("-1"), qid("q"))), node(nid(a, NO, "n")), node(nid(a), A1), gattr("graph", []), sub(AN, []), sub(a, []), sub(a, [node(nid(a))])]
    sets = [S(ls=""), S(ls="", semi=True), S(ls="", multi=True, size=0), S(ls=" "), S(), S(size=0), S(ls="\r\n", step=0), S(ls="\t")]
    return dict(leaf=leaf, verts=[nid(a), nid(b, pid("x"))], ids=[AN, pid("s")], ats=[[], A1], settings=sets, kinds=[dict(di=False, strict=False, id=1), dict(di=True, strict=False, id=2)],
                len=2, inner=0, every=3 if tier != "thorough" else 1, seed=seed)


def session_config(tier):
    s = sub(AN, [edge([nid(a), nid(b)], A2), node(nid(a), A2)])
    calls = [
        dict(op="inline"), dict(op="sep", ls=C("\n")), dict(op="sep", ls=C(" \n")), dict(op="semi"), dict(op="multi"),
        dict(op="nocomma"), dict(op="step", n=4), dict(op="size", n=5), dict(op="printer", id=a, tag=C("P")),
        dict(op="graph", x=graph(True, [s, node(nid(a), A2)])),
        dict(op="graph", x=graph(False, [edge([s, nid(a)], A1)])),
        dict(op="graph", x=graph(False, [])), dict(op="graph", x=graph(True, [], True, a)),
        dict(op="elem", x=edge([nid(a), nid(b)], A1)),
        dict(op="elem", x=sub(pid("s"), [edge([nid(a), s], A2)])),
    ]
    return dict(calls=calls, max=5 if tier == "thorough" else 4)


# ---------------------------------------------------------------- building

VARS = ["x", "esc", "attrs"]


def build_config(tier, seed):
    e = lambda how, t: dict(how=how, t=C(t))
    exprs = [e("lit", "a"), e("tick", "b c"), e("own", "o"), e("ref", "r"), e("fmt", "fm"), e("call", "ca\"ll"), e("char", "c"),
             e("raw", "42"), e("raw", "-7"), e("raw", "1.5"), e("raw", "true"), e("var", "x"), e("block", "bl"), e("lit", ""),
             e("lit", "\u00e9<&>\\\n"), e("lit", "node")]
    few = [e("lit", "a"), e("tick", "b"), e("lit", "<i>c</i>"), e("tick", "d")]
    many = [e("lit", "m1"), e("tick", "m2"), e("lit", "m3"), e("own", "m4"), e("lit", "m5"), e("tick", "m6"), e("lit", "m7" * 3), e("lit", "m8"), e("lit", "m9")]
    dirs = [e("lit", "ne"), e("tick", "_"), e("lit", ""), e("own", "zz"), e("var", "x")]
    # what else an id may be spelled like
    spelled = [x for x in attr_values(tier)["texts"] if len(x) < 80] + [C(x) for x in ["<a", "a>", "<<a>", "<a>>", "\"a", "a\"", "\"", "\"\"", "\"a\"", "'a'", "\\\"a\\\"", "<\"a\">", "html a", "esc a", "anon 1"]]
    return dict(exprs=exprs, few=few, many=many, dirs=dirs, empty=e("lit", ""), texts=[dict(how="lit", t=x) for x in spelled], len=3, chain=5 if tier == "thorough" else 4,
                every=1 if tier == "thorough" else 10, seed=seed)


def build_hist_config(tier):
    pid_ = lambda t: dict(o="id", k="p", t=C(t))
    nid_ = dict(o="nid", id=pid_("n"), port=[])
    at_ = dict(o="attr", key=pid_("k"), val=dict(o="id", k="q", t=C('"v"')))
    v_ = dict(o="vertex", v=nid_)
    stmts = [dict(o="node", nid=nid_, at=[at_]), dict(o="edge", pair=True, vs=[v_, v_], at=[]), at_, dict(o="attrs", ty="node", at=[at_, at_]),
             dict(o="sub", id=dict(o="id", k="a", t=[]), body=[]),
             dict(o="edge", pair=False, vs=[v_, v_], at=[at_])]
    g, s_, put, keep = (lambda k: ["g", k]), (lambda k: ["s", k]), ["put", 0], ["keep", 0]
    pats = [[g(4), g(6)], [s_(6), g(4)], [s_(4)], [g(1)], [g(2), g(3)], [g(1), g(2), g(3), g(4), g(5), keep], [s_(1), s_(4), put], [s_(5), g(5), put, g(1), keep], [s_(2), s_(2), s_(3)], [keep, g(4), g(4)],
            [put], [g(5), s_(5)]]
    return dict(stmts=stmts, len=4 if tier == "thorough" else 3, pats=pats, plen=120 if tier == "thorough" else 70)
