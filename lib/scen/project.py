"""A small schema project whose files come in many versions (the sources a user edits between compiler runs)."""

FILES = ("main.zs", "pkg/types.zs", "pkg/deep/item.zs", "pkg/sub_module/more.zs", "alt.zs", "pkg/zoo.zs", "pkg/exprs.zs")
#         number of variants of each feature of a file
FEATURES = {
    "main.zs": (3, 2, 2, 3, 2, 2),
    "pkg/types.zs": (3, 3, 2, 2, 2),
    "pkg/deep/item.zs": (3, 2, 3),
    "pkg/sub_module/more.zs": (2, 3, 2),
    "alt.zs": (2, 2),
    "pkg/zoo.zs": (2, 3, 3, 2, 2),
    "pkg/exprs.zs": (3, 5, 2),
}


def text(name, v, broken=0):
    """the text of file `name` in version v (tuple of feature variants)"""
    t = {"main.zs": _main, "pkg/types.zs": _types, "pkg/deep/item.zs": _item, "pkg/sub_module/more.zs": _more,
         "alt.zs": _alt, "pkg/zoo.zs": _zoo, "pkg/exprs.zs": _exprs}[name](*v)
    if broken == 1:
        t += "\nstruct Broken { uint8 }\n"
    elif broken == 2:
        t += "\nstruct Broken\n{\n    NoSuchType field;\n};\n"
    return t


def _main(fields, packed, comment, extra, svc, tmpl):
    f = ["    uint32 id;", "    string name;", "    varint32 delta = 5;"][:fields + 1]
    s = "package main;\nimport pkg.types.*;\nimport pkg.sub_module.more.*;\nimport pkg.zoo.*;\n%s\n" % ("import pkg.exprs.*;\n" if not packed else "")
    if comment:
        s += "/** Root of everything.\n *\n * @see pkg.types.Color\n */\n"
    s += "struct Root\n{\n" + "\n".join(f) + "\n    %sPoint points[];\n    Color color;\n    optional Shade shade;\n" % (
        "packed " if packed else "")
    if tmpl:
        s += "    Box<uint16> small;\n    Box<Point> large;\n"
    s += "\n    function uint32 twice()\n    {\n        return id * %d;\n    }\n};\n" % (2 + fields)
    if extra >= 1:
        s += "\nunion Either\n{\n    uint8 left;\n    string right%s;\n};\n" % ("s[]" if extra == 2 else "")
    if svc:
        s += "\nservice Desk\n{\n    Point ask(Root);\n    Point tell(Root);\n};\n"
    s += "\npubsub Wire\n{\n    topic(\"wire/%d\") Root root;\n};\n" % fields
    return s


def _types(items, bits, const, more, doc):
    s = "package pkg.types;\nimport pkg.deep.item.*;\n\n"
    if doc:
        s += "/*!\n\nColours, see [the notes](notes.md).\n\n!*/\n"
    s += "enum uint8 Color\n{\n    RED,\n    GREEN" + "".join(",\n    " + x for x in ("BLUE", "BLACK")[:items]) + "\n};\n\n"
    s += "bitmask bit:6 Shade\n{\n    LIGHT" + "".join(",\n    " + x for x in ("DARK", "MATT")[:bits]) + "\n};\n\n"
    s += "const uint32 LIMIT = %d;\n\n" % (100 + const)
    s += "struct Point\n{\n    int16 x;\n    int16 y : y < LIMIT;\n    Item item;\n};\n\n"
    s += "struct Box<T>\n{\n    T content;\n    T all[];\n};\n"
    if more:
        s += "\nchoice Pick(Color color) on color\n{\ncase RED:\n    uint8 red;\ncase GREEN:\n    Point green;\ndefault:\n    ;\n};\n"
        s += "\nsubtype Point Place;\n"
    return s


def _item(fields, flag, sql):
    s = "package pkg.deep.item;\n\nstruct Item\n{\n    bit:%d kind;\n" % (3 + fields)
    if fields:
        s += "    string label;\n"
    if flag:
        s += "    optional uint8 flag;\n"
    s += "};\n"
    if sql:
        s += "\nsql_table ItemTable\n{\n    int64 id sql \"PRIMARY KEY NOT NULL\";\n    Item item;\n%s};\n" % (
            "    string note;\n" if sql == 2 else "")
        s += "\nsql_database ItemDb\n{\n    ItemTable items;\n};\n"
    return s


def _more(a, b, imp):
    s = "package pkg.sub_module.more;\n%s\n" % ("import pkg.types.*;\n" if imp else "")
    s += "struct More\n{\n    uint8 a%s;\n};\n" % ("" if not a else " = 7")
    for i in range(b):
        s += "\nstruct Extra%d\n{\n    More more[%d];\n%s    extend uint8 late;\n};\n" % (i, i + 2, "    Point point;\n" if imp else "")
    return s


def _alt(packed, extra):
    s = "package alt;\nimport pkg.types.*;\n\nstruct Alt\n{\n    %sPoint points[];\n};\n" % ("packed " if packed else "")
    if extra:
        s += "\nconst string NAME = \"alt\";\n"
    return s


def _zoo(rules, tmpl, used, uni, names):
    """many of everything whose order could depend on a hash, and names whose case depends on the locale"""
    s = "/*!\n\nZoo %s\n\n!*/\npackage pkg.zoo;\nimport pkg.types.*;\nimport pkg.deep.item.*;\n\n" % (
        "s \u00e9\u00df\u0130\u0131 \u4e2d\u6587 \U0001f40d" if uni else "plain")
    s += "const string TITLE = \"%s\";\nconst float64 RATIO = 1234.5;\nconst uint64 BIG = 1234567890123;\n\n" % (
        "caf\u00e9 \u0131I\u0130i" if uni else "zoo")
    s += "/** Animals. @deprecated */\nenum uint8 Animal\n{\n    IBIS = 3,\n    INDRI,\n    @deprecated IGUANA,\n    @removed LION,\n    TIGER\n};\n\n"
    s += "bitmask uint16 Mood\n{\n    IDLE,\n    IRATE = 4,\n    SILLY\n};\n\n"
    for n in ("Insect", "Iris", "Lion", "Tiger", "Ibex", "Bird")[:6 if used else 4]:
        s += "/**\n * %s.\n *\n * @see %s\n * @param p Some \"value\" of 1234567.\n */\nstruct %s(uint8 p)\n{\n    /** The identity. */\n    uint32 id;\n    Animal animal = Animal.INDRI;\n" % (
            n, "Cage", n)
        s += "    Mood mood if p > 1;\n    bit<p %% 30 + 1> bits;\n    varint interval[];\n    Item item;\n};\n\n"[:].replace("%%", "%")
    s += "struct Cage\n{\n    Insect(1) insect;\n    Iris(2) iris;\n    Tiger(3) tiger%s;\n    Lion(4) inmates[];\n    Either2 either2;\n};\n\n" % (
        "s[3]" if used == 2 else "")
    s += "union Either2\n{\n    Animal animal;\n    Mood mood;\n    Color color;\n    string iName;\n};\n\n"
    s += "choice Which(Animal animal) on animal\n{\ncase IBIS:\ncase INDRI:\n    Cage cage;\ncase TIGER:\n    Item item;\ndefault:\n    Color color;\n};\n\n"
    s += "struct Pair<A, B>\n{\n    A first;\n    packed B second[];\n};\n\n"
    s += "struct Pairs\n{\n" + "".join("    Pair<%s> pair%d;\n" % (x, i) for i, x in enumerate(
        ("uint8, int16", "string, uint32", "Item, Animal", "Cage, Mood", "float32, bit:7")[:3 + tmpl])) + "};\n\n"
    if tmpl:
        s += "instantiate Pair<uint8, int16> IntPair;\n\n"
    s += "service Inquiry\n{\n    Cage inquire(Pairs);\n    Item item(Cage);\n};\n\n"
    s += "pubsub Information\n{\n    publish topic(\"info/i\") Item info;\n    subscribe topic(\"info/cage\") Cage ice;\n    topic(\"info/\" + \"x\") Pairs ink;\n};\n\n"
    s += "sql_table Inventory\n{\n    int32 id sql \"PRIMARY KEY NOT NULL\";\n    Animal animal;\n    string title;\n    float64 price;\n    Item item;\n};\n\n"
    s += "sql_database ZooDb\n{\n    Inventory inventory;\n    Inventory%s;\n};\n\n" % (" incoming" if names else " outgoing")
    if rules:
        s += "/** Rules. */\nrule_group Rules\n{\n    /** Feed the animals. */\n    rule \"rule-i\";\n    /** Do not. */\n    rule \"rule-ii\";\n};\n\n"
    return s


def _exprs(refs, warn, used):
    """expressions that refer to many things at once, with warnings and (rarely) errors about several of them"""
    names = ("alpha", "beta", "gamma", "delta", "epsilon", "zeta", "eta", "theta")[:4 + 2 * refs]
    s = "package pkg.exprs;\nimport pkg.types.*;\nimport pkg.zoo.*;\n\n"
    s += "".join("const uint16 C%s = %d;\n" % (n.upper(), i + 1) for i, n in enumerate(names))
    s += "const uint32 SUM = %s;\n\n" % " + ".join("C" + n.upper() for n in names)
    s += "struct Refs\n{\n"
    s += "".join("    %suint16 %s;\n" % ("optional " if warn else "", n) for n in names)
    if warn == 2:
        s += "    uint32 all : %s < 1000;\n" % " + ".join(reversed(names))
    s += "    Animal animal if %s;\n" % " && ".join(n + " > " + "C" + n.upper() for n in names) if warn < 2 else ""
    s += "    Mood mood if SUM > %s;\n" % " + ".join(names) if warn == 3 else ""
    s += "    uint32 where;\n    uint32 there;\nwhere:\n    uint8 first;\nthere:\n    uint8 second if %s;\n" % (
        "where + there < there + 5 + where" if warn == 4 and refs == 2 else "SUM > 1")
    s += "\n    function uint32 sum()\n    {\n        return %s;\n    }\n};\n\n" % " + ".join(names)
    s += "choice Sel(Animal animal, Mood mood) on (animal == Animal.IBIS) ? (mood == Mood.IDLE ? 1 : CALPHA) : %s\n{\n" % (
        "CBETA" if not used else "(SUM + CBETA + CGAMMA)")
    s += "".join("case %s:\n    uint8 %s;\n" % ("C" + n.upper(), n) for n in names) + "};\n"
    if used:
        s += "\nstruct Users\n{\n    Animal animal;\n    Mood mood;\n    Sel(animal, mood) sel;\n    bit<CALPHA + CBETA> bits;\n"
        s += "    Color color if mood == Mood.IDLE || mood == Mood.SILLY || animal == Animal.IBIS || animal == Animal.INDRI;\n};\n"
    return s


OPTIONS = ("-withoutSourcesAmalgamation", "-withTypeInfoCode", "-withReflectionCode", "-withoutWriterCode", "-withoutPubsubCode",
           "-withoutServiceCode", "-withoutSqlCode", "-withCodeComments", "-withValidationCode", "-withoutRangeCheckCode",
           "-withParsingInfoCode", "-withoutSettersCode")

NOTES = "# Notes\n\nColours are *bright*, see [the other notes](deep/notes.md).\n"
NOTES2 = "# Other notes\n\nNothing.\n"
