"""The configurations of the specifications that TLC explores, and how they are replayed."""
EDIT = ["new", "newf", "drop", "pushf", "pushb", "popf", "popb", "prep", "app"]
MOVE = ["pushf", "pushb", "popf", "popb", "prep", "app"]
SIB = ["insp", "insn", "det"]
COPY = ["clone", "clonef", "copyb", "copybf", "rebuild"]
WRITE = ["w", "wb", "wbc", "wi"]
OPER = ["sub", "div", "opself", "neg", "divu"]
MIT = ["mbeg", "mnext", "mend", "minsp", "minsn", "mdet", "mpush", "mpop", "mw"]
READ = ["bfs", "bfsc", "cmp"]
WALK = ["walk", "wfwd", "wnext", "wpar", "wsib", "wch", "wrev"]
RCN = ["hclone", "hfront", "hback", "hparent"]

def g(maxid, ns, starts, ops, depth=0, text=False, **kw):
    return dict(maxid=maxid, ns=ns, starts=starts, ops=ops, depth=depth, text=text, **kw)

def cases(mod, inv, **consts): return dict(mod=mod, inv=inv, consts=consts, ns=0)
def sim(num, depth, *a, **kw): return dict(g(*a, **kw), sim=(num, depth))

def big(starts, ops, num=5, depth=40, **kw): return sim(num, depth, 56, 5, starts, ops, few=2, **kw)

HUGE = "{T(Wide(300)), T(Chain(150)), F(Wide(270)), T(Full(4, 5)), T(Comb(60)), F(<<Full(3, 5), Wide(70), Chain(20)>>)}"
HUGES = "With({<<x>> : x \\in %s}, BigPartners)" % HUGE
def huge(starts, ops, num=3, depth=25, **kw): return sim(num, depth, 360, 4, starts, ops, few=1, **kw)

USES = ["yclone", "yfmt", "yhash", "ycmp", "ydrop", "ydropm"]
UCODE = ["xclone", "xclonef", "xcopyb", "xcopybf", "xrebuild", "xfmt", "xhash", "xcmp", "xsub", "xdiv", "xneg", "xdivu", "xdrop", "xext"]
RCOPS = ["rc", "intotree", "down", "up", "iterrc", "rnext", "rclone", "ref", "mut", "gw", "ext"] + RCN
OWNOPS = EDIT + SIB + ["aband", "into", "inext", "intobfs"] + COPY + WRITE + READ
FAM = {
    # every history of a few operations on few nodes
    "edit":    g(4, 3, "NoStart", EDIT),
    "sib":     g(4, 3, "NoStart", ["new", "newf", "pushb", "popb", "app"] + SIB),
    "own":     g(4, 3, "NoStart", ["new", "newf", "pushb", "popb", "aband", "into", "inext", "drop"]),
    # every short history on every shape
    "edit_s":  g(9, 3, "With(One(5), Partners)", MOVE, depth=2),
    "sib_s":   g(8, 3, "With(One(5), TreePartners)", SIB + ["popf", "popb"], depth=2),
    "own_s":   g(6, 3, "One(5)", ["aband", "into", "inext", "drop", "popf", "rebuild", "intobfs"], depth=3),
    "bfs_s":   g(7, 2, "One(7)", ["bfs", "bfsc", "intobfs"], depth=1),
    "bfs_e":   g(7, 3, "With(One(4), TreePartners)", MOVE + SIB + ["bfs", "bfsc"], depth=2),
    "copy_s":  g(10, 3, "One(5)", COPY, depth=1),
    "copy":    g(8, 2, "One(4)", COPY + ["w", "popf", "det", "drop"], depth=3),
    "write_s": g(6, 2, "One(6)", WRITE, depth=1),
    "write":   g(5, 3, "With(One(4), {T(Leaf)})", WRITE + ["pushf", "popb", "insn", "det"], depth=2),
    "oper":    g(9, 4, "With(One(3), {T(Leaf), T(Pair), T(Vee), F(<<>>), F(<<Leaf>>), F(<<Pair, Leaf>>)})", OPER, depth=1),
    "oper2":   g(8, 3, "With(One(2), {T(Leaf), T(Pair), F(<<>>), F(<<Leaf, Leaf>>)})", OPER + ["w", "popf", "popb", "drop"], depth=3),
    "mit":     g(6, 4, "{<<F(<<Leaf, Pair, Leaf>>), T(Leaf)>>, <<T(<<Pair, Leaf, Leaf>>), T(Leaf)>>, <<T(<<<<Leaf, Leaf>>>>), T(Leaf)>>}", MIT, depth=7),
    "text":    g(7, 2, "One(7)", ["rebuild"], depth=1, text=True),
    "text_e":  g(8, 3, "With(One(4), TreePartners)", MOVE + SIB + ["aband", "rebuild", "clone", "w"], depth=2, text=True),
    "cmp":     g(8, 2, "With(One(4), {x[1] : x \\in One(4)})", ["cmp"], depth=1),
    "cmp_e":   g(8, 2, "With(One(2), {x[1] : x \\in One(3)})", ["cmp", "w", "clone", "clonef", "rebuild", "drop"], depth=3),
    # cursors
    "walk_s":  g(7, 1, "One(6)", WALK),
    "walk_c":  g(4, 3, "With(One(3), {T(Leaf)})", WALK + ["unwalk", "pushb", "popf", "popb", "det", "drop"], depth=5),
    # shared nodes
    "rclife":  g(4, 4, "OneTree(4)", ["rc", "drop", "popf", "popb", "det"] + RCN),
    "rcedit":  g(5, 4, "With(OneTree(4), {T(Leaf)})", ["rc", "drop", "hfront", "hparent", "hback", "pushf", "pushb", "popf", "popb", "insp", "insn", "det", "w"], depth=5),
    "rcjoin":  g(7, 4, "With(OneTree(3), {F(<<>>), F(<<Leaf, Pair, Leaf>>)})", ["rc", "drop", "hfront", "hback", "prep", "app", "ext", "popf", "popb", "bfs"], depth=5),
    "weak":    g(3, 5, "OneTree(3)", ["rc", "down", "up", "drop", "hfront", "popf", "det"]),
    "weak_i":  g(3, 5, "OneTree(3)", ["rc", "down", "up", "drop", "hfront", "popf", "det", "intotreew", "rebuild", "intobfs", "pushb"], depth=8),
    "borrow":  g(4, 4, "With(OneTree(3), {T(Leaf)})", ["rc", "ref", "mut", "gw", "drop", "hfront", "hparent", "hclone", "down", "up", "pushf", "popf", "popb", "insp", "insn", "det", "w", "iterrc", "clone", "intotree"], depth=5),
    "iterrc":  g(5, 4, "{<<T(<<Leaf, Leaf, Pair>>)>>, <<T(<<Pair, Leaf, Leaf>>)>>, <<T(<<Leaf,Leaf>>), T(Leaf)>>}", ["rc", "iterrc", "rnext", "rclone", "popf", "popb", "det", "insp", "insn", "drop"], depth=8),
    "conv":    g(4, 3, "With(OneTree(3), {T(Leaf)})", ["rc", "intotree", "hclone", "hfront", "drop", "popf", "pushb", "det", "w"], depth=6),

    # user code that panics
    "ucode_s": g(9, 3, "With(One(4), {T(Leaf), T(Pair), F(<<>>), F(<<Leaf, Pair>>)})", UCODE, depth=2),
    "ucode":   g(7, 3, "With(One(3), {T(Pair)})", UCODE + ["pushb", "popf", "det", "w", "clone", "rebuild", "aband", "into", "walk", "drop"], depth=3),
    "ucode_rc": g(6, 3, "With(OneTree(3), {T(Leaf), F(<<Leaf, Leaf>>)})", ["rc", "xclone", "xcopyb", "xfmt", "xhash", "xcmp", "xdrop", "xext", "hfront", "hback", "down", "up", "pushb", "popf", "det", "drop", "mut", "clone", "w"], depth=4),
    # the user's code uses handles
    "reent":   g(8, 4, "{<<x>> : x \\in {T(<<Leaf, Pair>>), T(<<Leaf, Leaf, Leaf>>), T(<<<<Pair>>, Leaf>>), T(<<Pair, Pair>>)}}", USES + ["rc", "hfront", "hback", "hparent", "hclone", "down", "up", "popf", "popb", "drop", "mut", "ref"], depth=6),
    "reent_e": g(7, 4, "{<<x>> : x \\in {T(<<Pair, <<Leaf, Leaf>>>>), T(<<Leaf, <<Pair, Leaf>>>>)}}", USES + ["yback", "rc", "hfront", "hback", "drop"], depth=9),
    # threads
    "mt":      g(4, 3, "{<<T(<<Leaf, Leaf>>)>>, <<T(<<Pair>>), T(Leaf)>>, <<F(<<Leaf, Pair>>)>>}", ["walk", "unwalk", "send", "peek", "popf", "det", "pushb", "drop", "wfwd"], depth=6, nt=2),

    "mt_rc":   g(4, 4, "{<<T(<<Leaf, Pair>>)>>}", ["walk", "unwalk", "send", "popf", "popb", "rc", "down", "up", "drop"], depth=7, nt=2),

    # cases computed by TLC: comparison and text of pairs; tuples
    "ccmp":    cases("Compare", "Laws PrintCase", Labels="{1, 2, 9}", NaN="9", TreeN="3", ForestN="3"),
    "ccmp2":   cases("Compare", "Laws PrintCase", Labels="{1, 2}", NaN="9", TreeN="4", ForestN="4"),
    "tuple":   cases("Tuple", "Fresh InBfsPlace Finished Laws PrintCase", TreeShapes="AllTrees(6, 32)", ForestShapes="AllForests(6, 32)"),
    # sequences of visits that may not add up
    "visits":  cases("Rebuild", "InBlock Exact Built PrintCase", Inputs="Small(2, 2, 4) \\cup Small(3, 3, 3) \\cup Almost(5)", N="6"),
    # random behaviours on large structures
    "b_own":   big("With(Big, BigPartners)", EDIT + SIB + COPY + ["aband", "into", "inext", "intobfs", "w", "wb", "wbc", "wi", "bfs", "bfsc"]),
    "b_edit":  big("With(Big, BigPartners)", EDIT + SIB + ["rebuild", "w"]),
    "b_mit":   big("With(Big, BigPartners)", MIT + ["pushb", "popf", "det", "insn"]),
    "b_walk":  big("Big", WALK + ["unwalk", "popf", "det"]),
    "b_text":  big("With(Big, BigTrees)", SIB + ["popf", "pushb", "cmp", "clone", "drop", "w"], text=True),
    "b_oper":  big("With(Big, BigPartners)", OPER + ["popf", "popb", "drop"], depth=15),
    "b_rc":    big("{<<x>> : x \\in BigTrees}", RCOPS + ["drop", "popf", "popb", "prep", "app", "insp", "insn", "det", "w", "bfs", "clone"]),
    # the same on structures of up to three hundred nodes
    "h_own":   huge(HUGES, EDIT + SIB + COPY + ["aband", "into", "inext", "intobfs", "w", "wb", "wbc", "wi", "bfs", "bfsc"]),
    "h_edit":  huge(HUGES, EDIT + SIB + ["rebuild", "w"]),
    "h_mit":   huge(HUGES, MIT + ["pushb", "popf", "det", "insn"]),
    "h_walk":  huge("{<<x>> : x \\in %s}" % HUGE, WALK + ["unwalk", "popf", "det"], num=5),
    "h_text":  huge(HUGES, SIB + ["popf", "pushb", "cmp", "clone", "drop", "w"], text=True),
    "h_oper":  huge(HUGES, OPER + ["popf", "popb", "drop"], depth=10),
    "h_rc":    huge("{<<x>> : x \\in {y \\in %s : y[1] = \"tree\"}}" % HUGE, RCOPS + ["drop", "popf", "popb", "prep", "app", "insp", "insn", "det", "w", "bfs", "clone"]),
    # deeper, for the thorough tier
    "edit_t":  g(5, 3, "NoStart", EDIT),
    "sib_t":   g(8, 3, "With(One(5), TreePartners)", SIB + ["popf", "popb", "pushb"], depth=3),
    "own_t":   g(7, 4, "One(6)", ["aband", "into", "inext", "drop", "popf", "rebuild", "intobfs"], depth=4),
    "mit_t":   g(9, 4, "{<<F(<<Leaf, Pair, Leaf, Vee>>), T(Leaf)>>, <<T(<<Pair, Leaf, Leaf>>), T(Pair)>>, <<T(<<<<Leaf, Leaf, Leaf>>>>), T(Leaf)>>}", MIT, depth=9),
    "bfs_t":   g(9, 2, "One(9)", ["bfs", "bfsc", "intobfs"], depth=1),
    "copy_t":  g(14, 3, "One(7)", COPY, depth=1),
    "write_t": g(8, 2, "One(8)", WRITE, depth=1),
    "oper_t":  g(12, 4, "With(One(4), {T(Leaf), T(Pair), T(Vee), F(<<>>), F(<<Leaf>>), F(<<Pair, Leaf>>), F(<<Leaf, Leaf, Pair>>)})", OPER, depth=2),
    "text_t":  g(9, 2, "One(9)", ["rebuild"], depth=1, text=True),
    "walk_t":  g(8, 1, "One(8)", WALK),
    "rclife_t": g(5, 4, "OneTree(5)", ["rc", "drop", "popf", "popb", "det"] + RCN, depth=7),
    "rcedit_t": g(5, 4, "With(OneTree(4), {T(Leaf)})", ["rc", "drop", "hfront", "hparent", "hback", "pushf", "pushb", "popf", "popb", "insp", "insn", "det", "w"], depth=6),
    "weak_t":  g(4, 5, "OneTree(4)", ["rc", "down", "up", "drop", "hfront", "hback", "popf", "det"], depth=7),
    "borrow_t": g(4, 4, "With(OneTree(3), {T(Leaf)})", ["rc", "ref", "mut", "gw", "drop", "hfront", "hparent", "hclone", "down", "up", "pushf", "popf", "popb", "insp", "insn", "det", "w", "iterrc", "clone", "intotree"], depth=6),
    "iterrc_t": g(8, 4, "{<<T(<<Leaf, Vee, Leaf, Leaf>>)>>, <<T(<<Pair, Leaf, Leaf>>), T(Leaf)>>, <<T(<<<<Leaf, Leaf, Leaf>>>>), T(Leaf)>>}", ["rc", "iterrc", "rnext", "rclone", "popf", "popb", "det", "insp", "insn", "drop", "hfront"], depth=8),
    "conv_t":  g(5, 3, "With(OneTree(4), {T(Leaf)})", ["rc", "intotree", "hclone", "hfront", "drop", "popf", "pushb", "det", "w", "walk", "unwalk"], depth=7),
    "mt_t":    g(5, 3, "{<<T(<<Leaf, Pair>>)>>, <<T(<<Pair>>), T(Leaf)>>, <<F(<<Leaf, Vee>>)>>}", ["walk", "unwalk", "send", "peek", "popf", "popb", "det", "pushb", "drop", "wfwd"], depth=7, nt=2),
    "ucode_t": g(8, 3, "With(One(4), {T(Pair), F(<<Leaf, Leaf>>)})", UCODE + ["pushb", "popf", "det", "w", "clone", "rebuild", "aband", "into", "walk", "drop"], depth=3),
    "reent_t": g(8, 4, "{<<x>> : x \\in {T(<<Leaf, Pair, Leaf>>), T(<<<<Pair, Leaf>>, Leaf>>), T(<<Pair, <<Leaf, Pair>>>>), T(<<<<<<Pair>>>>>>)}}", USES + ["yback", "rc", "hfront", "hback", "hparent", "down", "up", "popf", "drop"], depth=7),
    "ccmp_t":  cases("Compare", "Laws PrintCase", Labels="{1, 2}", NaN="9", TreeN="5", ForestN="4"),
    "visits_t": cases("Rebuild", "InBlock Exact Built PrintCase", Inputs="Small(2, 3, 4) \\cup Small(3, 2, 4) \\cup Almost(6)", N="7"),
    # random long behaviours
    "r_own":   sim(40, 60, 8, 4, "NoStart", OWNOPS),
    "r_mit":   sim(40, 60, 8, 4, "With(One(4), TreePartners)", MIT + ["pushb", "popf", "det", "insn", "new"]),
    "r_walk":  sim(40, 60, 7, 3, "One(6)", WALK + ["unwalk", "popf", "pushb", "insn", "det", "aband"]),
    "r_oper":  sim(20, 60, 8, 4, "NoStart", OPER + ["new", "newf", "drop", "popf", "popb", "pushf", "aband", "w", "clone", "clonef"]),
    "r_rc":    sim(40, 60, 7, 5, "With(OneTree(4), TreePartners)", RCOPS + ["new", "drop", "pushf", "pushb", "popf", "popb", "prep", "app", "insp", "insn", "det", "w", "bfs", "clone"]),
    "r_all":   sim(20, 60, 8, 5, "NoStart", OWNOPS + OPER + RCOPS + ["walk", "wfwd", "wnext", "wsib", "wch", "unwalk"]),
}
