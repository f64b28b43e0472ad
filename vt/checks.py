"""Which families decide which property, and how a run of them counts."""
ALL = None     # every class of difference counts
BAD = ["panic", "crash", "hang", "obs"]
from vt.families import EDIT, SIB, MIT, WRITE, OPER, WALK, MOVE, USES
LISTED = MOVE + SIB
def r(fam, own=ALL, **kw): return dict(fam=fam, own=own, **kw)
def rs(fams, own=ALL, **kw): return [r(f, own, **kw) for f in fams.split()]
COUNT = ["count", "n"] + BAD
NAV = ["nav", "res", "shape", "kind", "n"] + BAD
MEM = ["drop", "mem", "leak"] + BAD
UCODE = ["xclone", "xclonef", "xcopyb", "xcopybf", "xrebuild", "xfmt", "xhash", "xcmp", "xsub", "xdiv", "xneg", "xdivu", "xdrop", "xext"]
COPYOPS = ["clone", "clonef", "copyb", "copybf", "rebuild"]
STEP = ["walk", "unwalk", "wfwd", "wnext"]
RC = "rclife rcedit rcjoin weak weak_i iterrc b_rc h_rc"
READ = "edit sib own edit_s mit oper2 copy_s rcjoin conv b_edit h_edit b_own h_own b_mit b_rc"     # their states are also read in other ways, see reread.rs

def pr(names, own=ALL, **kw): return [dict(prog=n, own=own, **kw) for n in names.split()]     # vt/programs.py

def checks(thorough):
    t = thorough
    def T(fams, own=ALL, **kw): return rs(fams, own, **kw) if t else []
    def M(fams, n, own=MEM, **kw): return [r(f, own, miri=n * (10 if t else 1), **kw) for f in fams.split()]
    c = {
        "P01": rs("edit edit_s") + rs("b_edit h_edit b_own h_own") + T("r_own edit_t") + pr("p_edit p_own", only=EDIT),
        "P02": rs("sib sib_s") + rs("rcedit", only=["det", "insp", "insn"]) + rs("b_edit h_edit") + rs("b_rc h_rc", only=["det", "insp", "insn"]) + T("r_own sib_t") + pr("p_edit p_rc", only=SIB),
        "P03": rs("edit sib own edit_s sib_s own_s copy_s bfs_e oper mit rcjoin", COUNT) + rs("copy_s", COUNT, recipes="T") + rs("b_edit h_edit b_own h_own b_oper h_oper b_mit h_mit b_rc h_rc", COUNT) + T("r_own r_all r_rc rcedit_t edit_t sib_t", COUNT) + pr("p_edit p_own p_rc", COUNT),
        "P04": rs("edit sib own edit_s sib_s own_s copy_s bfs_e mit rcjoin", NAV) + rs(READ, ["iter"]) + rs("copy_s", NAV, recipes="T") + rs("b_edit h_edit b_own h_own b_mit h_mit b_rc h_rc b_walk h_walk", NAV) + T("r_own r_all r_rc rcedit_t edit_t sib_t", NAV) + pr("p_edit p_own p_rc", ["nav", "iter"]),
        "P05": rs("mit") + rs(READ, ["itermut"]) + rs("b_mit h_mit") + T("r_mit mit_t") + pr("p_edit", only=MIT),
        "P06": rs("edit own own_s copy oper2 mit rclife weak iterrc conv borrow walk_c", MEM) + rs("b_own h_own b_rc h_rc b_mit h_mit b_oper h_oper", MEM) + T("r_own r_mit r_walk r_oper r_rc r_all own_t rcedit_t", MEM)
               + M("own mit rclife weak iterrc conv oper2 copy", 32, reread=True) + pr("p_all p_brw", MEM) + pr("p_mini", ["mem", "leak", "crash"], miri=True),
        "P07": rs("own own_s") + rs(READ, ["intoiter"]) + rs("b_own h_own", only=["aband", "into", "inext", "drop"]) + T("r_own own_t") + pr("p_edit", only=["aband", "into", "inext", "drop"]),
        "P08": rs("bfs_s bfs_e") + rs("b_own h_own", only=["bfs", "bfsc", "intobfs"]) + rs(READ, ["bfs"]) + T("r_own bfs_t") + pr("p_own p_all", only=["bfs", "bfsc", "intobfs"]) + pr("p_own p_rc", ["bfs"]),
        "P09": rs("copy_s copy") + rs("b_own h_own", only=COPYOPS) + rs(READ, ["copy"]) + T("r_own copy_t") + pr("p_own", only=COPYOPS) + pr("p_own p_rc", ["copy"]),
        "P10": rs("write_s write") + rs("mit", only=["mw", "mnext"]) + rs("b_own h_own", only=["w", "wb", "wbc", "wi"]) + T("r_own write_t") + pr("p_own", only=WRITE + ["mw"]),
        "P11": rs("tuple", ["build"]) + rs("edit_s sib_s own_s copy_s write_s rclife conv", recipes="S,T", diff=True) + T("bfs_e oper2 rcedit borrow iterrc weak", recipes="S,T", diff=True),
        "P12": rs("tuple", ["calls"]),
        "P13": rs("oper oper2") + rs("b_oper h_oper") + T("r_oper oper_t") + pr("p_own", only=OPER),
        "P14": rs("cmp cmp_e", ["res", "panic", "crash", "hang"], only=["cmp"]) + rs("ccmp ccmp2", ["cmp"]) + rs("b_text h_text", ["res", "panic", "crash", "hang"], only=["cmp"]) + rs(READ, ["cmp"]) + T("ccmp_t", ["cmp"]) + pr("p_own p_all", only=["cmp"]) + pr("p_own", ["cmp"]),
        "P15": rs("text text_e", ["text", "crash", "hang"]) + rs("ccmp", ["text"]) + T("text_t", ["text", "crash", "hang"]) + rs("b_text h_text", ["text", "crash", "hang"]) + rs(READ, ["text"]) + T("ccmp_t", ["text"]) + pr("p_own p_all", ["text"]),
        "P16": rs("walk_s walk_c", only=STEP) + rs("b_walk h_walk", only=STEP) + rs(READ, ["cursor"]) + T("r_walk walk_t", only=STEP) + pr("p_walk", only=STEP) + pr("p_own", ["cursor"]),
        "P17": rs("walk_s walk_c") + rs("b_walk h_walk") + rs(READ, ["cursor"]) + T("r_walk walk_t") + pr("p_walk p_own", only=WALK + ["unwalk"]),
        "P18": rs("rclife rcedit weak iterrc") + rs(RC, ["crowd"]) + rs("b_rc h_rc") + T("r_rc rcedit_t rclife_t") + pr("p_rc p_all", only=["rc", "hclone", "hfront", "hback", "hparent", "drop", "popf", "popb", "det", "clone"]),
        "P19": rs("rcedit rcjoin") + rs("b_rc h_rc") + T("r_rc rcedit_t") + pr("p_rc", only=LISTED + ["ext"]),
        "P20": rs("weak weak_i") + rs(RC, ["crowd"]) + rs("b_rc h_rc", only=["down", "up"]) + T("r_rc weak_t") + pr("p_rc p_brw", only=["down", "up", "drop"]),
        "P21": rs("borrow") + rs("b_rc h_rc", only=["ref", "mut", "gw"]) + T("r_rc borrow_t") + pr("p_brw", only=["ref", "mut", "gw", "hfront", "hback", "hparent", "iterrc", "ext", "clone"] + LISTED),
        "P22": rs("iterrc") + rs(RC, ["iterrc"]) + rs("b_rc h_rc", only=["iterrc", "rnext", "rclone"]) + T("r_rc iterrc_t") + pr("p_rc p_brw", only=["iterrc", "rnext", "rclone"]),
        "P23": rs("conv walk_c") + rs("b_rc h_rc", only=["rc", "intotree"]) + rs("b_walk h_walk", only=["walk", "unwalk"]) + T("r_rc r_walk conv_t") + pr("p_rc p_all", only=["rc", "intotree", "walk", "unwalk"]),
        "P24": rs("edit sib own edit_s sib_s own_s copy write bfs_e oper2 walk_c rclife rcedit weak borrow iterrc conv", recipes="S,P,M", diff=True) + rs("reent b_edit h_edit b_own h_own b_mit h_mit b_walk h_walk b_rc h_rc b_oper h_oper", recipes="S,P,M", diff=True)
               + rs("mit conv copy_s rcjoin b_own", recipes="S,P,M", diff=True, reread=True) + rs("own copy_s bfs_e oper mit walk_c rclife weak borrow conv b_own b_rc", other="pad") + T("r_own r_mit r_rc r_all", recipes="S,P,M", diff=True) + T("r_own r_mit r_rc r_all", other="pad") + pr("p_edit p_own p_all p_rc", diff=True),
        "P25": rs("edit sib own edit_s own_s copy bfs_e write oper text_e cmp mit walk_c rclife rcedit weak borrow iterrc conv ccmp tuple ucode reent", other="nostd") + rs("b_edit h_edit b_own h_own b_mit h_mit b_walk h_walk b_rc h_rc b_oper h_oper", other="nostd") + rs("mit conv copy_s rcjoin", other="nostd", reread=True) + T("r_own r_mit r_rc r_all r_walk r_oper", other="nostd") + pr("p_own p_all p_rc p_walk", other="nostd"),
        "P26": rs("mt mt_rc") + [dict(traits=True)] + M("mt", 160, ALL, recipes="P,P,M", only=["peek", "popf", "det", "drop", "pushb", "send"]) + M("mt_rc", 80, ALL, recipes="P,P,M") + [dict(spec="BlockCount")] + T("mt_t"),
        "P27": rs("ucode_s ucode ucode_rc") + M("ucode_s ucode ucode_rc", 48, ALL, leaky=True, only=UCODE) + T("ucode_t"),
        "P28": rs("visits", ["visits"]) + rs("copy_s bfs_s", BAD, only=["rebuild", "clone", "clonef", "copyb", "copybf"]) + T("visits_t", ["visits"]),
        "P29": rs("reent reent_e") + M("reent reent_e", 48, ALL, leaky=True, only=USES) + T("reent_t"),
    }
    return c
