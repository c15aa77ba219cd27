"""writes the cfg files of the models and the trace specifications (XTrace)"""
import os
S = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec")
def cfg(name, consts, inv="Good", emit=True, view=True, extra="", spec="Spec"):
    with open("%s/%s.cfg" % (S, name), "w") as f:
        f.write("SPECIFICATION %s\n" % spec)
        if consts: f.write("CONSTANTS\n" + "".join("  %s = %s\n" % kv for kv in consts.items()))
        if view: f.write("VIEW %s\n" % (view if isinstance(view, str) else "View"))
        if emit: f.write("ACTION_CONSTRAINT Emit\n")
        f.write("INVARIANTS %s\nCHECK_DEADLOCK FALSE\n" % inv + extra)
def S_(s): return "{%s}" % ", ".join('"%s"' % x for x in s.split())
def trace(m, vars, ext="", init="", do=""):
    with open("%s/%sTrace.tla" % (S, m), "w") as f:
        f.write("""------------------------------ MODULE %sTrace ------------------------------
EXTENDS %s, %sTraceIO
VARIABLE i
TInit == HInit /\\ %si = 1
TNext == i <= Len(Trace) /\\ i' = i + 1 /\\ Do(Trace[i])%s
TSpec == TInit /\\ [][TNext]_<<%s, i>>
==============================================================================
""" % (m, m, ext, init, do, vars))
    with open("%s/%sTrace.cfg" % (S, m), "w") as f:
        f.write("SPECIFICATION TSpec\nPOSTCONDITION Reached\nCHECK_DEADLOCK FALSE\n")

trace("List", "lst, nid, pos, cnt, unit", "ListTotal, ", "TotInit /\\ ", " /\\ TotDo(Trace[i])")
def lc(name, lists, slots, data, ncell, ops, emit=True):
    cfg(name, dict(Lists=lists, Slots=slots, Data0=data, NCell=ncell, Ops=S_(ops)), "Good Shape LTypeOK", emit)
lc("ListC08", "{0}", "{}", "{1, 2}", 3, "del read set trunc")
lc("ListC08b", "{0, 1}", "{}", "{1}", 4, "del read trunc")
lc("ListC08x", "{0, 1}", "{}", "{1, 2}", 5, "del read set trunc", False)
lc("ListC09", "{0}", "{0, 1}", "{1}", 4, "pos trunc")
lc("ListC09b", "{0, 1}", "{0}", "{1, 2}", 3, "pos del")
lc("ListC09x", "{0, 1}", "{0, 1}", "{1, 2}", 4, "pos trunc del", False)
trace("Stack", "stk")
cfg("StackC12", dict(Stacks="{0, 1}", Data0="{0, 1, 2}", Depth=3))
cfg("StackC12x", dict(Stacks="{0, 1}", Data0="{0, 1, 2}", Depth=5), emit=False)
trace("SkipList", "sl")
def yc(name, lists, keys, ml, ops, emit=True):
    cfg(name, dict(Lists=lists, Keys=keys, MaxLevel=ml, Ops=S_(ops)), "Good Shape", emit)
yc("SkipC10", "{0}", "{0, 1, 2, 4}", 3, "find")
yc("SkipC10b", "{0, 1}", "{0, 2}", 2, "find del")
yc("SkipC10x", "{0}", "{0, 1, 2, 4, 6, 8}", 3, "find", False)
yc("SkipC11", "{0}", "{0, 2, 4}", 2, "it")
yc("SkipC11x", "{0}", "{0, 1, 2, 4, 6}", 2, "it", False)
trace("Memory", "om, oc, oid, sm")
def mc(name, objs, strs, nobj, nstr, fills, texts, maxlen, emit=True):
    cfg(name, dict(Objs=objs, Strs=strs, NObj=nobj, NStr=nstr, Fills=fills, TextIx=texts, MaxLen=maxlen, MaxReuse=2), "Good Shape", emit)
mc("MemC13", "{0}", "{}", 3, 0, "{1, 2}", "{}", 0)
mc("MemC13b", "{0, 1}", "{}", 2, 0, "{1}", "{}", 0)
mc("MemC13x", "{0, 1}", "{}", 5, 0, "{1, 2}", "{}", 0, False)
mc("MemC14", "{}", "{0}", 0, 2, "{}", "{1, 2, 3, 4}", 4)
mc("MemC14b", "{}", "{0, 1}", 0, 1, "{}", "{1, 2, 5}", 3)
mc("MemC14x", "{}", "{0, 1}", 0, 3, "{}", "{1, 2, 3, 4}", 4, False)
trace("StrPool", "pl")
def pc(name, pools, strs, prefixes, nptr, maxgrow, maxu, modes, ops, emit=True):
    cfg(name, dict(Pools=pools, Strs0=S_(strs), Prefixes=S_(prefixes), NPtr=nptr, MaxGrow=maxgrow, MaxU=maxu, Modes=modes, Ops=S_(ops)), "Good Shape", emit)
pc("PoolC15", "{0}", "61 6161 62", "", 3, 2, 0, "{0, 1, 2, 3}", "")
pc("PoolC15b", "{0, 1}", "61 6161", "", 2, 2, 0, "{0}", "")
pc("PoolC15r", "{0}", "6b 6b6b", "", 2, 2, 0, "{0}", "ro")
pc("PoolC15x", "{0, 1}", "61 6161 62", "", 5, 4, 0, "{0, 3}", "", False)
pc("PoolC16", "{}", "61 6131", "61", 3, 4, 3, "{}", "global")
pc("PoolC16x", "{0}", "61 6131 6132", "61 6161", 5, 4, 4, "{0}", "global", False)
trace("Arg", "al")
def ac(name, lists, strs, maxn, maxgrow, emit=True):
    cfg(name, dict(Lists=lists, Strs0=S_(strs), MaxN=maxn, MaxGrow=maxgrow), "Good Shape", emit)
ac("ArgC17", "{0}", "61 6263", 4, 4)
ac("ArgC17b", "{0, 1}", "61", 2, 2)
ac("ArgC17x", "{0, 1}", "61 6263", 3, 4, False)
cfg("ArgifyC18", dict(Alphabet="{32, 34, 39, 92, 97}", MaxLen=6), "Good Plain", False, False)
cfg("ArgifyC18x", dict(Alphabet="{32, 9, 34, 39, 92, 97}", MaxLen=7), "Good Plain", False, False)
trace("Flags", "fl")
def fc(name, w, flags, emit=True): cfg(name, dict(W='"%s"' % w, Flags0=flags, Ops="{}"), "Good Shape", emit)
fc("FlagsC19", "d", "{0, 229, 300}")
fc("FlagsC19b", "d", "{100, 200, 329}")
fc("FlagsC19x", "d", "{0, 29, 129, 200, 329}", False)
fc("FlagsC20", "f", "{0, 229, 300}")
fc("FlagsC20b", "f", "{100, 200, 329}")
fc("FlagsC20x", "f", "{0, 29, 129, 200, 329}", False)
trace("Num", "st")
def nc(name, what, bound, alphabet="{}"): cfg(name, dict(What='"%s"' % what, Bound=bound, Alphabet=alphabet), "Good", False, False)
def rng_(a): return "{%s}" % ", ".join(str(v) for v in a)
B = sorted({max(0, b ** k + d) for b in (26, 64) for k in range(0, 7) for d in (-1, 0, 1, 25) if b ** k + d < 2 ** 31} | {2 ** 31 - 1, 12345678, 456975, 1000000})
nc("NumC31", "b26", rng_(B)); nc("NumC31b", "b64", rng_(B))
nc("NumC32", "bits", rng_(sorted(set(range(0, 65536, 7)) | {2 ** k - 1 for k in range(17)} | {2 ** k for k in range(16)})))
nc("NumC33", "prime", rng_(range(0, 2500)))
nc("NumC34", "soundex", "{1, 2, 3, 4, 5, 6}", "{65, 66, 102, 67, 72, 108, 46}")
trace("Timer", "clk, tm")
def tc(name, names, clocks, emit=True): cfg(name, dict(Names=S_(names), ClockIx=clocks), "Good Shape", emit)
tc("TimerC29", "a", "{1, 2, 3}")
tc("TimerC29b", "a b", "{1, 4}")
tc("TimerC29x", "a b", "{1, 2, 3}", False)
trace("Source", "src, conc")
def sc(name, lines, files, incr, nline, ntok, lens, ops, emit=True):
    cfg(name, dict(LineIx=lines, Files=files, Incr=incr, NLine=nline, NTok=ntok, Lens=lens, Ops=S_(ops)), "Good Shape", emit)
sc("SourceC27", "{1}", 2, 2, 2, 1, "{1}", "place")
sc("SourceC27b", "{1, 2, 3}", 1, 2, 5, 1, "{2}", "acc")
sc("SourceC27x", "{1, 2}", 2, 2, 2, 2, "{0, 1}", "place acc", False)
cfg("ConcreteC28", dict(Alphabet="{96, 39, 84, 95, 97}", MaxLen=6), "Good Inside", False, False)
cfg("ConcreteC28x", dict(Alphabet="{96, 39, 84, 95, 97}", MaxLen=8), "Good Inside", False, False)
trace("Log", "lg")
def gc(name, pats, times, ops, emit=True):
    cfg(name, dict(PatIx=pats, TimeIx=times, Ops=S_(ops)), "Good Shape", emit)
gc("LogC24", "{1}", "{}", "stream sys opt")
gc("LogC24b", "{1, 2}", "{1, 3}", "stream")
gc("LogC24x", "{1, 2, 3}", "{1, 2, 3, 6}", "stream sys opt", False)
gc("LogC25", "{1, 2}", "{1, 2, 3}", "")
gc("LogC25b", "{1, 3}", "{1, 6, 7, 8, 9}", "")
gc("LogC25x", "{1, 2, 3}", "{1, 2, 3, 4, 5, 6, 7, 8, 9}", "", False)
cfg("ErrorC26", {})
trace("Proc", "pt, own, kid, flow")
def rc(name, nkid, modes, ops, emit=True, closed="{}"):
    cfg(name, dict(NKid=nkid, Modes=S_(modes), Ops=S_(ops), Closed=closed), "Good Shape", emit)
rc("ProcC21", 2, "cc- -co uc-", "")
rc("ProcC21b", 1, "ccc -nc znz uu- -uu uuu cuu --o", "file")
rc("ProcC21c", 3, "-c- uc- uu-", "")
rc("ProcC21x", 3, "cc- uc- uco -c-", "brk file", False)
rc("ProcC21d", 2, "-c- -uu --u ucu -cu -uc", "std")
for m in range(1, 8): rc("ProcC21s%d" % m, 1, "ccc cc- --c -nc znz n-u -u- uu- -cu --o c-o", "std file", True, "{" + ", ".join(str(b) for b in range(3) if m >> b & 1) + "}")
rc("ProcC21l", 2, "-c- uc-", "limit")
rc("ProcC22l", 2, "-c-", "shut limit")
rc("ProcC22", 2, "c-- -cc", "sig shut")
rc("ProcC22b", 2, "-c- --- u--", "shut")
rc("ProcC22x", 3, "cc- u-- -c-", "sig shut", False)
trace("Filter", "pt")
cfg("FilterC23", dict(N=2, M=2, Faults=2, Chunk=2), "Good Shape")
cfg("FilterC23b", dict(N=3, M=3, Faults=1, Chunk=3), "Good Shape")
cfg("FilterC23x", dict(N=4, M=4, Faults=3, Chunk=4), "Good Shape", False)
def net(name, n, p, ci, co, faults):
    with open("%s/%s.cfg" % (S, name), "w") as f:
        f.write("SPECIFICATION Spec\nCONSTANTS\n  N = %d\n  P = %d\n  Cin = %d\n  Cout = %d\n  Faults = %d\n  Kinds = {\"cat\", \"dup\", \"pre\", \"mix\", \"post\", \"sink\"}\n"
                "INVARIANTS InOrder Complete NoLoss\nPROPERTY Ends\nCHECK_DEADLOCK TRUE\n" % (n, p, ci, co, faults))
net("FilterNetC23", 4, 3, 2, 2, 2)
net("FilterNetC23b", 0, 3, 1, 1, 2)
net("FilterNetC23x", 7, 6, 3, 2, 4)
trace("Maa", "hvars")
def lf(name, ops, cycles, emit=True): cfg(name, dict(Ops=S_(ops), Cycles=cycles), "Good Shape", emit)
lf("LifeC30", "str prs", 2)
lf("LifeC30b", "dbg flg", 2)
lf("LifeC30c", "tim list dbg", 2)
lf("LifeC30x", "str prs dbg flg tim list", 3, False)
def kc(name, ops, keys, n, emit=True): cfg(name, dict(Ops=S_(ops), Keys=keys, N=n), "Good Formula", emit)
kc("LeakC35", "hash set stack", "{0, 2}", 2)
kc("LeakC35b", "list", "{}", 3)
kc("LeakC35c", "skip whole", "{0, 2}", 2)
kc("LeakC35x", "hash stack list skip whole", "{0, 2}", 3, False)
trace("Handles", "obj")
def hc(name, kinds, slots, funs, emit=True): cfg(name, dict(Kinds=S_(kinds), Slots=slots, Funs=S_(funs)), "Good Shape", emit)
hc("HandlesC36", "hash set list skip objs strs args other", "{0}", "hash list skip objs strs args set")
hc("HandlesC36b", "set hash skip", "{0, 1}", "set")
hc("HandlesC36x", "hash set list skip objs strs args other", "{0, 1}", "hash list skip objs strs args set", False)
trace("Faults", "ran")
def xc(name, sizes, fams, emit=True): cfg(name, dict(Sizes=sizes, Families=S_(fams)), "Good Shape", emit)
xc("FaultsC37", "{2}", "hash list mem str sys")
xc("FaultsC37b", "{0}", "fds")
xc("FaultsC37x", "{0, 1, 2, 3, 6, 15, 36, 87}", "hash list mem str sys fds", False)
trace("Scale", "hvars")
def zc(name, kinds, mx, texts, emit=True): cfg(name, dict(Kinds=S_(kinds), Units=mx, Texts=S_(texts)), "Good Shape", emit)
zc("ScaleC38", "hash set list skip stack objs strs pool glob args src prs", 2, "")
zc("ScaleC38t", "", 0, "xstrdup str_find str_findn str_copy str_copyn str_grow str_pool_find str_pool_copyn str_pool_grow str_unique mem_strcpy mem_strncpy mem_grow arg_add arg_addn arg_grow arg_argify arg_quoted hsh_insert src_line src_cpp_line err_set_program_name prs_register_concrete txt_soundex")
zc("ScaleC38x", "hash set list skip stack objs strs pool glob args src prs", 5, "", False)

trace("Cost", "hvars")
USES = "argify argvec timer flags symbol source stats print walk loops member truncate cutoff emptied union equal poolstr string growth message number soundex name memory"
def kk(name, kinds, units, uses, emit=True, u=60, **bad):
    cfg(name, dict(dict(Kinds=S_(kinds), U=u, Units=units, Uses=S_(uses), Growing="TRUE", Levels="TRUE", Reuse="TRUE"), **bad), "Good Shape", emit)
kk("CostC40", "hash hstr hptr set sstr sptr pool glob skip list stack objs strs args", 3, USES)
kk("CostC40x", "hash set pool skip list objs", 8, "", False, 300)

# what surrounds the library
def ac(name, pats, times, ops, emit=True):
    cfg(name, dict(PatIx=pats, TimeIx=times, Ops=S_(ops)), "Good Looks", emit, spec="ASpec", view="AView")
ac("AroundLogC39", "{1, 2}", "{1, 3}", "stream")
ac("AroundLogC39b", "{1}", "{}", "stream sys opt")
ac("AroundLogC39x", "{1, 2, 3}", "{1, 2, 3, 6}", "stream sys", False)
def pc(name, nkid, modes, ops, emit=True):
    cfg(name, dict(NKid=nkid, Modes=S_(modes), Ops=S_(ops), Closed="{}"), "Good Looks", emit, spec="ASpec")
pc("AroundProcC39", 1, "cc- --- -co uc- ccc", "file shut")
pc("AroundProcC39b", 2, "-c- u--", "sig")
pc("AroundProcC39x", 3, "cc- uc- -c-", "shut", False)

# what is lent to the library
def lt(name, kinds, reads, m, together, emit=True, **bad):
    cfg(name, dict(dict(Kinds=S_(kinds), Reads=S_(reads), Max1=m, Together=together, NoCopy="{}", Writes="{}", Peeks="{}"), **bad), "Good Shape", emit)
LENT = "strs strn pool pooln glob globn grown arg argn argify dflag flag timer line file cpp symbol concrete hash hstr set sstr skip progname hptr hdatum sptr list stack skipd sarg"
lt("LentC41", LENT, "soundex b26 b64 hashes dbgset flgset loginfo logerror warning srcerror srcmsg parse cppline exists argify argquote spawn filter concrete retrieve member find facility timers bits", 3, 1)
lt("LentC41x", LENT, "soundex", 4, 2, False)
with open("%s/LentTrace.cfg" % S, "w") as f: f.write("SPECIFICATION TSpec\nPOSTCONDITION Reached\nCHECK_DEADLOCK FALSE\n")
