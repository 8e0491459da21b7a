"""Meaning of library functions the analysed code calls (core, alloc, FRAME storage)."""
import functools
import re

from .terms import *
from . import terms
from .facts import short_name, short_ty
from . import flow as F

MODELS = {}


CODEC_OPAQUE = [False]  # leave the encoding and decoding of parts as calls


def model(*names):
    def d(f):
        for n in names:
            MODELS[n] = f
        return f

    return d


def V(fl, st, x):
    return under(fl.deep(st, x), st.pc)


# --- identities -------------------------------------------------------------------------
@model("Clone::clone", "ToOwned::to_owned", "Option::cloned", "Option::copied", "Borrow::borrow", "ToString::to_string",
       "slice::to_vec", "Vec::as_slice", "BoundedVec::into_inner", "BoundedVec::to_vec", "BoundedVec::as_slice", "Box::new", "Cow::into_owned",
       "Into::into", "From::from", "AsRef::as_ref", "Vec::into_boxed_slice", "slice::into_vec",
       "UniqueSaturatedInto::unique_saturated_into", "SaturatedConversion::saturated_into", "SaturatedConversion::saturated_from",
       "UniqueSaturatedFrom::unique_saturated_from", "IntoStr::into", "String::as_bytes", "str::as_bytes", "str::as_ref")
def ident(fl, name, fj, args, aty, dty, st, sp):
    if name in ("Into::into", "From::from"):
        inst = fj.get("inst")
        if "DispatchError" in dty.split("<")[0] or "DispatchErrorWithPostInfo" in dty:
            return st, args[0]
        if inst:
            f = fl.fx.fns.get(inst)
            if f is not None and not f["expn"] and f["crate"] not in ("core", "alloc", "std"):
                return None
            if f is not None and f["crate"] == "core" and "convert::" in f["path"] and name == "Into::into":
                # blanket Into -> From: let the From impl decide
                return None
    if len(args) != 1:
        return None
    if name == "Clone::clone" and custom(fl, fj):
        return None
    v = args[0]
    if "aturated" in name and dty in ("u8", "u16", "i8", "i16"):
        return st, liftmap(V(fl, st, v), lambda x: x if x.op == "int" and x.a[0] < 128 else mk("satcast", dty, x))
    if name in ("Clone::clone", "ToOwned::to_owned", "Option::cloned", "Option::copied", "slice::to_vec", "BoundedVec::to_vec"):
        if v.op == "ref" or v.op == "phi":
            v = V(fl, st, v)
        if name.startswith("Option::"):
            v = V(fl, st, v)
    return st, v


@model("BoundedVec::truncate_from")
def truncate_from(fl, name, fj, args, aty, dty, st, sp):
    v = V(fl, st, args[0])
    if v.op == "call" and v.a[0] == "push" and F.is_empty_coll(v.a[1]):
        v = mk("array", v.a[2])
    if v.op == "array" and len(v.a) <= 1:
        return st, v
    return st, mk("truncated", v)


@model("TryFrom::try_from", "TryInto::try_into", "BoundedVec::try_from")
def bounded_from(fl, name, fj, args, aty, dty, st, sp):
    """a list as a bounded list: itself when it fits"""
    if len(args) != 1 or not re.match(r"[\w:]*Result<(&\S* ?(mut )?)?[\w:]*(BoundedVec|BoundedSlice|BoundedBTreeMap|BoundedBTreeSet)<", dty):
        return None
    v = V(fl, st, args[0])
    g = atom(mk("fits", "bounded", v))
    return st, mkphi([(g, ok(v)), (B.NOT(g), err(v))])


@model("Deref::deref", "DerefMut::deref_mut", "AsMut::as_mut", "BorrowMut::borrow_mut", "Vec::as_mut_slice", "Box::as_mut", "Box::as_ref",
       "BoundedVec::as_mut", "AsRef::as_ref", "Vec::as_ref", "Iterator::by_ref", "Pin::as_mut")
def deref(fl, name, fj, args, aty, dty, st, sp):
    return st, args[0]


@model("hint::black_box", "Defensive::defensive", "DefensiveOption::defensive", "Defensive::defensive_proof")
def ident1(fl, name, fj, args, aty, dty, st, sp):
    return st, args[0]


@model("Box::new_uninit")
def boxnew(fl, name, fj, args, aty, dty, st, sp):
    return st, mk("boxuninit", F.LoopCtx.n, len(fl.effects), fl.calls)


# `vec![a, b]` lowers to a boxed array written in place
@model("boxed::box_assume_init_into_vec_unsafe")
def boxvec(fl, name, fj, args, aty, dty, st, sp):
    x = V(fl, st, args[0])
    c = st.mem.get(("C", args[0].id))
    x = c if c is not None else x
    for _ in range(12):
        if x.op == "upd":
            x = x.a[2]
        elif x.op == "adt" and len(x.a) == 4:
            x = x.a[3]
        else:
            break
    return st, x


@model("slice::into_vec")
def into_vec(fl, name, fj, args, aty, dty, st, sp):
    return st, V(fl, st, args[0])


# --- arithmetic --------------------------------------------------------------------------
AR = {
    "saturating_add": "satadd", "saturating_sub": "satsub", "saturating_mul": "satmul", "checked_add": "cadd", "checked_sub": "csub",
    "checked_mul": "cmul", "checked_div": "cdiv", "checked_rem": "crem", "wrapping_add": "add", "wrapping_sub": "sub", "wrapping_mul": "mul",
    "saturating_pow": "satpow", "pow": "pow", "saturating_div": "div", "add": "add", "sub": "sub", "mul": "mul", "div": "div", "rem": "rem",
    "shl": "shl", "shr": "shr", "bitand": "and", "bitor": "or", "bitxor": "xor", "ensure_add": "eadd", "ensure_sub": "esub",
    "ensure_mul": "emul", "ensure_div": "ediv", "defensive_saturating_add": "satadd", "defensive_saturating_sub": "satsub",
    "abs_diff": "absdiff",
}
ARTRAITS = ("Saturating", "CheckedAdd", "CheckedSub", "CheckedMul", "CheckedDiv", "CheckedRem", "Add", "Sub", "Mul", "Div", "Rem", "Shl", "Shr",
            "BitAnd", "BitOr", "BitXor", "EnsureAdd", "EnsureSub", "EnsureMul", "EnsureDiv", "u8", "u16", "u32", "u64", "u128", "usize", "i32",
            "i64", "i128", "DefensiveSaturating", "EnsureOp", "Weight", "Perbill", "Perquintill", "FixedU128")


def weigh(op, a, b):
    """arithmetic on weights, which saturates: sums in one order, without zeros"""
    if op in ("add", "satadd"):
        f = [x for x in (a, b) if x.op != "wzero"]
        f = [y for x in f for y in (x.a if x.op == "wsatadd" else (x,))]
        if any(x.op == "phi" for x in f):
            i = [x.op for x in f].index("phi")
            return liftmap(f[i], lambda x: functools.reduce(lambda p, q: weigh(op, p, q), [x] + f[:i] + f[i + 1:]))
        return f[0] if len(f) == 1 else mk("wsatadd", *sorted(f, key=lambda t: t.id)) if f else mk("wzero")
    if op in ("mul", "satmul") and "wzero" in (a.op, b.op):
        return mk("wzero")
    return mk("w" + op, a, b)


@model("RuntimeDbWeight::reads_writes")
def reads_writes(fl, name, fj, args, aty, dty, st, sp):
    d, r, w = [V(fl, st, x) for x in args]
    return st, weigh("add", mk("call", "RuntimeDbWeight::reads", d, r), mk("call", "RuntimeDbWeight::writes", d, w))


def arith_model(fl, name, fj, args, aty, dty, st, sp):
    inst = fj.get("inst")
    if inst is not None:
        f = fl.fx.fns.get(inst)
        if f is not None and f["crate"] not in ("core", "alloc", "std") and not f["expn"]:
            return None
    m = name.split("::")[-1]
    a, b = V(fl, st, args[0]), V(fl, st, args[1])
    op = AR[m]
    if name.startswith("Weight::") or norm_path(fj.get("self") or "").endswith("::Weight"):
        return st, weigh(op, a, b)
    divtrap(fl, st, op, m, b, sp)
    if op in ("satpow", "pow") and a.op == b.op == "int" and 0 <= b.a[0] < 200:
        w = F.WIDTH.get(dty if isinstance(dty, str) else "", 8)
        if abs(a.a[0] ** b.a[0]) < 1 << w - 1:
            return st, int_(a.a[0] ** b.a[0])
    if op in ("cadd", "cmul") and a.op == b.op == "int" and min(a.a[0], b.a[0]) >= 0:
        v = a.a[0] + b.a[0] if op == "cadd" else a.a[0] * b.a[0]
        if any(str(dty).endswith(f"<{t}>") and v < 1 << w - 1 for t, w in F.WIDTH.items()):
            return st, some(int_(v))
    return st, F.liftarith(op, a, b)


def divtrap(fl, st, op, m, b, sp):
    if op in ("div", "rem"):
        for g, x in alts(b):
            if x.op != "const":
                fl.panic(st, B.AND(g, eq(x, int_(0))), "assert division by zero", sp)


for _t in ARTRAITS:
    for _m in AR:
        MODELS[f"{_t}::{_m}"] = arith_model

ASG = {"add_assign": "add", "sub_assign": "sub", "mul_assign": "mul", "div_assign": "div", "rem_assign": "rem", "saturating_accrue": "satadd",
       "saturating_reduce": "satsub", "defensive_saturating_accrue": "satadd", "defensive_saturating_reduce": "satsub", "saturating_inc": "satadd",
       "saturating_dec": "satsub", "ensure_add_assign": "add", "ensure_sub_assign": "sub", "bitor_assign": "or", "bitand_assign": "and",
       "shl_assign": "shl", "shr_assign": "shr"}


def assign_model(fl, name, fj, args, aty, dty, st, sp):
    m = name.split("::")[-1]
    st = st.copy()
    a = V(fl, st, args[0])
    b = V(fl, st, args[1]) if len(args) > 1 else int_(1)
    if name.startswith("Weight::") or norm_path(fj.get("self") or "").endswith("::Weight"):
        nv = weigh(ASG[m], a, b)
    else:
        divtrap(fl, st, ASG[m], m, b, sp)
        nv = F.liftarith(ASG[m], a, b)
    fl.write_ref(st, args[0], nv)
    return st, UNIT


for _m in ASG:
    MODELS["*::" + _m] = assign_model


@model("*::is_zero")
def is_zero(fl, name, fj, args, aty, dty, st, sp):
    return st, boolt(eq(V(fl, st, args[0]), int_(0)))


@model("*::zero")
def zero(fl, name, fj, args, aty, dty, st, sp):
    if args:
        return None
    if name.startswith("Weight"):
        return st, mk("wzero")
    return st, int_(0)


@model("*::one")
def one(fl, name, fj, args, aty, dty, st, sp):
    if args:
        return None
    if any(x in (fj.get("self") or fj.get("path")) for x in ("Fixed", "Per")):
        return st, mk("oneof", short_ty(fj.get("self", "")))
    return st, int_(1)


@model("Bounded::max_value", "num::max_value", "u32::max_value", "u64::max_value", "u128::max_value")
def maxv(fl, name, fj, args, aty, dty, st, sp):
    return st, mk("maxvalue", dty if re.fullmatch(r"[iu](8|16|32|64|128|size)", dty) else "")


@model("Bounded::min_value")
def minv(fl, name, fj, args, aty, dty, st, sp):
    return st, int_(0)


@model("Ord::max", "cmp::max", "Weight::max")
def omax(fl, name, fj, args, aty, dty, st, sp):
    a, b = V(fl, st, args[0]), V(fl, st, args[1])
    return st, F.liftarith("max", a, b)


@model("Ord::min", "cmp::min", "Weight::min")
def omin(fl, name, fj, args, aty, dty, st, sp):
    a, b = V(fl, st, args[0]), V(fl, st, args[1])
    return st, F.liftarith("min", a, b)


def custom(fl, fj):
    """a hand-written (not derived) impl in the analysed crates"""
    f = fl.fx.fns.get(fj.get("inst") or "")
    return f is not None and f["crate"] not in ("core", "alloc", "std") and not f["expn"]


@model("PartialEq::eq", "PartialEq::ne", "PartialOrd::lt", "PartialOrd::le", "PartialOrd::gt", "PartialOrd::ge", "Ord::cmp",
       "PartialOrd::partial_cmp")
def compare(fl, name, fj, args, aty, dty, st, sp):
    m = name.split("::")[-1]
    if custom(fl, fj):
        return None
    a, b = V(fl, st, args[0]), V(fl, st, args[1])
    if m == "eq":
        return st, boolt(eq(a, b))
    if m == "ne":
        return st, boolt(B.NOT(eq(a, b)))
    if m == "lt":
        return st, boolt(lt(a, b))
    if m == "gt":
        return st, boolt(lt(b, a))
    if m == "le":
        return st, boolt(B.NOT(lt(b, a)))
    if m == "ge":
        return st, boolt(B.NOT(lt(a, b)))
    if m == "cmp":
        return st, F.cmp3(a, b)
    return st, some(F.cmp3(a, b))


@model("Ordering::reverse")
def ordrev(fl, name, fj, args, aty, dty, st, sp):
    v = V(fl, st, args[0])
    l, g = is_variant(v, "Less", VARIANTS[ORD]), is_variant(v, "Greater", VARIANTS[ORD])
    return st, mkphi([(l, adt(ORD, "Greater", (), ())), (g, adt(ORD, "Less", (), ())),
                      (B.AND(B.NOT(l), B.NOT(g)), adt(ORD, "Equal", (), ()))])


@model("Not::not")
def not_(fl, name, fj, args, aty, dty, st, sp):
    return st, boolt(B.NOT(as_bool(V(fl, st, args[0]))))


@model("Default::default")
def default(fl, name, fj, args, aty, dty, st, sp):
    if fj.get("inst") and custom(fl, fj):
        return None
    v = simple_default(fj.get("self", ""))
    if v is not None:
        return st, v
    s = fj.get("self", "")
    if fj.get("inst"):
        f = fl.fx.fns.get(fj["inst"])
        if f is not None and f["crate"] not in ("core", "alloc", "std"):
            return None
    return st, mk("call", "default<" + short_ty(s) + ">")


def default_of(fl, s, st, sp):
    """the default value of the type written s: built in, by the crate's own impl, or left open"""
    v = simple_default(s)
    if v is not None:
        return v
    idx = fl.fx.__dict__.get("_defaults")
    if idx is None:
        idx = fl.fx._defaults = {}
        for f in fl.fx.fns.values():
            if f["path"].endswith(" as std::default::Default>::default") and not f["nargs"]:
                idx.setdefault(f["locals"][0][0].split("<")[0].split("::")[-1], []).append(f)
    fs = idx.get(s.split("<")[0].split("::")[-1], [])
    same = [f for f in fs if f["locals"][0][0] == s]
    if same or len({f["path"] for f in fs}) == 1:
        f = (same or fs)[0]
        if len(fl.stack) < 40 and all(x[0] != f["key"] for x in fl.stack) and fl.inline(f):
            r = fl.run_fn(f, [], st, sp)
            if r is not None:
                return fl.deep(r[0], r[1])
    return mk("call", "default<" + short_ty(s) + ">")


def simple_default(s):
    """the default value of a type whose default is built in"""
    if s.endswith("::Balance") or s.endswith("::Number") or s in ("Balance", "BlockNumber", "u8", "u16", "u32", "u64", "u128", "usize", "i32", "i64"):
        return int_(0)
    if s == "bool":
        return boolt(0)
    if norm_path(s).startswith(OPT):
        return NONE
    if s.startswith("std::vec::Vec") or "BoundedVec<" in s.split("<")[0] + "<":
        return mk("call", "Vec::new")
    return None


# --- what a call declares: a weight, alone or in a tuple with a class or whether it pays ------------------------------------
@model("WeighData::weigh_data", "ClassifyDispatch::classify_dispatch", "PaysFee::pays_fee")
def declared(fl, name, fj, args, aty, dty, st, sp):
    want = {"WeighData": "", "ClassifyDispatch": "DispatchClass", "PaysFee": "Pays"}[name.split("::")[0]]
    other = adt("frame_support::dispatch::DispatchClass", "Normal", (), ()) if want == "DispatchClass" else adt("frame_support::dispatch::Pays", "Yes", (), ())

    def pick(v):
        if v.op != "tuple":
            return v if not want else other
        if not want:
            return v.a[0]
        for x in v.a[1:]:
            if all(y.op == "adt" for _, y in alts(x)) and alts(x)[0][1].a[0].split("::")[-1] == want:
                return x
        return other
    return st, liftmap(V(fl, st, args[0]), pick)


@model("Encode::encode_to")
def encode_to(fl, name, fj, args, aty, dty, st, sp):
    if CODEC_OPAQUE[0]:
        return fl.opaque_call(name, fj, args, aty, dty, st, sp)
    return None


@model("Encode::using_encoded")
def using_encoded(fl, name, fj, args, aty, dty, st, sp):
    """calls its closure once, on the encoding of the value"""
    if custom(fl, fj) or args[1].op not in ("closure", "fn"):
        return None
    return fl.call_value(args[1], [mk("call", "Encode::encode", fl.deep(st, args[0]))], st)


@model("Get::get")
def get(fl, name, fj, args, aty, dty, st, sp):
    s = fj.get("self", "")
    if fj.get("inst"):
        return None
    return st, mk("cfg", short_ty(s))


# --- references, mem ----------------------------------------------------------------------
@model("mem::replace")
def replace(fl, name, fj, args, aty, dty, st, sp):
    st = st.copy()
    old = fl.read_ref(st, args[0])
    fl.write_ref(st, args[0], args[1])
    return st, old


@model("mem::take")
def take(fl, name, fj, args, aty, dty, st, sp):
    st = st.copy()
    old = fl.read_ref(st, args[0])
    s = (fj.get("args") or [""])[0]
    fl.write_ref(st, args[0], default_of(fl, s, st, sp))
    return st, old


@model("mem::swap")
def swap(fl, name, fj, args, aty, dty, st, sp):
    st = st.copy()
    a, b = fl.read_ref(st, args[0]), fl.read_ref(st, args[1])
    fl.write_ref(st, args[0], b)
    fl.write_ref(st, args[1], a)
    return st, UNIT


@model("mem::drop", "drop::drop", "mem::forget")
def drop(fl, name, fj, args, aty, dty, st, sp):
    return st, UNIT


# --- callables ------------------------------------------------------------------------------
@model("FnOnce::call_once", "FnMut::call_mut", "Fn::call")
def callfn(fl, name, fj, args, aty, dty, st, sp):
    fv = args[0]
    tup = args[1] if len(args) > 1 else UNIT
    if tup.op == "ref":
        tup = fl.read_ref(st, tup)
    vals = list(tup.a) if tup.op == "tuple" else [tup]
    s2, r = fl.call_value(fv, vals, st)
    return s2, r


@model("storage::with_storage_layer", "transactional::with_storage_layer", "storage::with_transaction", "transactional::with_transaction",
       "storage::in_storage_layer")
def layer(fl, name, fj, args, aty, dty, st, sp):
    s0 = st.copy()
    s2, r = fl.call_value(args[0], [], st)
    if s2 is None:
        return s2, r
    ts = [t for _, t in alts(r)]
    if ts and all(t.op == "adt" and t.a[0].endswith("TransactionOutcome") for t in ts):
        c = B.OR(FALSE, *[g for g, t in alts(r) if t.a[1] == "Commit"])
        r = mkphi([(g, t.a[3]) for g, t in alts(r)])
    elif "Result" in norm_path(dty) or any(t.op == "adt" and t.a[0] == RES for t in ts):
        c = is_variant(r, "Ok", ["Ok", "Err"])
    else:
        return s2, r
    c = B.constrain(c, s2.pc) if s2.pc != FALSE else c
    if c != TRUE:
        # what was stored before an error is undone
        s2 = s2.copy()
        for k, v in list(s2.mem.items()):
            if k[0] == "S":
                old = s0.mem.get(k) or fl.default(k)
                if v is not old:
                    s2.mem[k] = mkphi([(c, v), (B.NOT(c), old)])
    return s2, r


# --- collections -----------------------------------------------------------------------------
@model("Vec::new", "Vec::with_capacity", "BoundedVec::new", "BoundedVec::with_bounded_capacity", "BTreeMap::new", "BTreeSet::new",
       "VecDeque::new", "String::new")
def newcoll(fl, name, fj, args, aty, dty, st, sp):
    return st, mk("call", "Vec::new")


@model("slice::len", "Vec::len", "BoundedVec::len", "VecDeque::len", "BTreeMap::len", "BTreeSet::len", "str::len", "String::len",
       "ExactSizeIterator::len", "slice::Iter::len")
def clen(fl, name, fj, args, aty, dty, st, sp):
    v = V(fl, st, args[0])
    if v.op in F.ITER_OPS:
        v = F.iter_src(v)
    n = F.length(v)
    if n.op != "int":
        fl.lenof[n.id] = v
    return st, n


@model("slice::is_empty", "Vec::is_empty", "BoundedVec::is_empty", "str::is_empty", "BTreeMap::is_empty", "BTreeSet::is_empty",
       "ExactSizeIterator::is_empty")
def isempty(fl, name, fj, args, aty, dty, st, sp):
    return st, boolt(eq(F.length(V(fl, st, args[0])), int_(0)))


@model("Index::index", "IndexMut::index_mut", "index::index", "index::index_mut", "slice::index", "slice::index_mut")
def indexm(fl, name, fj, args, aty, dty, st, sp):
    if custom(fl, fj):
        return None
    i = V(fl, st, args[1])
    if i.op == "adt" or i.op == "zst":
        # a range
        if "RangeFull" in (i.a[0] if i.a else ""):
            return st, args[0]
        k = i.a[0].split("::")[-1] if i.op == "adt" else ""
        ends = [V(fl, st, x) for x in i.a[3:]] if i.op == "adt" else []
        if k == "RangeTo":
            ends = [int_(0)] + ends
        elif k == "RangeToInclusive":
            ends = [int_(0), F.liftarith("add", ends[0], int_(1))]
        elif k == "RangeInclusive":
            ends = [ends[0], F.liftarith("add", ends[1], int_(1))]
        elif k not in ("Range", "RangeFrom"):
            return None
        rng = mk("range", *ends)
        traps(fl, st, "slice", [(x, True) for x in ends], V(fl, st, args[0]), sp)
        ps = [(g, mk("ref", c, p + (("rng", rng),))) for g, c, p in fl.targets(st, args[0])]
        return st, mkphi(ps)
    ps = [(g, mk("ref", c, p + (("idx", i),))) for g, c, p in fl.targets(st, args[0])]
    fl.panic(st, B.NOT(lt(i, F.length(V(fl, st, args[0])))), "index out of bounds", sp)
    return st, mkphi(ps)


@model("slice::get", "slice::get_mut", "BoundedVec::get_mut", "BoundedVec::get", "Vec::get")
def sget(fl, name, fj, args, aty, dty, st, sp):
    i = V(fl, st, args[1])
    v = V(fl, st, args[0])
    n = F.length(v)
    g = lt(i, n)
    if i.op == "adt":
        return None
    if n.op != "int":
        fl.lenof[n.id] = v
    ps = [(gg, mk("ref", c, p + (("idx", i),))) for gg, c, p in fl.targets(st, args[0])]
    return st, mkphi([(g, some(mkphi(ps))), (B.NOT(g), NONE)])


@model("slice::first", "slice::last", "slice::first_mut", "slice::last_mut", "BoundedVec::first", "BoundedVec::last")
def firstlast(fl, name, fj, args, aty, dty, st, sp):
    v = V(fl, st, args[0])
    g = B.NOT(eq(F.length(v), int_(0)))
    i = int_(0) if "first" in name else mk("lastix")
    ps = [(gg, mk("ref", c, p + (("idx", i),))) for gg, c, p in fl.targets(st, args[0])]
    return st, mkphi([(g, some(mkphi(ps))), (B.NOT(g), NONE)])


def mutcoll(fl, st, ref, nv):
    st = st.copy()
    fl.write_ref(st, ref, nv)
    return st


def m_of(name):
    return name.split("::")[-1]


def range_ends(r):
    """the ends of a range used as an index: (term, may equal the length)"""
    if r.op != "adt" or "RangeFull" in r.a[0]:
        return []
    f = dict(zip(r.a[2], r.a[3:])) if len(r.a) > 3 else {}
    return [(x, "Inclusive" not in r.a[0]) for x in (f.get("start"), f.get("end")) if x is not None]


def traps(fl, st, what, ends, v, sp, when=TRUE):
    """records that `what` panics when an index is not within v (or, if the flag says so, not at most its length)"""
    if fl.mute:
        return
    n = F.length(v)
    for i, incl in ends:
        for g, x in alts(i):
            if x.op == "min" and incl and n in x.a or incl and (x is n or x is int_(0)):
                continue
            fl.panic(st, B.AND(when, g, lt(n, x) if incl else B.NOT(lt(x, n))), f"assert {what} out of range", sp)
    if len(ends) == 2 and ends[0][1] and what not in ("insert", "swap"):
        fl.panic(st, lt(ends[1][0], ends[0][0]), f"assert {what} out of order", sp)


@model("Vec::push", "Vec::insert", "Vec::extend_from_slice", "Vec::append", "Vec::clear", "Vec::truncate", "slice::sort", "slice::sort_by",
       "slice::sort_by_key", "slice::reverse", "slice::sort_unstable", "slice::swap", "Vec::dedup", "BTreeMap::insert", "BTreeSet::insert",
       "Extend::extend", "slice::rotate_left", "Vec::resize", "BoundedVec::sort", "BoundedVec::sort_by_key", "VecDeque::push_back",
       "slice::copy_from_slice", "slice::fill", "BTreeMap::remove", "BTreeSet::remove", "BoundedVec::clear", "BoundedVec::truncate",
       "slice::sort_by_cached_key", "slice::sort_unstable_by_key", "slice::sort_unstable_by", "Vec::extend", "Vec::reserve",
       "BoundedVec::reverse", "BoundedVec::sort_by", "Vec::shrink_to_fit")
def mutate_vec(fl, name, fj, args, aty, dty, st, sp):
    m = name.split("::")[-1]
    old = fl.deep(st, fl.read_ref(st, args[0]))
    if m in ("reserve", "shrink_to_fit"):
        return st, UNIT
    vals = []
    for a in args[1:]:
        v = V(fl, st, a)
        if v.op in ("closure", "fn"):
            st, v = fl.lam(v, m, st)
        if v.op in F.ITER_OPS:
            st, v = collect_seq(fl, v, st)
        vals.append(v)
    if m.startswith("sort"):
        if m in ("sort", "sort_unstable"):
            nv = F.mksorted(old, mk("cb", 0), False)
        else:
            nv = F.mksorted(old, vals[0].a[0] if vals[0].op == "lam" else vals[0], m in ("sort_by", "sort_unstable_by"))
        return mutcoll(fl, st, args[0], nv), UNIT
    if m == "insert" and name.startswith("Vec") or m == "swap":
        traps(fl, st, m, [(v, m == "insert") for v in vals[:1 if m == "insert" else 2]], old, sp)
    if m == "reverse":
        return mutcoll(fl, st, args[0], F.mkrev(old)), UNIT
    if m == "truncate":
        return mutcoll(fl, st, args[0], F.mkslice(old, adt("RangeTo", None, ("end",), (vals[0],)))), UNIT
    if m == "clear":
        return mutcoll(fl, st, args[0], mk("call", "Vec::new")), UNIT
    if m in ("append", "extend", "extend_from_slice"):
        st = mutcoll(fl, st, args[0], F.concat(old, vals[0]))
        if m == "append":
            fl.write_ref(st, args[1], mk("call", "Vec::new"))
        return st, UNIT
    nv = mk("call", m, old, *vals)
    ret = mk("call", m + "!ret", old, *vals) if dty not in ("()", "") else UNIT
    return mutcoll(fl, st, args[0], nv), ret


@model("BoundedVec::try_push", "BoundedVec::try_insert", "BoundedVec::try_extend", "BoundedVec::try_append", "BoundedVec::force_push",
       "WeakBoundedVec::try_push")
def try_push(fl, name, fj, args, aty, dty, st, sp):
    m = name.split("::")[-1].replace("try_", "").replace("force_", "")
    old = fl.deep(st, fl.read_ref(st, args[0]))
    vals = []
    for a in args[1:]:
        v = V(fl, st, a)
        if v.op in F.ITER_OPS:
            st, v = collect_seq(fl, v, st)
        vals.append(v)
    b = bound_arg(aty[0]) if aty else None
    fl.pushb[old.id] = b
    g = fits(m, old, vals, b)
    if m == "insert" and len(vals) == 2:
        traps(fl, st, "try_insert", [(vals[0], True)], old, sp, g)
    nv = mk("call", m, old, *vals)
    st = mutcoll(fl, st, args[0], mkphi([(g, nv), (B.NOT(g), old)]))
    return st, mkphi([(g, ok(UNIT)), (B.NOT(g), err(mk("call", "full")))])


def fits(m, old, vals, bound):
    """when a bounded list takes one more element"""
    n = F.bound_term(bound)
    if m not in ("push", "insert") or n is None:
        return atom(mk("fits", m, old, *vals))
    return lt(F.length(old), n)


@model("BoundedVec::is_full", "BoundedVec::bound", "BoundedVec::remaining_capacity")
def capacity(fl, name, fj, args, aty, dty, st, sp):
    n = F.bound_term(bound_arg(fj.get("self") or ""))
    if n is None:
        return None
    if name.endswith("bound"):
        return st, n
    l = F.length(fl.deep(st, V(fl, st, args[0])))
    return st, boolt(B.NOT(lt(l, n))) if name.endswith("full") else F.liftarith("satsub", n, l)


@model("Vec::pop", "BoundedVec::pop", "VecDeque::pop_front", "VecDeque::pop_back")
def pop(fl, name, fj, args, aty, dty, st, sp):
    old = fl.deep(st, fl.read_ref(st, args[0]))
    m = name.split("::")[-1]
    g = B.NOT(eq(F.length(old), int_(0)))
    st = mutcoll(fl, st, args[0], mkphi([(g, mk("call", m, old)), (B.NOT(g), old)]))
    return st, mkphi([(g, some(F.index(old, mk("lastix") if m != "pop_front" else int_(0)))), (B.NOT(g), NONE)])


@model("Vec::remove", "Vec::swap_remove", "BoundedVec::remove", "BoundedVec::swap_remove")
def vremove(fl, name, fj, args, aty, dty, st, sp):
    old = fl.deep(st, fl.read_ref(st, args[0]))
    i = V(fl, st, args[1])
    m = name.split("::")[-1]
    traps(fl, st, m, [(i, False)], old, sp)
    if F.lastof(i, old).op == "lastix":
        st = mutcoll(fl, st, args[0], mk("call", "pop", old))
        return st, F.index(old, mk("lastix"))
    st = mutcoll(fl, st, args[0], mk("call", m, old, i))
    return st, F.index(old, i)


@model("Vec::drain", "BoundedVec::drain")
def vdrain(fl, name, fj, args, aty, dty, st, sp):
    old = fl.deep(st, fl.read_ref(st, args[0]))
    r = V(fl, st, args[1])
    traps(fl, st, m_of(name), range_ends(r), old, sp)
    full = (r.op == "adt" and "RangeFull" in r.a[0]) or r.op == "zst" or (r.op == "const" and "RangeFull" in str(r.a[0]))
    if full:
        st = mutcoll(fl, st, args[0], mk("call", "Vec::new"))
        return st, mk("iter", old)
    f = dict(zip(r.a[2], r.a[3:])) if r.op == "adt" and "Inclusive" not in r.a[0] else {}
    lo, hi = f.get("start"), f.get("end")
    if (lo is None or lo is int_(0)) and hi is not None:
        rest = F.mkslice(old, adt("RangeFrom", None, ("start",), (hi,)))
    elif lo is not None and (hi is None or hi is F.length(old)):
        rest = F.mkslice(old, adt("RangeTo", None, ("end",), (lo,)))
    else:
        rest = mk("call", "drained", old, r)
    st = mutcoll(fl, st, args[0], rest)
    return st, mk("iter", F.mkslice(old, r))


@model("Vec::split_off")
def split_off(fl, name, fj, args, aty, dty, st, sp):
    old = fl.deep(st, fl.read_ref(st, args[0]))
    i = V(fl, st, args[1])
    traps(fl, st, m_of(name), [(i, True)], old, sp)
    st = mutcoll(fl, st, args[0], F.mkslice(old, adt("RangeTo", None, ("end",), (i,))))
    return st, F.mkslice(old, adt("RangeFrom", None, ("start",), (i,)))


@model("Vec::retain", "BoundedVec::retain", "Vec::retain_mut")
def retain(fl, name, fj, args, aty, dty, st, sp):
    old = fl.deep(st, fl.read_ref(st, args[0]))
    out = {}

    def body(s, e):
        s2, r = fl.call_value(args[1], [e], s)
        if s2 is None:
            return None, []
        out["g"] = B.constrain(as_bool(r), s2.pc)
        return s2, []

    nat, _ = fl.iterate(mk("iter", old), st, body, "retain")
    _, e, _ = fl.src_elem(old, st)
    return mutcoll(fl, nat, args[0], F.mkseq(old, out.get("g", TRUE), e)), UNIT


@model("slice::contains", "Vec::contains", "BoundedVec::contains", "BTreeSet::contains", "BTreeMap::contains_key", "SortedMembers::contains")
def contains(fl, name, fj, args, aty, dty, st, sp):
    if len(args) < 2:
        return None
    v, x = V(fl, st, args[0]), V(fl, st, args[1])
    g, e, _ = fl.src_elem(v, st)
    if g == FALSE:
        return st, boolt(FALSE)
    return st, boolt(any_atom(v, st, g, eq(e, x)))


def any_atom(src, st, g, c):
    base = B.AND(st.pc, g)
    c = B.constrain(B.AND(c, g), base) if base != FALSE else c
    return F.any_of(src, c)


# --- iterators ---------------------------------------------------------------------------------
@model("IntoIterator::into_iter", "slice::iter", "Vec::iter", "slice::iter_mut", "BoundedVec::iter_mut", "BoundedVec::iter", "BTreeMap::iter",
       "BTreeMap::into_iter", "BTreeMap::values", "BTreeMap::keys", "Option::iter", "Option::into_iter", "BTreeSet::iter",
       "BTreeMap::into_values", "BTreeMap::values_mut")
def into_iter(fl, name, fj, args, aty, dty, st, sp):
    v = args[0]
    mutr = name.endswith("_mut") or (aty and aty[0].startswith("&mut"))
    if mutr:
        x = fl.read_ref(st, v)
        if x.op in F.ITER_OPS:
            return st, v  # `for x in &mut iter`
        return st, mk("itermut", v)
    r = F.to_iter(fl, st, v)
    if aty and norm_path(aty[0].lstrip("&")).startswith(OPT):
        r = liftmap(r, lambda t: mk("iopt", t.a[0]) if t.op == "iter" else t)
    if name.endswith("values") or name.endswith("keys"):
        fld = "1" if "values" in name else "0"
        return st, liftmap(r, lambda t: mk("iter", mk("mapfld", F.iter_src(t), fld)))
    return st, r


def itv(fl, st, v):
    if v.op == "ref":
        x = fl.read_ref(st, v)
        return F.to_iter(fl, st, x)
    return F.to_iter(fl, st, v)


ADAPT = {"map": "imap", "filter": "ifilter", "filter_map": "ifmap", "enumerate": "ienum", "zip": "izip", "rev": "irev", "take": "itake",
         "skip": "iskip", "chain": "ichain", "flat_map": "iflat", "flatten": "iflat", "take_while": "itakewhile", "skip_while": "iskipwhile",
         "inspect": "iinspect", "peekable": "ipeek", "step_by": "istep"}


def in_place(it):
    """a walk whose n-th element comes from the n-th of its source"""
    if it.op == "phi":
        return all(in_place(t) for _, t in alts(it))
    while it.op in ("imap", "iinspect", "ipeek", "ienum", "itakewhile"):
        it = it.a[0]
    if it.op == "izip":
        return in_place(it.a[0]) and in_place(it.a[1])
    return it.op not in ("ifilter", "ifmap", "irev", "istep", "iskipwhile", "iflat")


def adapt(fl, name, fj, args, aty, dty, st, sp):
    m = name.split("::")[-1]
    it = itv(fl, st, args[0])
    rest = []
    if m in ("enumerate", "zip") and not in_place(it):
        # counted, or paired, by position in what is produced
        st, x = collect_seq(fl, it, st)
        it = mk("iter", x)
    for i, a in enumerate(args[1:]):
        if m in ("zip", "chain"):
            a = itv(fl, st, a)
            if m == "zip" and not in_place(a):
                st, x = collect_seq(fl, a, st)
                a = mk("iter", x)
        elif m in ("take", "skip", "step_by"):
            a = V(fl, st, a)
        rest.append(a)
    if m == "flatten":
        rest = [UNIT]
    if m in ("take", "skip"):
        st, x = collect_seq(fl, it, st)
        return st, mk("iter", F.mkslice(x, adt("RangeTo" if m == "take" else "RangeFrom", None, ("end" if m == "take" else "start",), (rest[0],))))
    if m in ("flat_map", "flatten") and F.optional(it):
        # the one list there may be
        g, e, s1 = fl.iter_elem(it, st)
        s1 = s1.copy(B.AND(s1.pc, g))
        if s1.pc == FALSE:
            return st, mk("iter", mk("call", "Vec::new"))
        if m == "flat_map":
            s1, e = fl.call_value(rest[0], [e], s1)
            if s1 is None:
                return None, UNDEF
        r = itv(fl, s1, e)
        return fl.rejoin(st, g, s1), mkphi([(g, r), (B.NOT(g), mk("iter", mk("call", "Vec::new")))])
    if m == "chain":
        st, x = collect_seq(fl, it, st)
        st, y = collect_seq(fl, rest[0], st)
        return st, mk("iter", F.concat(x, y))

    def one(t):
        return mk(ADAPT[m], t, *rest)

    return st, (liftmap(it, one) if m not in ("zip", "chain") else one(it))


for _m in ADAPT:
    MODELS["Iterator::" + _m] = adapt
MODELS["DoubleEndedIterator::rev"] = adapt


@model("Iterator::cloned", "Iterator::copied", "Iterator::fuse")
def itident(fl, name, fj, args, aty, dty, st, sp):
    return st, itv(fl, st, args[0])


@model("Iterator::next", "DoubleEndedIterator::next_back")
def nxt(fl, name, fj, args, aty, dty, st, sp):
    it = fl.read_ref(st, args[0])
    if it.op not in F.ITER_OPS and it.op != "phi":
        it = mk("iter", it) if it.op not in F.ITER_OPS else it
    src = fl.src_of(it, st)
    L = fl.loops[-1] if fl.loops and fl.loops[-1].kind == "loop" else None
    few = F.given(it, True)
    if (F.optional(it) or few) and not (L and L.opt is None) and name.endswith("::next"):
        if L and L.src is None:
            L.opt = True
        g, e, s2 = fl.iter_elem(few[0] if few else it, st)
        s2 = s2.copy()
        fl.write_ref(s2, args[0], F.exhausted(it))
        return s2, mkphi([(g, some(fl.deep(s2, e))), (B.NOT(g), NONE)])
    if fl.loops and fl.loops[-1].kind == "loop" and (fl.loops[-1].src is None or fl.loops[-1].it is it):
        fl.loops[-1].src, fl.loops[-1].it = src, it
    elif it.op != "itermut" and src.op != "ref" and name.endswith("::next"):
        # one step, not a walk: the first element there is; what the iterator holds afterwards is left open
        nat, early = fl.iterate(it, st, lambda s, e: (None, [(s, some(fl.deep(s, e)))]), "next")
        s2, v = finish(fl, nat, early, NONE, st)
        if s2 is not None:
            fl.write_ref(s2, args[0], mk("iter", mk("call", "rest", src)))
        return s2, v
    g, e, s2 = fl.iter_elem(it, st)
    if fl.loops and fl.loops[-1].kind == "loop" and fl.loops[-1].src is src:
        fl.loops[-1].more = g
    return s2, mkphi([(g, some(e)), (B.NOT(g), NONE)])


def collect_seq(fl, it, st):
    out = {}

    def body(s, e):
        out["g"], out["e"], out["s"] = s.pc, fl.deep(s, e), s
        return s, []

    nat, _ = fl.iterate(it, st, body, "collect")
    if "e" not in out:
        return nat, mk("call", "Vec::new")
    src = F.iter_src(it)
    # every element produced is collected: an iteration that panics leaves no list at all
    ctx = fl.lastctx
    more, e = ctx.more, out["e"]
    if getattr(ctx, "ren", None):
        more, e = fl.renamed(ctx, boolt(more)).a[0], fl.renamed(ctx, e)
    r = F.mkseq(src, B.constrain(more, st.pc) if st.pc != FALSE else more, e)
    if is_reversed(it):
        r = F.mkrev(r)
    return nat, r


def is_reversed(it):
    n = 0
    while it.op in F.ITER_OPS:
        if it.op == "irev":
            n += 1
        it = it.a[0]
        if not isinstance(it, T):
            break
    return n % 2 == 1


def is_cut(it):
    return bool(cuts(it))


def cuts(it):
    r = []
    while it.op in F.ITER_OPS:
        if it.op in ("itake", "iskip", "istep"):
            r.append(mk(it.op, it.a[1]))
        it = it.a[0]
        if not isinstance(it, T):
            break
    return r


@model("Iterator::collect", "FromIterator::from_iter", "TryCollect::try_collect")
def collect(fl, name, fj, args, aty, dty, st, sp):
    it = itv(fl, st, args[0])
    d = norm_path(dty)
    if d.startswith(RES) or d.startswith(OPT):
        # collecting results: early exit on the first failure
        good = "Ok" if d.startswith(RES) else "Some"
        vs = ["Ok", "Err"] if good == "Ok" else ["None", "Some"]
        out = {}

        def body(s, e):
            k = is_variant(e, good, vs)
            out["e"] = fl.deep(s, vfield(e, good, "0"))
            ex = []
            s3 = s.copy(B.AND(s.pc, B.NOT(k)))
            if s3.pc != FALSE:
                ex.append((s3, under(e, s3.pc)))
            return s.copy(B.AND(s.pc, k)), ex

        nat, early = fl.iterate(it, st, body, "collect")
        sv = F.mkseq(F.iter_src(it), TRUE, out.get("e", UNDEF))
        return finish(fl, nat, early, ok(sv) if good == "Ok" else some(sv), st)
    return collect_seq(fl, it, st)


def finish(fl, nat, early, natval, st0):
    sts, vals = [], []
    for s, v in early:
        sts.append(s)
        vals.append((s.pc, v))
    if nat.pc != FALSE:
        sts.append(nat)
        vals.append((nat.pc, natval))
    j = fl.join(sts)
    if j is None:
        return None, UNDEF
    return j, mkphi([(B.constrain(g, j.pc), v) for g, v in vals])


@model("Iterator::for_each")
def for_each(fl, name, fj, args, aty, dty, st, sp):
    it = itv(fl, st, args[0])

    def body(s, e):
        s2, r = fl.call_value(args[1], [e], s)
        return s2, []

    nat, _ = fl.iterate(it, st, body, "for_each")
    return nat, UNIT


@model("Iterator::try_for_each", "Iterator::try_fold")
def try_for_each(fl, name, fj, args, aty, dty, st, sp):
    it = itv(fl, st, args[0])
    fold = name.endswith("try_fold")
    d = norm_path(dty)
    good = "Ok" if d.startswith(RES) else ("Some" if d.startswith(OPT) else "Continue")
    vs = {"Ok": ["Ok", "Err"], "Some": ["None", "Some"], "Continue": ["Continue", "Break"]}[good]
    st = st.copy()
    fl.frame_n += 1
    acc = ("L", fl.frame_n, 0)
    if fold:
        st.mem[acc] = args[1]
    clos = args[-1]

    def body(s, e):
        s2, r = fl.call_value(clos, ([s.mem[acc]] if fold else []) + [e], s)
        if s2 is None:
            return None, []
        k = is_variant(r, good, vs)
        ex = []
        s3 = s2.copy(B.AND(s2.pc, B.NOT(k)))
        if s3.pc != FALSE:
            r3 = under(r, s3.pc)
            ex.append((s3, NONE if good == "Some" else err(vfield(r3, "Err", "0")) if good == "Ok" else r3))
        c = s2.copy(B.AND(s2.pc, k))
        if fold:
            c.mem[acc] = vfield(r, good, "0")
        return (c if c.pc != FALSE else None), ex

    nat, early = fl.iterate(it, st, body, "try_for_each")
    val = nat.mem.get(acc, UNIT) if fold else UNIT
    w = {"Ok": ok(val), "Some": some(val), "Continue": adt(CF, "Continue", ("0",), (val,))}[good]
    return finish(fl, nat, early, w, st)


@model("Iterator::fold", "Iterator::sum", "Iterator::count", "Iterator::product", "Sum::sum", "Iterator::reduce")
def fold(fl, name, fj, args, aty, dty, st, sp):
    it = itv(fl, st, args[0])
    m = name.split("::")[-1]
    if m == "reduce":
        return None
    st = st.copy()
    fl.frame_n += 1
    acc = ("L", fl.frame_n, 0)
    st.mem[acc] = args[1] if m == "fold" else int_(1 if m == "product" else 0)

    def body(s, e):
        if m == "fold":
            s2, r = fl.call_value(args[2], [s.mem[acc], e], s)
            if s2 is None:
                return None, []
            s2 = s2.copy()
            s2.mem[acc] = r
            return s2, []
        s2 = s.copy()
        v = int_(1) if m == "count" else fl.deep(s, e)
        s2.mem[acc] = F.liftarith("mul" if m == "product" else "add", s.mem[acc], v)
        return s2, []

    nat, _ = fl.iterate(it, st, body, m)
    return nat, nat.mem.get(acc, UNDEF)


@model("Iterator::any", "Iterator::all")
def any_all(fl, name, fj, args, aty, dty, st, sp):
    it = itv(fl, st, args[0])
    isany = name.endswith("any")

    def body(s, e):
        s2, r = fl.call_value(args[1], [e], s)
        if s2 is None:
            return None, []
        c = as_bool(r)
        if not isany:
            c = B.NOT(c)
        ex = s2.copy(B.AND(s2.pc, c))
        return s2.copy(B.AND(s2.pc, B.NOT(c))), ([(ex, boolt(1 if isany else 0))] if ex.pc != FALSE else [])

    nat, early = fl.iterate(it, st, body, "any")
    return finish(fl, nat, early, boolt(0 if isany else 1), st)


@model("Iterator::find", "Iterator::position", "Iterator::find_map", "Iterator::rposition")
def find(fl, name, fj, args, aty, dty, st, sp):
    it = itv(fl, st, args[0])
    m = name.split("::")[-1]
    src = fl.src_of(it, st)

    def body(s, e):
        s2, r = fl.call_value(args[1], [e], s)
        if s2 is None:
            return None, []
        if m == "find_map":
            c = is_variant(r, "Some", ["None", "Some"])
        else:
            c = as_bool(r)
        ex = s2.copy(B.AND(s2.pc, c))
        base = B.constrain(c, B.AND(s.pc))
        if m == "find":
            val = some(e if it.op == "itermut" else fl.deep(s2, e))
        elif m == "find_map":
            val = under(r, ex.pc) if ex.pc != FALSE else r
        else:
            val = some(F.pos_of(src, base))
        return s2.copy(B.AND(s2.pc, B.NOT(c))), ([(ex, val)] if ex.pc != FALSE else [])

    nat, early = fl.iterate(it, st, body, m)
    return finish(fl, nat, early, NONE, st)


def has_ref(e):
    return any(t.op == "ref" for _, t in alts(e))


@model("Iterator::max_by_key", "Iterator::min_by_key", "Iterator::max", "Iterator::min", "Iterator::last", "Iterator::max_by", "Iterator::min_by",
       "Iterator::nth")
def maxby(fl, name, fj, args, aty, dty, st, sp):
    it = itv(fl, st, args[0])
    m = name.split("::")[-1]
    st, seq = collect_seq(fl, it, st)
    vals = []
    for a in args[1:]:
        if a.op in ("closure", "fn"):
            g, e, _ = fl.src_elem(seq, st)
            if m.endswith("by"):
                st, r = fl.lam(a, m, st)
            else:
                s2, r = fl.call_value(a, [e], st.copy(B.AND(st.pc, g)))
            vals.append(fl.deep(st, r))
        else:
            vals.append(V(fl, st, a))
    g = B.NOT(eq(F.length(seq), int_(0)))
    x = mk("pick", m, seq, *vals)
    if m in ("max", "min") and "Balance" in str(dty) and "(" not in str(dty):
        x = liftmap(under(seq, st.pc), lambda q: F.sumover(m + "over", int_(0) if m == "max" else mk("const", "largest"), q, TRUE, fl.src_elem(q, st)[1]))
    return st, mkphi([(g, some(x)), (B.NOT(g), NONE)])


@model("slice::binary_search", "slice::binary_search_by", "slice::binary_search_by_key", "BoundedVec::binary_search")
def bsearch(fl, name, fj, args, aty, dty, st, sp):
    v = V(fl, st, args[0])
    vs = [(g, t) for g, t in alts(under(v, st.pc)) if B.AND(g, st.pc) != FALSE]
    if len(vs) > 1 and len({t.id for g, t in vs}) > 1:
        return st, mkphi([(g, bsearch_in(fl, t, name, args, st.copy(B.AND(st.pc, g)))) for g, t in vs])
    return st, bsearch_in(fl, v, name, args, st)


@model("slice::partition_point")
def partition_point(fl, name, fj, args, aty, dty, st, sp):
    v = V(fl, st, args[0])

    def one(t):
        g, e, _ = fl.src_elem(t, st)
        s1 = st.copy(B.AND(st.pc, g))
        c = B.constrain(as_bool(fl.call_value(args[1], [e], s1)[1]), s1.pc) if g != FALSE else FALSE
        if g == FALSE:
            return int_(0)
        a = F.atom_term(min(B.support(c))) if c not in (0, 1) and len(B.support(c)) == 1 else None
        if a is not None and a.op == "lt" and B.AND(c, B.NOT(atom(a))) == FALSE and F.is_sorted(t, a.a[0], e):
            # the elements below a key come first: the place where a search for that key would put it
            return F.pos_of(t, B.constrain(B.AND(eq(*a.a), g), B.AND(st.pc, g)), "ins")
        return mk("ppoint", t, boolt(c))
    return st, liftmap(v, one)


def bsearch_in(fl, v, name, args, st):
    m = name.split("::")[-1]
    g, e, _ = fl.src_elem(v, st)
    s1 = st.copy(B.AND(st.pc, g))
    kf = e
    if m == "binary_search":
        key = eq(e, V(fl, st, args[1]))
    elif m == "binary_search_by":
        s2, r = fl.call_value(args[1], [e], s1)
        kf = F.compared(r, e)
        key = is_variant(r, "Equal", VARIANTS[ORD])
        key = B.constrain(key, s1.pc)
    else:
        s2, r = fl.call_value(args[2], [e], s1)
        kf = fl.deep(s1, r)
        key = eq(kf, V(fl, st, args[1]))
    if g == FALSE:
        return err(int_(0))
    base = B.AND(st.pc, g)
    kb = B.constrain(B.AND(key, g), base)
    if kf is None or not F.is_sorted(v, kf, e):
        # on a list that is not in the order the search relies on, what it finds is anybody's guess
        a = atom(mk("bsearch", v, boolt(kb)))
        return mkphi([(a, ok(mk("bspos", v, boolt(kb)))), (B.NOT(a), err(mk("bsins", v, boolt(kb))))])
    a = any_atom(v, st, g, key)
    return mkphi([(a, ok(F.pos_of(v, kb))), (B.NOT(a), err(F.pos_of(v, kb, "ins")))])


# --- Option helpers that go through raw pointers --------------------------------------------------
@model("Option::as_slice")
def as_slice(fl, name, fj, args, aty, dty, st, sp):
    return st, args[0]


@model("Option::is_some", "Option::is_none", "Result::is_ok", "Result::is_err")
def is_some(fl, name, fj, args, aty, dty, st, sp):
    v = V(fl, st, args[0])
    vs, good = (["None", "Some"], "Some") if name.startswith("Option") else (["Ok", "Err"], "Ok")
    g = is_variant(v, good, vs)
    if name.split("::")[1] in ("is_none", "is_err"):
        g = B.NOT(g)
    return st, boolt(g)


@model("Defensive::defensive_unwrap_or_default", "Option::unwrap_or_default", "Result::unwrap_or_default")
def unwrap_or_default(fl, name, fj, args, aty, dty, st, sp):
    v = V(fl, st, args[0])
    good, vs = ("Ok", ["Ok", "Err"]) if "Result" in name else ("Some", ["None", "Some"])
    g = is_variant(v, good, vs)
    s = dty
    d = default_of(fl, s, st, sp)
    return st, mkphi([(g, vfield(v, good, "0")), (B.NOT(g), d)])


@model("Defensive::defensive_unwrap_or", "Defensive::defensive_unwrap_or_else", "Defensive::defensive_ok_or", "DefensiveOption::defensive_ok_or",
       "DefensiveOption::defensive_ok_or_else", "Defensive::defensive_map_err")
def defensive(fl, name, fj, args, aty, dty, st, sp):
    v = V(fl, st, args[0])
    m = name.split("::")[1]
    s = fj.get("self", "")
    isopt = norm_path(s).startswith(OPT)
    good, vs = ("Some", ["None", "Some"]) if isopt else ("Ok", ["Ok", "Err"])
    g = is_variant(v, good, vs)
    x = vfield(v, good, "0")
    if m == "defensive_unwrap_or":
        return st, mkphi([(g, x), (B.NOT(g), args[1])])
    if m == "defensive_unwrap_or_else":
        s2, r = fl.call_value(args[1], [] if isopt else [vfield(v, "Err", "0")], st.copy(B.AND(st.pc, B.NOT(g))))
        if s2 is None or B.AND(st.pc, B.NOT(g)) == FALSE:
            return st.copy(B.AND(st.pc, g)), x
        return fl.rejoin(st, B.NOT(g), s2), mkphi([(g, x), (B.NOT(g), r)])
    if m == "defensive_ok_or":
        return st, mkphi([(g, ok(x)), (B.NOT(g), err(args[1]))])
    if m == "defensive_ok_or_else":
        s2, r = fl.call_value(args[1], [], st.copy(B.AND(st.pc, B.NOT(g))))
        return st, mkphi([(g, ok(x)), (B.NOT(g), err(r))])
    return None


# --- noise --------------------------------------------------------------------------------------------
@model("__private_api::log", "__private_api::loc", "log::max_level", "max_level", "runtime_print", "frame_support::print", "Span::new", "Span::enter",
       "__macro_support::__is_enabled", "__macro_support::__disabled_span", "DefaultCallsite::interest", "FieldSet::value_set",
       "LevelFilter::current", "Metadata::fields", "Interest::is_never", "Interest::never", "Callsite::metadata", "Argument::new_debug",
       "Argument::new_display", "Arguments::from_str", "Arguments::from_str_nonconst", "Arguments::new", "Arguments::new_v1", "Arguments::new_const",
       "__private_api::enabled", "fmt::format", "Formatter::write_str")
def noise(fl, name, fj, args, aty, dty, st, sp):
    if dty == "bool":
        return st, boolt(0)
    return st, (UNIT if dty == "()" else mk("noise"))


@model("PartialOrd::le")
def le_noise(fl, name, fj, args, aty, dty, st, sp):
    if "Level" in (fj.get("self") or ""):
        return st, boolt(0)
    return compare(fl, name, fj, args, aty, dty, st, sp)


@model("Pallet::block_number")
def block_number(fl, name, fj, args, aty, dty, st, sp):
    return st, mk("now")


@model("BlockNumberProvider::current_block_number")
def cbn(fl, name, fj, args, aty, dty, st, sp):
    if fj.get("inst") and custom(fl, fj):
        return None
    return st, mk("now")


@model("Pallet::deposit_event")
def deposit_event(fl, name, fj, args, aty, dty, st, sp):
    v = V(fl, st, args[0])
    fl.effect("event", eventname(v), None, [v], st, sp, fj=fj)
    return st, UNIT


def eventname(v):
    if v.op == "adt":
        return v.a[1]
    if v.op == "phi":
        return "|".join(sorted({eventname(t) for _, t in alts(v)}))
    return "?"


# --- who may call ------------------------------------------------------------------------------------
@model("frame_system::ensure_signed", "system::ensure_signed", "frame_system::ensure_root", "system::ensure_root", "frame_system::ensure_none",
       "frame_system::ensure_signed_or_root")
def ensure_sys(fl, name, fj, args, aty, dty, st, sp):
    v = V(fl, st, args[0])
    m = name.split("::")[-1]
    r = mk("call", m, v)
    fl.effect("origin", m, None, [v], st, sp, ret=r, fj=fj)
    return st, r


# raw read of the length prefix of a stored value
@model("storage::read")
def rawread(fl, name, fj, args, aty, dty, st, sp):
    k = V(fl, st, args[0])
    buf = fl.deep(st, fl.read_ref(st, args[1])) if args[1].op == "ref" else UNDEF
    # from the start, into room for the longest length prefix
    if k.op != "skey" or V(fl, st, args[2]) is not int_(0) or buf.op != "repeat" or not str(buf.a[1]).isdigit() or int(buf.a[1]) < 5:
        return None
    st = st.copy()
    v = fl.read_cell(st, ("S", k.a[0], tuple(x.id for x in k.a[2:])))
    fl.write_ref(st, args[1], mk("rawhead", v, k.a[1]))
    g = is_variant(v, "Some", ["None", "Some"])
    return st, mkphi([(g, some(mk("rawlen"))), (B.NOT(g), NONE)])


@model("Decode::decode")
def decode(fl, name, fj, args, aty, dty, st, sp):
    if CODEC_OPAQUE[0]:
        return fl.opaque_call(name, fj, args, aty, dty, st, sp)
    v = V(fl, st, args[0])
    if v.op == "slice" and v.a[1].op == "range" and len(v.a[1].a) == 2 and v.a[1].a[0] is int_(0):
        # all that was read, or as much of it as the room holds
        e = v.a[1].a[1]
        if e is mk("rawlen") or e.op == "min" and len(e.a) == 2 and mk("rawlen") in e.a and any(
                x.op == "int" and x.a[0] >= 5 or x.op == "len" and x.a[0] is v.a[0] for x in e.a):
            v = v.a[0]
    if v.op != "rawhead" or "Compact" not in dty:
        return None
    x = vfield(v.a[0], "Some", "0")
    if v.a[1] == "first":
        x = field(x, "0")
    return st, ok(adt("codec::Compact", None, ("0",), (F.length(x),)))


@model("EnsureOrigin::ensure_origin", "EnsureOrigin::try_origin", "EnsureOriginWithArg::ensure_origin", "EnsureOriginWithArg::try_origin")
def ensure_origin(fl, name, fj, args, aty, dty, st, sp):
    if fj.get("inst"):
        return None
    vals = [V(fl, st, a) for a in args]
    n = fl.call_name(name, fj).split("::")[0]
    r = mk("call", n + "::ensure_origin", *vals)
    fl.effect("origin", n, None, vals, st, sp, ret=r, fj=fj)
    if name.endswith("try_origin"):
        g = is_variant(r, "Ok", VARIANTS[RES])
        return st, mkphi([(g, ok(vfield(r, "Ok", "0"))), (B.NOT(g), err(vals[0]))])
    return st, r


def bound_arg(ty):
    """the bound of a bounded list type"""
    m = re.match(r"(?:&mut )?[\w:]*\bBoundedVec<", ty)
    if not m or not ty.endswith(">"):
        return None
    d, cut = 0, None
    for i, c in enumerate(ty[m.end():-1]):
        d += (c == "<") - (c == ">")
        if c == "," and d == 0:
            cut = i
    return None if cut is None else ty[m.end() + cut + 1:-1].strip()


# --- storage ------------------------------------------------------------------------------------------
def item_of(fj):
    s = (fj["args"][0] if fj.get("args") else "") + " " + (fj.get("self") or "")
    m = re.search(r"_GeneratedPrefixForStorage(\w+?)(?:<|,|>|$|\s)", s)
    return m.group(1) if m else None


def rank(t):
    s = terms.show(t)
    return max([int(n) for n in re.findall(r"\$(\d+)", s)], default=-1), s


def one_name(k, pc):
    """of the terms known to equal the key here, a parameter or the one from the later parameters: a cell has one name on a path"""
    skip = ("int", "const", "str", "tuple", "adt", "phi")
    if pc == TRUE or k.op == "arg" or k.op in skip:
        return k
    best = k
    for v in B.support(pc):
        t = terms.atom_term(v)
        if t.op == "eq" and k in t.a and B.implies(pc, B.var(v)):
            o = t.a[0] if t.a[1] is k else t.a[1]
            if o.op == "arg":
                return o
            if o.op not in skip and rank(o) > rank(best):
                best = o
    return best


def model_storage(fl, name, fj, args, st, sp):
    cls, m = name.split("::")[-2:] if "::" in name else ("", name)
    item = item_of(fj)
    if item is None:
        return None
    ty = fj.get("self") or ""
    full = " ".join(fj.get("args") or []) + " " + ty
    isval = "StorageValue" in name or "StorageValue<" in ty
    isdouble = "DoubleMap" in name or "StorageDoubleMap<" in ty
    isnmap = "NMap" in name or "StorageNMap<" in ty
    if not (isval or isdouble or isnmap or "StorageMap" in name or "StorageMap<" in ty or "CountedStorageMap" in name):
        return None
    option = "OptionQuery" in full
    result = "ResultQuery" in full
    nk = 0 if isval else (2 if isdouble else 1)
    st = st.copy()
    b = [x for x in map(bound_arg, fj.get("args") or []) if x]
    if b:
        fl.itemb[item] = b[0]
    keys = [V(fl, st, a) for a in args[:nk]]
    if isnmap and keys and keys[0].op == "tuple":
        keys = list(keys[0].a)
    keys = [one_name(k, st.pc) for k in keys]
    rest = args[nk:]
    cell = ("S", item, tuple(k.id for k in keys))
    here = lambda s: fl.read_cell(s, cell)
    since = len(fl.effects)
    if not fl.mute and m not in ("contains_key", "exists", "insert", "put", "set", "remove", "kill"):
        fl.reads.append((cell, since, st.pc))

    def put(s, v, **kw):
        old = here(s)
        v = fl.deep(s, v)
        s.mem[cell] = v
        emit_put(fl, m, item, keys, v, old, s, sp, fj, option, None)

    def dele(s):
        old = here(s)
        ga = fj.get("args") or []
        vi = 1 if isval else (5 if isdouble else 3)
        dv = simple_default(ga[vi]) if len(ga) > vi + 2 and not isnmap and ga[vi + 2].endswith("GetDefault") else None
        s.mem[cell] = NONE if option else dv or mk("defaultof", item)
        fl.effect("del", m, item, list(keys), s, sp, fj=fj, old=old)

    if m in ("get", "take"):
        fl.effect("read", m, item, list(keys), st, sp, fj=fj)
        v = here(st)
        if m == "take":
            dele(st)
        return st, v
    if m == "try_get":
        v = here(st)
        if option:
            g = is_variant(v, "Some", ["None", "Some"])
            return st, mkphi([(g, ok(vfield(v, "Some", "0"))), (B.NOT(g), err(UNIT))])
        g = exists_atom(item, keys, v)
        return st, mkphi([(g, ok(v)), (B.NOT(g), err(UNIT))])
    if m in ("contains_key", "exists"):
        v = here(st)
        if option:
            return st, boolt(is_variant(v, "Some", ["None", "Some"]))
        return st, boolt(exists_atom(item, keys, v))
    if m in ("insert", "put"):
        put(st, some(rest[0]) if option else rest[0])
        return st, UNIT
    if m == "set":
        put(st, rest[0])
        return st, UNIT
    if m in ("remove", "kill"):
        dele(st)
        return st, UNIT
    if m in ("mutate", "try_mutate", "mutate_exists", "try_mutate_exists", "mutate_extant"):
        s0 = st.copy()
        ref = mk("ref", cell, ())
        if "exists" in m and not option:
            v = here(st)
            g = exists_atom(item, keys, v)
            fl.frame_n += 1
            tmp = ("L", fl.frame_n, 0)
            st.mem[tmp] = mkphi([(g, some(v)), (B.NOT(g), NONE)])
            ref = mk("ref", tmp, ())
        if m == "mutate_extant":
            g = is_variant(here(st), "Some", ["None", "Some"])
            ref = mk("ref", cell, (("vf", "Some", "0"),))
        s2, r = fl.call_value(rest[0], [ref], st)
        if s2 is None:
            return None, UNDEF
        s2 = s2.copy()
        if "exists" in m and not option:
            nv = fl.read_cell(s2, tmp)
            ge = is_variant(nv, "Some", ["None", "Some"])
            s2.mem[cell] = mkphi([(ge, vfield(nv, "Some", "0")), (B.NOT(ge), mk("defaultof", item))])
        new = here(s2)
        old = s0.mem.get(cell) or fl.default(cell)
        if m.startswith("try_"):
            okg = is_variant(r, "Ok", ["Ok", "Err"])
            g = B.constrain(okg, s2.pc)
            fin = mkphi([(okg, new), (B.NOT(okg), old)])
            if new is not old:
                se = s2.copy(B.AND(s2.pc, okg))
                emit_put(fl, m, item, keys, under(new, se.pc), old, se, sp, fj, option, since)
            s2.mem[cell] = fin
        elif new is not old:
            emit_put(fl, m, item, keys, new, old, s2, sp, fj, option, since)
        return s2, r
    if m in ("append", "try_append"):
        v = V(fl, st, rest[0])
        old = here(st)
        g = fits("push", old, [v], b[0] if b else None) if m == "try_append" else TRUE
        se = st.copy(B.AND(st.pc, g))
        nv = mk("call", "push", old, v)
        fl.effect("put", m, item, keys + [nv], se, sp, fj=fj, old=old)
        st.mem[cell] = mkphi([(g, nv), (B.NOT(g), old)])
        if m == "append":
            return st, UNIT
        return st, mkphi([(g, ok(UNIT)), (B.NOT(g), err(UNIT))])
    if m in ("iter", "iter_keys", "iter_values", "iter_prefix", "iter_prefix_values", "iter_key_prefix", "drain", "drain_prefix", "iter_from",
             "iter_keys_from", "translate"):
        ks = [V(fl, st, a) for a in args]
        if isnmap and len(ks) == 1 and ks[0].op == "tuple":
            ks = list(ks[0].a)
        fl.effect("read", m, item, ks, st, sp, fj=fj)
        if m.startswith("drain"):
            fl.effect("del", m, item, ks, st, sp, fj=fj)
        base = "keys" if "key" in m else ("values" if "values" in m else "entries")
        return st, mk("iter", mk("storage", item, base, *ks))
    if m in ("clear", "remove_all", "clear_prefix", "remove_prefix"):
        fl.effect("del", m, item, [V(fl, st, a) for a in args], st, sp, fj=fj)
        return st, mk("call", m, mk("str", item))
    if m in ("decode_len", "decode_non_dedup_len"):
        v = here(st)
        x = F.length(vfield(v, "Some", "0") if option else v)
        g = is_variant(v, "Some", ["None", "Some"]) if option else B.NOT(eq(x, int_(0)))
        return st, mkphi([(g, some(x)), (B.NOT(g), NONE)])
    if m == "hashed_key_for":
        vt = (fj.get("args") or [])
        i = 3 if not isdouble else 5
        vty = vt[i] if len(vt) > i and not isval else ""
        kind = "first" if vty.startswith("(") and "BoundedVec<" in vty[:45] else ("vec" if "Vec<" in vty.split("<")[0] + "<" else None)
        if kind is None:
            return None
        return st, mk("skey", item, kind, *keys)
    if m == "count":
        return st, mk("count", item)
    if m in ("swap",):
        k2 = V(fl, st, args[1])
        fl.effect("put", m, item, [V(fl, st, a) for a in args], st, sp, fj=fj)
        return st, UNIT
    return None


def emit_put(fl, m, item, keys, new, old, st, sp, fj, option, since):
    """a closure-based write: only where the value changed, split into insertions and deletions"""
    new, old = under(new, st.pc), under(old, st.pc)
    kept = B.OR(*[B.AND(g, h) for g, t in alts(new) for h, u in alts(old) if t is u])
    pc = B.AND(st.pc, B.NOT(kept))
    gs = is_variant(new, "Some", ["None", "Some"]) if option else TRUE
    s1 = st.copy(B.AND(pc, gs))
    if s1.pc != FALSE:
        fl.effect("put", m, item, keys + [under(fl.deep(st, new), s1.pc)], s1, sp, fj=fj, old=old, since=since)
    s2 = st.copy(B.AND(pc, B.NOT(gs), is_variant(old, "Some", ["None", "Some"]) if option else TRUE))
    if s2.pc != FALSE:
        fl.effect("del", m, item, list(keys), s2, sp, fj=fj, old=old)


def exists_atom(item, keys, v):
    if v.op == "defaultof":
        return FALSE
    if v.op == "get":
        return atom(mk("exists", item, *keys))
    if v.op == "phi":
        return B.OR(*[B.AND(g, exists_atom(item, keys, t)) for g, t in alts(v)])
    return TRUE


@model("iter::once")
def once(fl, name, fj, args, aty, dty, st, sp):
    return st, mk("iopt", some(fl.deep(st, args[0])))


@model("traits::checked_pow", *[f"u{n}::checked_pow" for n in (8, 16, 32, 64, 128)])
def checked_pow(fl, name, fj, args, aty, dty, st, sp):
    """known only for constants that fit in any width"""
    a, b = V(fl, st, args[0]), V(fl, st, args[1])
    if not (a.op == b.op == "int" and 0 <= b.a[0] < 200):
        return None
    ty = next((t for t in F.WIDTH if str(dty).endswith(f"<{t}>")), "u8")
    v = a.a[0] ** b.a[0]
    return (st, some(int_(v))) if v < 1 << F.WIDTH[ty] else (st, NONE)


@model("iter::empty")
def nothing(fl, name, fj, args, aty, dty, st, sp):
    return st, mk("iter", mk("call", "Vec::new"))


@model("Iterator::unzip")
def unzip(fl, name, fj, args, aty, dty, st, sp):
    st, seq = collect_seq(fl, itv(fl, st, args[0]), st)
    g, e, _ = fl.src_elem(seq, st)
    return st, mk("tuple", *[F.mkseq(seq, TRUE, field(e, k)) for k in ("0", "1")])


@model("slice::is_sorted", "slice::is_sorted_by_key", "Iterator::is_sorted", "Iterator::is_sorted_by_key")
def sortedq(fl, name, fj, args, aty, dty, st, sp):
    st, seq = collect_seq(fl, itv(fl, st, args[0]), st)
    key = mk("cb", 0)
    if name.endswith("_key"):
        g, e, _ = fl.src_elem(seq, st)
        s2, r = fl.call_value(args[1], [e], st.copy(B.AND(st.pc, g)))
        if s2 is None:
            return st, mk("call", name, seq)
        seq, whole = F.mkseq(seq, TRUE, fl.deep(s2, r)), seq

    def one(t):
        k = key
        if t.op == "seq" and t.a[1] == TRUE:
            k, t = F.subst(t.a[2], F.elem(t.a[0]), key, {}), t.a[0]
        return boolt(eq(t, F.mksorted(t, k, False)))

    return st, liftmap(seq, one)


@model("Iterator::partition")
def partition(fl, name, fj, args, aty, dty, st, sp):
    st, seq = collect_seq(fl, itv(fl, st, args[0]), st)
    g, e, _ = fl.src_elem(seq, st)
    s2, r = fl.call_value(args[1], [e], st.copy(B.AND(st.pc, g)))
    if s2 is None:
        return st, mk("tuple", mk("call", "Vec::new"), mk("call", "Vec::new"))
    c = B.constrain(as_bool(r), B.AND(st.pc, g))
    return st, mk("tuple", F.mkseq(seq, c, e), F.mkseq(seq, B.NOT(c), e))
