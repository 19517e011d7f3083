"""C15: compression round-trips; decompression failure is contained. zstd itself is an assumed dependency contract."""
import cxx
from speclib import *
from contracts_std import as_iter, num
from exec import tobool

MOD = "compress"
LEN = smt.uf("strlen", REAL, INT)                         # length of a byte string
TAKE = smt.uf("take", REAL, INT, REAL)                    # first n bytes
ZIP = smt.uf("zstd_frame", REAL, INT, REAL)               # the frame ZSTD_compress writes for a byte string at a level
UNZIP = smt.uf("zstd_content", REAL, REAL)                # what a valid frame decompresses to
VALID = smt.uf("zstd_valid", REAL, BOOL)
DECL = smt.uf("zstd_declared", REAL, INT)                 # content size declared by the header (-1 unknown, -2 error)
BOUND = smt.uf("zstd_bound", INT, INT)
BYTES = smt.uf("bytes_of_doubles", z3.ArraySort(INT, REAL), INT, REAL)
BLOCK = 128 * 1024


def string_at(c, a):
    if isinstance(a, PyObj) and a.kind == "sdata":
        return a.d["c"]
    return None


def source(c, a, n):
    """the bytes a pointer and a byte count denote"""
    ex, st = c.ex, c.st
    s = string_at(c, a)
    if s is not None:
        x = ex.node_at(st, s).e
        ex.oblige(st, "read within the string", z3.And(n >= 0, n <= LEN(x)), "pre")
        st.assume(implies(n == LEN(x), TAKE(x, n) == x))
        return TAKE(x, n)
    v, k = vec_at(c, a, n)
    b = BYTES(v.el.e, k)
    st.assume(LEN(b) == 8 * k)
    return b


def vec_at(c, a, n):
    ex, st = c.ex, c.st
    it = as_iter(ex, st, a)
    v = ex.node_at(st, it.c)
    ex.oblige(st, "start of the buffer", it.pos == 0, "pre")
    ex.oblige(st, "within the buffer", z3.And(n >= 0, n <= 8 * v.n.e, n % 8 == 0), "pre")
    k = z3.Int(fresh_name("elems"))
    st.assume(8 * k == n)
    return v, k


def written(c, a, cap, content, m):
    """m bytes `content` written at a, the rest unspecified"""
    ex, st = c.ex, c.st
    s = string_at(c, a)
    if s is not None:
        old = ex.node_at(st, s).e
        ex.oblige(st, "write within the string", z3.And(cap >= 0, cap <= LEN(old)), "pre")
        new = z3.Real(fresh_name("str"))
        st.assume(LEN(new) == LEN(old))
        st.assume(implies(z3.And(m >= 0, m <= LEN(old)), z3.And(TAKE(new, m) == content, LEN(content) == m)))
        st.assume(TAKE(new, LEN(new)) == new)
        ex.write(st, s, Leaf("str", new))
        return
    it = as_iter(ex, st, a)
    v = ex.node_at(st, it.c)
    ex.oblige(st, "write at the start of the buffer", it.pos == 0, "pre")
    ex.oblige(st, "write within the buffer", z3.And(cap >= 0, cap <= 8 * v.n.e), "pre")
    arr = z3.Const(fresh_name("buf"), v.el.e.sort())
    k = z3.Int("bk")
    st.assume(implies(m == 8 * v.n.e, BYTES(arr, v.n.e) == content))
    ex.write(st, it.c, Vec(v.n, Leaf("f64", arr, v.el.ks), v.ty))


def h_bound(c):
    n = num(c.args[0])
    c.st.assume(BOUND(n) >= n)
    return [(c.st, BOUND(n))]


def h_compress(c):
    """ZSTD_compress: given room for the bound, writes one frame, with its content size declared, and returns the frame's length"""
    ex, st = c.ex, c.st
    dst, cap, src, n, level = c.args[0], num(c.args[1]), c.args[2], num(c.args[3]), num(c.args[4])
    x = source(c, src, n)
    ex.oblige(st, "compress: room for the bound", cap >= BOUND(n), "pre")
    z = ZIP(x, level)
    st.assume(frame(z, x, n, cap))
    written(c, dst, cap, z, LEN(z))
    return [(st, LEN(z))]


def frame(z, x, n, cap):
    return z3.And(LEN(x) == n, LEN(z) >= 9, LEN(z) <= cap, VALID(z), DECL(z) == n, UNZIP(z) == x, n <= (LEN(z) / 3) * BLOCK)


def h_declared(c):
    """ZSTD_getFrameContentSize: for a valid frame the declared size is the content's (or unknown); arbitrary input may declare anything"""
    ex, st = c.ex, c.st
    n = num(c.args[1])
    s = string_at(c, c.args[0])
    x = ex.node_at(st, s).e
    ex.oblige(st, "whole input inspected", n == LEN(x), "pre")
    d = DECL(x)
    st.assume(z3.And(d >= -2, d < 2 ** 64 - 2))
    st.assume(facts_of_input(x))
    return [(st, d)]


def facts_of_input(x):
    # every block of a valid frame takes at least 3 bytes and holds at most 128 KiB
    return z3.And(LEN(x) >= 0, LEN(x) < 2 ** 40, implies(VALID(x), z3.And(LEN(UNZIP(x)) >= 0, LEN(UNZIP(x)) <= (LEN(x) / 3) * BLOCK, LEN(UNZIP(x)) < 2 ** 63)))


def h_decompress(c):
    """ZSTD_decompress: a valid frame which fits is written completely and its length returned, otherwise an error code (above any size)"""
    ex, st = c.ex, c.st
    dst, cap, src, n = c.args[0], num(c.args[1]), c.args[2], num(c.args[3])
    s = string_at(c, src)
    x = ex.node_at(st, s).e
    ex.oblige(st, "decompress: the whole input", n == LEN(x), "pre")
    st.assume(facts_of_input(x))
    m = z3.Int(fresh_name("got"))
    y = UNZIP(x)
    ok = z3.And(VALID(x), LEN(y) <= cap)
    st.assume(z3.If(ok, m == LEN(y), z3.And(m >= -200, m < 0)))         # error codes are -1..-ZSTD_error_maxCode as size_t
    written(c, dst, cap, y, m)
    return [(st, m)]


def h_data(c):
    return [(c.st, PyObj("sdata", c=c.args[0]))]


def h_size(c):
    x = c.ex.node_at(c.st, c.args[0]).e
    c.st.assume(z3.And(LEN(x) >= 0, LEN(x) < 2 ** 62))
    return [(c.st, LEN(x))]


def h_resize(c):
    """std::string::resize throws length_error / bad_alloc when the memory is not there"""
    ex, st = c.ex, c.st
    x = ex.node_at(st, c.args[0]).e
    n = num(c.args[1])
    lim = ex.mem_limit
    if lim is not None:
        ex.oblige(st, "resize: memory in proportion to the input", z3.And(n >= 0, n <= lim), "pre")
    y = z3.Real(fresh_name("str"))
    st.assume(z3.And(LEN(y) == n, TAKE(y, n) == y))
    st.assume(implies(n <= LEN(x), y == TAKE(x, n)))
    ex.write(st, c.args[0], Leaf("str", y))
    return c.ret(None)


B = "std::__cxx11::basic_string::"
CON = {"ZSTD_compressBound": h_bound, "ZSTD_compress": h_compress, "ZSTD_getFrameContentSize": h_declared, "ZSTD_decompress": h_decompress}
for pre in ("std::__cxx11::basic_string::", "std::basic_string::"):
    CON.update({pre + "data": h_data, pre + "c_str": h_data, pre + "size": h_size, pre + "length": h_size, pre + "resize": h_resize,
                pre + "shrink_to_fit": lambda c: c.ret(None)})


def start(v, x=None, lim=None):
    v.ex.mem_limit = lim
    if x is not None:
        v.requires(z3.And(LEN(x) >= 0, LEN(x) < 2 ** 40))


def limit(x):
    """memory a decompression of x may claim"""
    return (LEN(x) / 3 + 1) * BLOCK


def good(x):
    """a frame whose header declares its true content size"""
    return z3.And(VALID(x), DECL(x) == LEN(UNZIP(x)))


def same_str(a, b):
    return a == b


def compressed(fn, level):
    @spec("C15", MOD, fn, contracts=CON)
    def f(v):
        x = v.a(0)
        start(v, x)
        for p in v.run():
            p.ensure("the zstd frame of exactly these bytes", strof(p.ret) == ZIP(x, level(v)))
    return f


def strof(n):
    return n.e if isinstance(n, Leaf) else n


compressed("comp", lambda v: v.a(1))
compressed("comp_default", lambda v: z3.IntVal(3))


@spec("C15", MOD, "maybe", contracts=CON)
def maybe(v):
    x = v.a(0)
    start(v, x, limit(x))
    v.requires(facts_of_input(x))
    for p in v.run():
        r = tobool(p.ret)
        p.ensure("success exactly for frames with their declared content", r == good(x))
        p.ensure("content recovered", implies(r, strof(p.out(1)) == UNZIP(x)))
        p.ensure("input unchanged", strof(p.out(0)) == x)


@spec("C15", MOD, "decomp", contracts=CON)
def decomp(v):
    x = v.a(0)
    start(v, x, limit(x))
    v.requires(facts_of_input(x))
    v.requires(good(x))
    for p in v.run():
        p.ensure("content recovered", strof(p.ret) == UNZIP(x))


@spec("C15", MOD, "round", contracts=CON)
def roundtrip(v):
    x = v.a(0)
    start(v, x)
    for p in v.run():
        p.ensure("original bytes", strof(p.ret) == x)


@spec("C15", MOD, "comp_v", contracts=CON)
def comp_v(v):
    a = v.pre[0]
    start(v)
    v.requires(a.n.e < 2 ** 36)
    for p in v.run():
        p.ensure("the zstd frame of exactly these elements", strof(p.ret) == ZIP(BYTES(a.el.e, a.n.e), v.a(1)))


@spec("C15", MOD, "maybe_v", contracts=CON)
def maybe_v(v):
    x, o = v.a(0), v.pre[1]
    start(v, x)
    v.requires(o.n.e < 2 ** 36)
    v.requires(facts_of_input(x))
    for p in v.run():
        r = tobool(p.ret)
        w = p.out(1)
        p.ensure("success exactly for frames holding this many elements", r == z3.And(good(x), LEN(UNZIP(x)) == 8 * o.n.e))
        p.ensure("elements recovered", implies(r, BYTES(w.el.e, w.n.e) == UNZIP(x)))
        p.ensure("buffer size kept", w.n.e == o.n.e)


@spec("C15", MOD, "round_v", contracts=CON)
def round_v(v):
    a, o = v.pre[0], v.pre[2]
    start(v)
    v.requires(a.n.e < 2 ** 36)
    v.requires(a.n.e == o.n.e)
    for p in v.run():
        w = p.out(2)
        p.ensure("original elements", z3.And(w.n.e == a.n.e, BYTES(w.el.e, w.n.e) == BYTES(a.el.e, a.n.e)))
