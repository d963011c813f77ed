#!/usr/bin/env python3
"""Writes probe/src/builtin.rs and probe/src/derived.rs: the types whose mapping is analysed.
A, B, C, D are opaque component types with any number of values."""
import itertools, os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
L = "ABCD"
o = ["//! Types with a built-in mapping (generated by tools/gen_types.py).", "use super::marker::*;"]
names_b = []


def ty(n, t):
    names_b.append(n)
    o.append("pub type %s = %s;" % (n, t))


ty("unit", "()")
ty("boolean", "bool")
ty("opt", "Option<A>")
ty("opt_unit", "Option<()>")
ty("opt_bool", "Option<bool>")
ty("opt_opt", "Option<Option<A>>")
ty("opt_res", "Option<Result<A, B>>")
ty("opt_pair", "Option<(A, B)>")
ty("res", "Result<A, B>")
ty("res_same", "Result<A, A>")
ty("res_unit_ok", "Result<(), A>")
ty("res_unit_err", "Result<A, ()>")
ty("res_opt", "Result<Option<A>, Option<B>>")
ty("res_nested", "Result<Option<A>, Result<B, (A, B)>>")
ty("res_pairs", "Result<(A, B), (C, D)>")
for n in range(1, 33):
    ty("t%d" % n, "(" + "".join(L[i % 4] + ", " for i in range(n)) + ")")
for n in range(2, 7):
    ty("t%d_same" % n, "(" + "A, " * n + ")")
ty("t_mixed", "(Option<A>, bool, Result<B, A>)")
ty("t_units", "((), A, (), B)")
ty("t_bools", "(bool, A, bool)")
ty("t_array", "([A; 2], [B; 3])")
ty("t_nested", "((A, B), (C, (D, A)))")
for n in range(0, 33):
    ty("a%d" % n, "[A; %d]" % n)
ty("a_nested", "[[A; 2]; 2]")
ty("a_bool", "[bool; 3]")
ty("a_opt", "[Option<A>; 3]")
ty("a_pair", "[(A, B); 2]")
open(os.path.join(HERE, "probe/src/builtin.rs"), "w").write("\n".join(o) + "\n")

# ---------------------------------------------------------------- derived
o = [
    "//! Declarations with a derived mapping (generated by tools/gen_types.py).",
    "use super::marker::*;",
    "use enum_like_derive::EnumLike;",
]
names_d = []
k = itertools.count()


def decl(n, body, pre="", alias=None):
    """one declaration per line"""
    o.append("#[derive(Copy, Clone, EnumLike)] %s%s" % (pre, body))
    if alias:
        o.append("pub type %s = %s;" % (n, alias))
    names_d.append(n)


ALPHA = "ABCD"
cyc = itertools.cycle("ABCDBCADCDABDBCA")


def fields(kind):
    """kind: u unit, tN tuple with N fields, nN named with N fields, b bool tuple, o option tuple, p empty braces"""
    n = int(kind[1:] or 0)
    if kind[0] == "u":
        return ""
    if kind[0] == "t":
        return "(" + ", ".join(next(cyc) for _ in range(n)) + ")"
    if kind[0] == "n":
        ns = ["z", "a", "m", "b", "y", "c", "x", "d"]
        return " { " + ", ".join("%s: %s" % (ns[i], next(cyc)) for i in range(n)) + " }"
    if kind[0] == "b":
        return "(bool, %s)" % next(cyc)
    if kind[0] == "o":
        return "(Option<%s>, %s)" % (next(cyc), next(cyc))


def enum(n, kinds, discr=False):
    vs = []
    for i, kd in enumerate(kinds):
        f = fields(kd)
        v = "V%d%s" % (i, f)
        if discr and kd == "u":
            v += " = %d" % discr[i]
        vs.append(v)
    decl(n, "pub enum %s { %s }" % (n, ", ".join(vs)))


# structs
decl("s_unit", "pub struct s_unit;")
decl("s_paren", "pub struct s_paren();")
decl("s_brace", "pub struct s_brace {}")
for n in range(1, 7):
    decl("s_t%d" % n, "pub struct s_t%d%s;" % (n, fields("t%d" % n)))
    decl("s_n%d" % n, "pub struct s_n%d%s" % (n, fields("n%d" % n)))
decl("s_same", "pub struct s_same(A, A, A);")
decl("s_bool", "pub struct s_bool { x: bool, y: A, z: bool }")
decl("s_opt", "pub struct s_opt(Option<A>, B, Result<A, C>);")
decl("s_tuple", "pub struct s_tuple((A, B), C);")
decl("s_array", "pub struct s_array { f: [A; 2], g: B }")
decl("s_unitfield", "pub struct s_unitfield((), A, ());")
# field-less enums
for n in range(1, 9):
    enum("e_u%d" % n, ["u"] * n)
enum("e_u12", ["u"] * 12)
enum("e_u40", ["u"] * 40)
enum("e_d3", ["u"] * 3, [100, 7, 50])
enum("e_d4", ["u"] * 4, [3, 2, 1, 0])
enum("e_d2", ["u"] * 2, [5, -9])
# every sequence of up to three variants of these kinds, and longer mixes
for n in (1, 2):
    for c in itertools.product(["u", "t1", "t2", "n1", "n2", "t3"], repeat=n):
        if set(c) == {"u"}:
            continue
        enum("e_" + "_".join(c), list(c))
for c in itertools.product(["u", "t1", "n2"], repeat=3):
    if set(c) == {"u"}:
        continue
    enum("e_" + "_".join(c), list(c))
for i, c in enumerate([
    "u t1 u t2 u n2", "t2 u n2 u t1 u", "u u u t1", "t1 u u u", "t1 t1 t1 t1 t1", "n3 u t3 u", "t4 n4", "u t4 u n4 u",
    "b u b", "o u t1", "n1 n2 n3 n4", "t1 t2 t3 t4", "u t1 u t1 u t1 u", "t5 u", "n5 u t1", "u u t1 u u t1 u u",
]):
    enum("e_mix%d" % i, c.split())
# generic parameters
decl("g_s", "pub struct g_s0<T>(T);", alias="g_s0<A>")
decl("g_s2", "pub struct g_s20<T, U>(T, U, T);", alias="g_s20<A, B>")
decl("g_n", "pub struct g_n0<T, U> { a: U, b: T }", alias="g_n0<A, B>")
decl("g_e", "pub enum g_e0<T, U> { L(T), R(U) }", alias="g_e0<A, B>")
decl("g_m", "pub enum g_m0<T> { X, Y(T), Z, W { f: T, g: A } }", alias="g_m0<B>")
decl("g_o", "pub enum g_o0<T> { X(Option<T>), Y }", alias="g_o0<A>")
decl("g_w", "pub struct g_w0<T>(T, B) where T: Copy;", alias="g_w0<A>")
decl("g_b", "pub struct g_b0<T: Copy>(T, T);", alias="g_b0<A>")
# declarations made of each other
decl("n_in", "pub enum n_in { P, Q(A) }")
decl("n_out", "pub enum n_out { R(n_in), S, T { x: n_in, y: B } }")
decl("n_s", "pub struct n_s { x: n_in, y: n_in }")
# larger declarations
for n in (8, 11):
    decl("s_t%d" % n, "pub struct s_t%d%s;" % (n, fields("t%d" % n)))
decl("s_n8", "pub struct s_n8%s" % fields("n8"))
for n in (64, 100, 257, 300):
    enum("e_u%d" % n, ["u"] * n)
enum("e_d_up", ["u"] * 5, [1, 2, 3, 10, 11])
decl("e_d_some", "pub enum e_d_some { V0, V1 = 10, V2, V3 = -1 }")
decl("e_d_zero", "pub enum e_d_zero { V0 = 1, V1 = 0 }")
for i, c in enumerate([
    "t6 u", "n6 t1", "u t8", "t1 " * 8, "n2 " * 7, "u " * 20 + "t1 " + "u " * 20, "u " * 70 + "t2 u n1", "t1 u " * 6,
    "t2 t2 t2 t2", "n3 n3 u n3", "t3 u u t3 u t3", "t1 n1 t2 n2 t3 n3 u", "b b b", "o o u o",
]):
    enum("e_big%d" % i, c.split())
# names that the generated code could confuse with its own
decl("m_x", "pub enum m_x { X { x: A, value: B }, Y { x0: A, x1: B, x: C }, Z(A), U }")
decl("m_value", "pub struct m_value { value: A, x: B, offset: C }")
decl("m_tuple", "pub enum m_tuple { x0(A, B), x1, Self_(B) }")
decl("m_some", "pub enum m_some { None, Some(A), Ok(B), Err { f: A } }")
decl("m_repr", "#[repr(u8)] pub enum m_repr { V0 = 3, V1 = 1, V2 }")
decl("m_doc", "#[doc = \"d\"] pub enum m_doc { #[doc = \"a\"] V0, #[doc = \"b\"] V1(#[doc = \"c\"] A), V2 { #[doc = \"e\"] f: B } }")
decl("m_pub", "pub struct m_pub(pub A, pub(crate) B, C);")
decl("m_path", "pub struct m_path { a: super::marker::A, b: ::std::option::Option<super::marker::B>, c: self::n_in }")
decl("m_units", "pub enum m_units { V0(()), V1((), A), V2 { f: (), g: () }, V3 }")
decl("m_arrays", "pub enum m_arrays { V0([A; 3]), V1 { f: [B; 2], g: (A, [bool; 2]) }, V2 }")
decl("g_we", "pub enum g_we0<T, U> where T: Copy, U: Copy { V0(T), V1, V2 { f: U, g: T } }", alias="g_we0<A, B>")
decl("g_four", "pub struct g_four0<T, U, V, W>(T, U, V, W);", alias="g_four0<A, B, C, D>")
decl("g_bounds", "pub enum g_bounds0<T: Copy + ::std::marker::Copy, U> { L(T), M, R { a: U, b: Option<T> } }", alias="g_bounds0<A, B>")
# bounds that the mapping itself does not need
decl("g_wt", "pub struct g_wt0<T>(T, B) where T: Own;", alias="g_wt0<A>")
decl("g_bt", "pub struct g_bt0<T: Own, U: Own + Copy> { a: U, b: T }", alias="g_bt0<A, B>")
decl("g_wet", "pub enum g_wet0<T, U> where T: Own, Option<U>: Copy, U: Own { X(T), Y, Z { f: U, g: T } }", alias="g_wet0<A, B>")
decl("g_def", "pub struct g_def0<T, U: Own = B>(T, U);", alias="g_def0<A>")
open(os.path.join(HERE, "probe/src/derived.rs"), "w").write("\n".join(o) + "\n")
open(os.path.join(HERE, "tools/types.txt"), "w").write("builtin %s\nderived %s\n" % (",".join(names_b), ",".join(names_d)))
