//! Types with a built-in mapping (generated by tools/gen_types.py).
use super::marker::*;
pub type unit = ();
pub type boolean = bool;
pub type opt = Option<A>;
pub type opt_unit = Option<()>;
pub type opt_bool = Option<bool>;
pub type opt_opt = Option<Option<A>>;
pub type opt_res = Option<Result<A, B>>;
pub type opt_pair = Option<(A, B)>;
pub type res = Result<A, B>;
pub type res_same = Result<A, A>;
pub type res_unit_ok = Result<(), A>;
pub type res_unit_err = Result<A, ()>;
pub type res_opt = Result<Option<A>, Option<B>>;
pub type res_nested = Result<Option<A>, Result<B, (A, B)>>;
pub type res_pairs = Result<(A, B), (C, D)>;
pub type t1 = (A, );
pub type t2 = (A, B, );
pub type t3 = (A, B, C, );
pub type t4 = (A, B, C, D, );
pub type t5 = (A, B, C, D, A, );
pub type t6 = (A, B, C, D, A, B, );
pub type t7 = (A, B, C, D, A, B, C, );
pub type t8 = (A, B, C, D, A, B, C, D, );
pub type t9 = (A, B, C, D, A, B, C, D, A, );
pub type t10 = (A, B, C, D, A, B, C, D, A, B, );
pub type t11 = (A, B, C, D, A, B, C, D, A, B, C, );
pub type t12 = (A, B, C, D, A, B, C, D, A, B, C, D, );
pub type t13 = (A, B, C, D, A, B, C, D, A, B, C, D, A, );
pub type t14 = (A, B, C, D, A, B, C, D, A, B, C, D, A, B, );
pub type t15 = (A, B, C, D, A, B, C, D, A, B, C, D, A, B, C, );
pub type t16 = (A, B, C, D, A, B, C, D, A, B, C, D, A, B, C, D, );
pub type t17 = (A, B, C, D, A, B, C, D, A, B, C, D, A, B, C, D, A, );
pub type t18 = (A, B, C, D, A, B, C, D, A, B, C, D, A, B, C, D, A, B, );
pub type t19 = (A, B, C, D, A, B, C, D, A, B, C, D, A, B, C, D, A, B, C, );
pub type t20 = (A, B, C, D, A, B, C, D, A, B, C, D, A, B, C, D, A, B, C, D, );
pub type t21 = (A, B, C, D, A, B, C, D, A, B, C, D, A, B, C, D, A, B, C, D, A, );
pub type t22 = (A, B, C, D, A, B, C, D, A, B, C, D, A, B, C, D, A, B, C, D, A, B, );
pub type t23 = (A, B, C, D, A, B, C, D, A, B, C, D, A, B, C, D, A, B, C, D, A, B, C, );
pub type t24 = (A, B, C, D, A, B, C, D, A, B, C, D, A, B, C, D, A, B, C, D, A, B, C, D, );
pub type t25 = (A, B, C, D, A, B, C, D, A, B, C, D, A, B, C, D, A, B, C, D, A, B, C, D, A, );
pub type t26 = (A, B, C, D, A, B, C, D, A, B, C, D, A, B, C, D, A, B, C, D, A, B, C, D, A, B, );
pub type t27 = (A, B, C, D, A, B, C, D, A, B, C, D, A, B, C, D, A, B, C, D, A, B, C, D, A, B, C, );
pub type t28 = (A, B, C, D, A, B, C, D, A, B, C, D, A, B, C, D, A, B, C, D, A, B, C, D, A, B, C, D, );
pub type t29 = (A, B, C, D, A, B, C, D, A, B, C, D, A, B, C, D, A, B, C, D, A, B, C, D, A, B, C, D, A, );
pub type t30 = (A, B, C, D, A, B, C, D, A, B, C, D, A, B, C, D, A, B, C, D, A, B, C, D, A, B, C, D, A, B, );
pub type t31 = (A, B, C, D, A, B, C, D, A, B, C, D, A, B, C, D, A, B, C, D, A, B, C, D, A, B, C, D, A, B, C, );
pub type t32 = (A, B, C, D, A, B, C, D, A, B, C, D, A, B, C, D, A, B, C, D, A, B, C, D, A, B, C, D, A, B, C, D, );
pub type t2_same = (A, A, );
pub type t3_same = (A, A, A, );
pub type t4_same = (A, A, A, A, );
pub type t5_same = (A, A, A, A, A, );
pub type t6_same = (A, A, A, A, A, A, );
pub type t_mixed = (Option<A>, bool, Result<B, A>);
pub type t_units = ((), A, (), B);
pub type t_bools = (bool, A, bool);
pub type t_array = ([A; 2], [B; 3]);
pub type t_nested = ((A, B), (C, (D, A)));
pub type a0 = [A; 0];
pub type a1 = [A; 1];
pub type a2 = [A; 2];
pub type a3 = [A; 3];
pub type a4 = [A; 4];
pub type a5 = [A; 5];
pub type a6 = [A; 6];
pub type a7 = [A; 7];
pub type a8 = [A; 8];
pub type a9 = [A; 9];
pub type a10 = [A; 10];
pub type a11 = [A; 11];
pub type a12 = [A; 12];
pub type a13 = [A; 13];
pub type a14 = [A; 14];
pub type a15 = [A; 15];
pub type a16 = [A; 16];
pub type a17 = [A; 17];
pub type a18 = [A; 18];
pub type a19 = [A; 19];
pub type a20 = [A; 20];
pub type a21 = [A; 21];
pub type a22 = [A; 22];
pub type a23 = [A; 23];
pub type a24 = [A; 24];
pub type a25 = [A; 25];
pub type a26 = [A; 26];
pub type a27 = [A; 27];
pub type a28 = [A; 28];
pub type a29 = [A; 29];
pub type a30 = [A; 30];
pub type a31 = [A; 31];
pub type a32 = [A; 32];
pub type a_nested = [[A; 2]; 2];
pub type a_bool = [bool; 3];
pub type a_opt = [Option<A>; 3];
pub type a_pair = [(A, B); 2];
