//! Declarations with a derived mapping (generated by tools/gen_types.py).
use super::marker::*;
use enum_like_derive::EnumLike;
#[derive(Copy, Clone, EnumLike)] pub struct s_unit;
#[derive(Copy, Clone, EnumLike)] pub struct s_paren();
#[derive(Copy, Clone, EnumLike)] pub struct s_brace {}
#[derive(Copy, Clone, EnumLike)] pub struct s_t1(A);
#[derive(Copy, Clone, EnumLike)] pub struct s_n1 { z: B }
#[derive(Copy, Clone, EnumLike)] pub struct s_t2(C, D);
#[derive(Copy, Clone, EnumLike)] pub struct s_n2 { z: B, a: C }
#[derive(Copy, Clone, EnumLike)] pub struct s_t3(A, D, C);
#[derive(Copy, Clone, EnumLike)] pub struct s_n3 { z: D, a: A, m: B }
#[derive(Copy, Clone, EnumLike)] pub struct s_t4(D, B, C, A);
#[derive(Copy, Clone, EnumLike)] pub struct s_n4 { z: A, a: B, m: C, b: D }
#[derive(Copy, Clone, EnumLike)] pub struct s_t5(B, C, A, D, C);
#[derive(Copy, Clone, EnumLike)] pub struct s_n5 { z: D, a: A, m: B, b: D, y: B }
#[derive(Copy, Clone, EnumLike)] pub struct s_t6(C, A, A, B, C, D);
#[derive(Copy, Clone, EnumLike)] pub struct s_n6 { z: B, a: C, m: A, b: D, y: C, c: D }
#[derive(Copy, Clone, EnumLike)] pub struct s_same(A, A, A);
#[derive(Copy, Clone, EnumLike)] pub struct s_bool { x: bool, y: A, z: bool }
#[derive(Copy, Clone, EnumLike)] pub struct s_opt(Option<A>, B, Result<A, C>);
#[derive(Copy, Clone, EnumLike)] pub struct s_tuple((A, B), C);
#[derive(Copy, Clone, EnumLike)] pub struct s_array { f: [A; 2], g: B }
#[derive(Copy, Clone, EnumLike)] pub struct s_unitfield((), A, ());
#[derive(Copy, Clone, EnumLike)] pub enum e_u1 { V0 }
#[derive(Copy, Clone, EnumLike)] pub enum e_u2 { V0, V1 }
#[derive(Copy, Clone, EnumLike)] pub enum e_u3 { V0, V1, V2 }
#[derive(Copy, Clone, EnumLike)] pub enum e_u4 { V0, V1, V2, V3 }
#[derive(Copy, Clone, EnumLike)] pub enum e_u5 { V0, V1, V2, V3, V4 }
#[derive(Copy, Clone, EnumLike)] pub enum e_u6 { V0, V1, V2, V3, V4, V5 }
#[derive(Copy, Clone, EnumLike)] pub enum e_u7 { V0, V1, V2, V3, V4, V5, V6 }
#[derive(Copy, Clone, EnumLike)] pub enum e_u8 { V0, V1, V2, V3, V4, V5, V6, V7 }
#[derive(Copy, Clone, EnumLike)] pub enum e_u12 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11 }
#[derive(Copy, Clone, EnumLike)] pub enum e_u40 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39 }
#[derive(Copy, Clone, EnumLike)] pub enum e_d3 { V0 = 100, V1 = 7, V2 = 50 }
#[derive(Copy, Clone, EnumLike)] pub enum e_d4 { V0 = 3, V1 = 2, V2 = 1, V3 = 0 }
#[derive(Copy, Clone, EnumLike)] pub enum e_d2 { V0 = 5, V1 = -9 }
#[derive(Copy, Clone, EnumLike)] pub enum e_t1 { V0(A) }
#[derive(Copy, Clone, EnumLike)] pub enum e_t2 { V0(B, D) }
#[derive(Copy, Clone, EnumLike)] pub enum e_n1 { V0 { z: B } }
#[derive(Copy, Clone, EnumLike)] pub enum e_n2 { V0 { z: C, a: A } }
#[derive(Copy, Clone, EnumLike)] pub enum e_t3 { V0(A, B, C) }
#[derive(Copy, Clone, EnumLike)] pub enum e_u_t1 { V0, V1(D) }
#[derive(Copy, Clone, EnumLike)] pub enum e_u_t2 { V0, V1(B, C) }
#[derive(Copy, Clone, EnumLike)] pub enum e_u_n1 { V0, V1 { z: A } }
#[derive(Copy, Clone, EnumLike)] pub enum e_u_n2 { V0, V1 { z: D, a: C } }
#[derive(Copy, Clone, EnumLike)] pub enum e_u_t3 { V0, V1(D, A, B) }
#[derive(Copy, Clone, EnumLike)] pub enum e_t1_u { V0(D), V1 }
#[derive(Copy, Clone, EnumLike)] pub enum e_t1_t1 { V0(B), V1(C) }
#[derive(Copy, Clone, EnumLike)] pub enum e_t1_t2 { V0(A), V1(A, B) }
#[derive(Copy, Clone, EnumLike)] pub enum e_t1_n1 { V0(C), V1 { z: D } }
#[derive(Copy, Clone, EnumLike)] pub enum e_t1_n2 { V0(B), V1 { z: C, a: A } }
#[derive(Copy, Clone, EnumLike)] pub enum e_t1_t3 { V0(D), V1(C, D, A) }
#[derive(Copy, Clone, EnumLike)] pub enum e_t2_u { V0(B, D), V1 }
#[derive(Copy, Clone, EnumLike)] pub enum e_t2_t1 { V0(B, C), V1(A) }
#[derive(Copy, Clone, EnumLike)] pub enum e_t2_t2 { V0(A, B), V1(C, D) }
#[derive(Copy, Clone, EnumLike)] pub enum e_t2_n1 { V0(B, C), V1 { z: A } }
#[derive(Copy, Clone, EnumLike)] pub enum e_t2_n2 { V0(D, C), V1 { z: D, a: A } }
#[derive(Copy, Clone, EnumLike)] pub enum e_t2_t3 { V0(B, D), V1(B, C, A) }
#[derive(Copy, Clone, EnumLike)] pub enum e_n1_u { V0 { z: A }, V1 }
#[derive(Copy, Clone, EnumLike)] pub enum e_n1_t1 { V0 { z: B }, V1(C) }
#[derive(Copy, Clone, EnumLike)] pub enum e_n1_t2 { V0 { z: D }, V1(B, C) }
#[derive(Copy, Clone, EnumLike)] pub enum e_n1_n1 { V0 { z: A }, V1 { z: D } }
#[derive(Copy, Clone, EnumLike)] pub enum e_n1_n2 { V0 { z: C }, V1 { z: D, a: A } }
#[derive(Copy, Clone, EnumLike)] pub enum e_n1_t3 { V0 { z: B }, V1(D, B, C) }
#[derive(Copy, Clone, EnumLike)] pub enum e_n2_u { V0 { z: A, a: A }, V1 }
#[derive(Copy, Clone, EnumLike)] pub enum e_n2_t1 { V0 { z: B, a: C }, V1(D) }
#[derive(Copy, Clone, EnumLike)] pub enum e_n2_t2 { V0 { z: B, a: C }, V1(A, D) }
#[derive(Copy, Clone, EnumLike)] pub enum e_n2_n1 { V0 { z: C, a: D }, V1 { z: A } }
#[derive(Copy, Clone, EnumLike)] pub enum e_n2_n2 { V0 { z: B, a: D }, V1 { z: B, a: C } }
#[derive(Copy, Clone, EnumLike)] pub enum e_n2_t3 { V0 { z: A, a: A }, V1(B, C, D) }
#[derive(Copy, Clone, EnumLike)] pub enum e_t3_u { V0(B, C, A), V1 }
#[derive(Copy, Clone, EnumLike)] pub enum e_t3_t1 { V0(D, C, D), V1(A) }
#[derive(Copy, Clone, EnumLike)] pub enum e_t3_t2 { V0(B, D, B), V1(C, A) }
#[derive(Copy, Clone, EnumLike)] pub enum e_t3_n1 { V0(A, B, C), V1 { z: D } }
#[derive(Copy, Clone, EnumLike)] pub enum e_t3_n2 { V0(B, C, A), V1 { z: D, a: C } }
#[derive(Copy, Clone, EnumLike)] pub enum e_t3_t3 { V0(D, A, B), V1(D, B, C) }
#[derive(Copy, Clone, EnumLike)] pub enum e_u_u_t1 { V0, V1, V2(A) }
#[derive(Copy, Clone, EnumLike)] pub enum e_u_u_n2 { V0, V1, V2 { z: A, a: B } }
#[derive(Copy, Clone, EnumLike)] pub enum e_u_t1_u { V0, V1(C), V2 }
#[derive(Copy, Clone, EnumLike)] pub enum e_u_t1_t1 { V0, V1(D), V2(B) }
#[derive(Copy, Clone, EnumLike)] pub enum e_u_t1_n2 { V0, V1(C), V2 { z: A, a: D } }
#[derive(Copy, Clone, EnumLike)] pub enum e_u_n2_u { V0, V1 { z: C, a: D }, V2 }
#[derive(Copy, Clone, EnumLike)] pub enum e_u_n2_t1 { V0, V1 { z: A, a: B }, V2(D) }
#[derive(Copy, Clone, EnumLike)] pub enum e_u_n2_n2 { V0, V1 { z: B, a: C }, V2 { z: A, a: A } }
#[derive(Copy, Clone, EnumLike)] pub enum e_t1_u_u { V0(B), V1, V2 }
#[derive(Copy, Clone, EnumLike)] pub enum e_t1_u_t1 { V0(C), V1, V2(D) }
#[derive(Copy, Clone, EnumLike)] pub enum e_t1_u_n2 { V0(B), V1, V2 { z: C, a: A } }
#[derive(Copy, Clone, EnumLike)] pub enum e_t1_t1_u { V0(D), V1(C), V2 }
#[derive(Copy, Clone, EnumLike)] pub enum e_t1_t1_t1 { V0(D), V1(A), V2(B) }
#[derive(Copy, Clone, EnumLike)] pub enum e_t1_t1_n2 { V0(D), V1(B), V2 { z: C, a: A } }
#[derive(Copy, Clone, EnumLike)] pub enum e_t1_n2_u { V0(A), V1 { z: B, a: C }, V2 }
#[derive(Copy, Clone, EnumLike)] pub enum e_t1_n2_t1 { V0(D), V1 { z: B, a: C }, V2(A) }
#[derive(Copy, Clone, EnumLike)] pub enum e_t1_n2_n2 { V0(D), V1 { z: C, a: D }, V2 { z: A, a: B } }
#[derive(Copy, Clone, EnumLike)] pub enum e_n2_u_u { V0 { z: D, a: B }, V1, V2 }
#[derive(Copy, Clone, EnumLike)] pub enum e_n2_u_t1 { V0 { z: C, a: A }, V1, V2(A) }
#[derive(Copy, Clone, EnumLike)] pub enum e_n2_u_n2 { V0 { z: B, a: C }, V1, V2 { z: D, a: B } }
#[derive(Copy, Clone, EnumLike)] pub enum e_n2_t1_u { V0 { z: C, a: A }, V1(D), V2 }
#[derive(Copy, Clone, EnumLike)] pub enum e_n2_t1_t1 { V0 { z: C, a: D }, V1(A), V2(B) }
#[derive(Copy, Clone, EnumLike)] pub enum e_n2_t1_n2 { V0 { z: D, a: B }, V1(C), V2 { z: A, a: A } }
#[derive(Copy, Clone, EnumLike)] pub enum e_n2_n2_u { V0 { z: B, a: C }, V1 { z: D, a: B }, V2 }
#[derive(Copy, Clone, EnumLike)] pub enum e_n2_n2_t1 { V0 { z: C, a: A }, V1 { z: D, a: C }, V2(D) }
#[derive(Copy, Clone, EnumLike)] pub enum e_n2_n2_n2 { V0 { z: A, a: B }, V1 { z: D, a: B }, V2 { z: C, a: A } }
#[derive(Copy, Clone, EnumLike)] pub enum e_mix0 { V0, V1(A), V2, V3(B, C), V4, V5 { z: D, a: B } }
#[derive(Copy, Clone, EnumLike)] pub enum e_mix1 { V0(C, A), V1, V2 { z: D, a: C }, V3, V4(D), V5 }
#[derive(Copy, Clone, EnumLike)] pub enum e_mix2 { V0, V1, V2, V3(A) }
#[derive(Copy, Clone, EnumLike)] pub enum e_mix3 { V0(B), V1, V2, V3 }
#[derive(Copy, Clone, EnumLike)] pub enum e_mix4 { V0(D), V1(B), V2(C), V3(A), V4(A) }
#[derive(Copy, Clone, EnumLike)] pub enum e_mix5 { V0 { z: B, a: C, m: D }, V1, V2(B, C, A), V3 }
#[derive(Copy, Clone, EnumLike)] pub enum e_mix6 { V0(D, C, D, A), V1 { z: B, a: D, m: B, b: C } }
#[derive(Copy, Clone, EnumLike)] pub enum e_mix7 { V0, V1(A, A, B, C), V2, V3 { z: D, a: B, m: C, b: A }, V4 }
#[derive(Copy, Clone, EnumLike)] pub enum e_mix8 { V0(bool, D), V1, V2(bool, C) }
#[derive(Copy, Clone, EnumLike)] pub enum e_mix9 { V0(Option<D>, A), V1, V2(B) }
#[derive(Copy, Clone, EnumLike)] pub enum e_mix10 { V0 { z: D }, V1 { z: B, a: C }, V2 { z: A, a: A, m: B }, V3 { z: C, a: D, m: B, b: C } }
#[derive(Copy, Clone, EnumLike)] pub enum e_mix11 { V0(A), V1(D, C), V2(D, A, B), V3(D, B, C, A) }
#[derive(Copy, Clone, EnumLike)] pub enum e_mix12 { V0, V1(A), V2, V3(B), V4, V5(C), V6 }
#[derive(Copy, Clone, EnumLike)] pub enum e_mix13 { V0(D, B, C, A, D), V1 }
#[derive(Copy, Clone, EnumLike)] pub enum e_mix14 { V0 { z: C, a: D, m: A, b: B, y: D }, V1, V2(B) }
#[derive(Copy, Clone, EnumLike)] pub enum e_mix15 { V0, V1, V2(C), V3, V4, V5(A), V6, V7 }
#[derive(Copy, Clone, EnumLike)] pub struct g_s0<T>(T);
pub type g_s = g_s0<A>;
#[derive(Copy, Clone, EnumLike)] pub struct g_s20<T, U>(T, U, T);
pub type g_s2 = g_s20<A, B>;
#[derive(Copy, Clone, EnumLike)] pub struct g_n0<T, U> { a: U, b: T }
pub type g_n = g_n0<A, B>;
#[derive(Copy, Clone, EnumLike)] pub enum g_e0<T, U> { L(T), R(U) }
pub type g_e = g_e0<A, B>;
#[derive(Copy, Clone, EnumLike)] pub enum g_m0<T> { X, Y(T), Z, W { f: T, g: A } }
pub type g_m = g_m0<B>;
#[derive(Copy, Clone, EnumLike)] pub enum g_o0<T> { X(Option<T>), Y }
pub type g_o = g_o0<A>;
#[derive(Copy, Clone, EnumLike)] pub struct g_w0<T>(T, B) where T: Copy;
pub type g_w = g_w0<A>;
#[derive(Copy, Clone, EnumLike)] pub struct g_b0<T: Copy>(T, T);
pub type g_b = g_b0<A>;
#[derive(Copy, Clone, EnumLike)] pub enum n_in { P, Q(A) }
#[derive(Copy, Clone, EnumLike)] pub enum n_out { R(n_in), S, T { x: n_in, y: B } }
#[derive(Copy, Clone, EnumLike)] pub struct n_s { x: n_in, y: n_in }
#[derive(Copy, Clone, EnumLike)] pub struct s_t8(A, B, C, D, B, C, A, D);
#[derive(Copy, Clone, EnumLike)] pub struct s_t11(C, D, A, B, D, B, C, A, A, B, C);
#[derive(Copy, Clone, EnumLike)] pub struct s_n8 { z: D, a: B, m: C, b: A, y: D, c: C, x: D, d: A }
#[derive(Copy, Clone, EnumLike)] pub enum e_u64 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46, V47, V48, V49, V50, V51, V52, V53, V54, V55, V56, V57, V58, V59, V60, V61, V62, V63 }
#[derive(Copy, Clone, EnumLike)] pub enum e_u100 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46, V47, V48, V49, V50, V51, V52, V53, V54, V55, V56, V57, V58, V59, V60, V61, V62, V63, V64, V65, V66, V67, V68, V69, V70, V71, V72, V73, V74, V75, V76, V77, V78, V79, V80, V81, V82, V83, V84, V85, V86, V87, V88, V89, V90, V91, V92, V93, V94, V95, V96, V97, V98, V99 }
#[derive(Copy, Clone, EnumLike)] pub enum e_u257 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46, V47, V48, V49, V50, V51, V52, V53, V54, V55, V56, V57, V58, V59, V60, V61, V62, V63, V64, V65, V66, V67, V68, V69, V70, V71, V72, V73, V74, V75, V76, V77, V78, V79, V80, V81, V82, V83, V84, V85, V86, V87, V88, V89, V90, V91, V92, V93, V94, V95, V96, V97, V98, V99, V100, V101, V102, V103, V104, V105, V106, V107, V108, V109, V110, V111, V112, V113, V114, V115, V116, V117, V118, V119, V120, V121, V122, V123, V124, V125, V126, V127, V128, V129, V130, V131, V132, V133, V134, V135, V136, V137, V138, V139, V140, V141, V142, V143, V144, V145, V146, V147, V148, V149, V150, V151, V152, V153, V154, V155, V156, V157, V158, V159, V160, V161, V162, V163, V164, V165, V166, V167, V168, V169, V170, V171, V172, V173, V174, V175, V176, V177, V178, V179, V180, V181, V182, V183, V184, V185, V186, V187, V188, V189, V190, V191, V192, V193, V194, V195, V196, V197, V198, V199, V200, V201, V202, V203, V204, V205, V206, V207, V208, V209, V210, V211, V212, V213, V214, V215, V216, V217, V218, V219, V220, V221, V222, V223, V224, V225, V226, V227, V228, V229, V230, V231, V232, V233, V234, V235, V236, V237, V238, V239, V240, V241, V242, V243, V244, V245, V246, V247, V248, V249, V250, V251, V252, V253, V254, V255, V256 }
#[derive(Copy, Clone, EnumLike)] pub enum e_u300 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46, V47, V48, V49, V50, V51, V52, V53, V54, V55, V56, V57, V58, V59, V60, V61, V62, V63, V64, V65, V66, V67, V68, V69, V70, V71, V72, V73, V74, V75, V76, V77, V78, V79, V80, V81, V82, V83, V84, V85, V86, V87, V88, V89, V90, V91, V92, V93, V94, V95, V96, V97, V98, V99, V100, V101, V102, V103, V104, V105, V106, V107, V108, V109, V110, V111, V112, V113, V114, V115, V116, V117, V118, V119, V120, V121, V122, V123, V124, V125, V126, V127, V128, V129, V130, V131, V132, V133, V134, V135, V136, V137, V138, V139, V140, V141, V142, V143, V144, V145, V146, V147, V148, V149, V150, V151, V152, V153, V154, V155, V156, V157, V158, V159, V160, V161, V162, V163, V164, V165, V166, V167, V168, V169, V170, V171, V172, V173, V174, V175, V176, V177, V178, V179, V180, V181, V182, V183, V184, V185, V186, V187, V188, V189, V190, V191, V192, V193, V194, V195, V196, V197, V198, V199, V200, V201, V202, V203, V204, V205, V206, V207, V208, V209, V210, V211, V212, V213, V214, V215, V216, V217, V218, V219, V220, V221, V222, V223, V224, V225, V226, V227, V228, V229, V230, V231, V232, V233, V234, V235, V236, V237, V238, V239, V240, V241, V242, V243, V244, V245, V246, V247, V248, V249, V250, V251, V252, V253, V254, V255, V256, V257, V258, V259, V260, V261, V262, V263, V264, V265, V266, V267, V268, V269, V270, V271, V272, V273, V274, V275, V276, V277, V278, V279, V280, V281, V282, V283, V284, V285, V286, V287, V288, V289, V290, V291, V292, V293, V294, V295, V296, V297, V298, V299 }
#[derive(Copy, Clone, EnumLike)] pub enum e_d_up { V0 = 1, V1 = 2, V2 = 3, V3 = 10, V4 = 11 }
#[derive(Copy, Clone, EnumLike)] pub enum e_d_some { V0, V1 = 10, V2, V3 = -1 }
#[derive(Copy, Clone, EnumLike)] pub enum e_d_zero { V0 = 1, V1 = 0 }
#[derive(Copy, Clone, EnumLike)] pub enum e_big0 { V0(B, D, B, C, A, A), V1 }
#[derive(Copy, Clone, EnumLike)] pub enum e_big1 { V0 { z: B, a: C, m: D, b: B, y: C, c: A }, V1(D) }
#[derive(Copy, Clone, EnumLike)] pub enum e_big2 { V0, V1(C, D, A, B, D, B, C, A) }
#[derive(Copy, Clone, EnumLike)] pub enum e_big3 { V0(A), V1(B), V2(C), V3(D), V4(B), V5(C), V6(A), V7(D) }
#[derive(Copy, Clone, EnumLike)] pub enum e_big4 { V0 { z: C, a: D }, V1 { z: A, a: B }, V2 { z: D, a: B }, V3 { z: C, a: A }, V4 { z: A, a: B }, V5 { z: C, a: D }, V6 { z: B, a: C } }
#[derive(Copy, Clone, EnumLike)] pub enum e_big5 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20(A), V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40 }
#[derive(Copy, Clone, EnumLike)] pub enum e_big6 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46, V47, V48, V49, V50, V51, V52, V53, V54, V55, V56, V57, V58, V59, V60, V61, V62, V63, V64, V65, V66, V67, V68, V69, V70(D, C), V71, V72 { z: D } }
#[derive(Copy, Clone, EnumLike)] pub enum e_big7 { V0(A), V1, V2(B), V3, V4(D), V5, V6(B), V7, V8(C), V9, V10(A), V11 }
#[derive(Copy, Clone, EnumLike)] pub enum e_big8 { V0(A, B), V1(C, D), V2(B, C), V3(A, D) }
#[derive(Copy, Clone, EnumLike)] pub enum e_big9 { V0 { z: C, a: D, m: A }, V1 { z: B, a: D, m: B }, V2, V3 { z: C, a: A, m: A } }
#[derive(Copy, Clone, EnumLike)] pub enum e_big10 { V0(B, C, D), V1, V2, V3(B, C, A), V4, V5(D, C, D) }
#[derive(Copy, Clone, EnumLike)] pub enum e_big11 { V0(A), V1 { z: B }, V2(D, B), V3 { z: C, a: A }, V4(A, B, C), V5 { z: D, a: B, m: C }, V6 }
#[derive(Copy, Clone, EnumLike)] pub enum e_big12 { V0(bool, A), V1(bool, D), V2(bool, C) }
#[derive(Copy, Clone, EnumLike)] pub enum e_big13 { V0(Option<D>, A), V1(Option<B>, D), V2, V3(Option<B>, C) }
#[derive(Copy, Clone, EnumLike)] pub enum m_x { X { x: A, value: B }, Y { x0: A, x1: B, x: C }, Z(A), U }
#[derive(Copy, Clone, EnumLike)] pub struct m_value { value: A, x: B, offset: C }
#[derive(Copy, Clone, EnumLike)] pub enum m_tuple { x0(A, B), x1, Self_(B) }
#[derive(Copy, Clone, EnumLike)] pub enum m_some { None, Some(A), Ok(B), Err { f: A } }
#[derive(Copy, Clone, EnumLike)] #[repr(u8)] pub enum m_repr { V0 = 3, V1 = 1, V2 }
#[derive(Copy, Clone, EnumLike)] #[doc = "d"] pub enum m_doc { #[doc = "a"] V0, #[doc = "b"] V1(#[doc = "c"] A), V2 { #[doc = "e"] f: B } }
#[derive(Copy, Clone, EnumLike)] pub struct m_pub(pub A, pub(crate) B, C);
#[derive(Copy, Clone, EnumLike)] pub struct m_path { a: super::marker::A, b: ::std::option::Option<super::marker::B>, c: self::n_in }
#[derive(Copy, Clone, EnumLike)] pub enum m_units { V0(()), V1((), A), V2 { f: (), g: () }, V3 }
#[derive(Copy, Clone, EnumLike)] pub enum m_arrays { V0([A; 3]), V1 { f: [B; 2], g: (A, [bool; 2]) }, V2 }
#[derive(Copy, Clone, EnumLike)] pub enum g_we0<T, U> where T: Copy, U: Copy { V0(T), V1, V2 { f: U, g: T } }
pub type g_we = g_we0<A, B>;
#[derive(Copy, Clone, EnumLike)] pub struct g_four0<T, U, V, W>(T, U, V, W);
pub type g_four = g_four0<A, B, C, D>;
#[derive(Copy, Clone, EnumLike)] pub enum g_bounds0<T: Copy + ::std::marker::Copy, U> { L(T), M, R { a: U, b: Option<T> } }
pub type g_bounds = g_bounds0<A, B>;
#[derive(Copy, Clone, EnumLike)] pub struct g_wt0<T>(T, B) where T: Own;
pub type g_wt = g_wt0<A>;
#[derive(Copy, Clone, EnumLike)] pub struct g_bt0<T: Own, U: Own + Copy> { a: U, b: T }
pub type g_bt = g_bt0<A, B>;
#[derive(Copy, Clone, EnumLike)] pub enum g_wet0<T, U> where T: Own, Option<U>: Copy, U: Own { X(T), Y, Z { f: U, g: T } }
pub type g_wet = g_wet0<A, B>;
#[derive(Copy, Clone, EnumLike)] pub struct g_def0<T, U: Own = B>(T, U);
pub type g_def = g_def0<A>;
