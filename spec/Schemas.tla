------------------------------ MODULE Schemas ------------------------------
(* Generated by gen/schema.py: the types the conformance runs range over.     *)
EXTENDS Util

T_u8 == [k |-> "int", sg |-> FALSE, b |-> 1, lo |-> C("0"), hi |-> C("255"), smp |-> <<C("42"), C("255"), C("0"), C("1"), C("9"), C("10"), C("127"), C("128"), C("254")>>]
T_u16 == [k |-> "int", sg |-> FALSE, b |-> 2, lo |-> C("0"), hi |-> C("65535"), smp |-> <<C("42"), C("65535"), C("0"), C("255"), C("256"), C("1"), C("9"), C("10"), C("127"), C("128"), C("65534")>>]
T_u32 == [k |-> "int", sg |-> FALSE, b |-> 4, lo |-> C("0"), hi |-> C("4294967295"), smp |-> <<C("42"), C("4294967295"), C("0"), C("255"), C("256"), C("1"), C("9"), C("10"), C("127"), C("128"), C("65535"), C("65536"), C("16909060"), C("2147483647"), C("2147483648"), C("4294967294")>>]
T_u64 == [k |-> "int", sg |-> FALSE, b |-> 8, lo |-> C("0"), hi |-> C("18446744073709551615"), smp |-> <<C("42"), C("18446744073709551615"), C("0"), C("255"), C("256"), C("1"), C("9"), C("10"), C("127"), C("128"), C("65535"), C("65536"), C("16909060"), C("2147483647"), C("2147483648"), C("4294967295"), C("9007199254740992"), C("9007199254740993"), C("72623859790382856"), C("9223372036854775807"), C("9223372036854775808"), C("18446744073709551614")>>]
T_usize == [k |-> "int", sg |-> FALSE, b |-> 8, lo |-> C("0"), hi |-> C("18446744073709551615"), smp |-> <<C("42"), C("18446744073709551615"), C("0"), C("255"), C("256"), C("1"), C("9"), C("10"), C("127"), C("128"), C("65535"), C("65536"), C("16909060"), C("2147483647"), C("2147483648"), C("4294967295"), C("9007199254740992"), C("9007199254740993"), C("72623859790382856"), C("9223372036854775807"), C("9223372036854775808"), C("18446744073709551614")>>]
T_i8 == [k |-> "int", sg |-> TRUE, b |-> 1, lo |-> C("-128"), hi |-> C("127"), smp |-> <<C("42"), C("127"), C("-128"), C("-1"), C("0"), C("1"), C("9"), C("10"), C("126"), C("-127")>>]
T_i16 == [k |-> "int", sg |-> TRUE, b |-> 2, lo |-> C("-32768"), hi |-> C("32767"), smp |-> <<C("42"), C("32767"), C("-32768"), C("255"), C("-1"), C("256"), C("0"), C("1"), C("9"), C("10"), C("127"), C("128"), C("-128"), C("-129"), C("32766"), C("-32767")>>]
T_i32 == [k |-> "int", sg |-> TRUE, b |-> 4, lo |-> C("-2147483648"), hi |-> C("2147483647"), smp |-> <<C("42"), C("2147483647"), C("-2147483648"), C("255"), C("-1"), C("256"), C("0"), C("1"), C("9"), C("10"), C("127"), C("128"), C("-128"), C("-129"), C("-32769"), C("65535"), C("65536"), C("16909060"), C("2147483646"), C("-2147483647")>>]
T_i64 == [k |-> "int", sg |-> TRUE, b |-> 8, lo |-> C("-9223372036854775808"), hi |-> C("9223372036854775807"), smp |-> <<C("42"), C("9223372036854775807"), C("-9223372036854775808"), C("255"), C("-1"), C("256"), C("0"), C("1"), C("9"), C("10"), C("127"), C("128"), C("-128"), C("-129"), C("-32769"), C("65535"), C("65536"), C("16909060"), C("2147483647"), C("2147483648"), C("-2147483648"), C("-2147483649"), C("4294967295"), C("9007199254740992"), C("9007199254740993"), C("-9007199254740993"), C("72623859790382856"), C("9223372036854775806"), C("-9223372036854775807")>>]
T_u128 == [k |-> "int", sg |-> FALSE, b |-> 16, lo |-> C("0"), hi |-> C("340282366920938463463374607431768211455"), smp |-> <<C("42"), C("340282366920938463463374607431768211455"), C("0"), C("255"), C("256"), C("1"), C("9"), C("10"), C("127"), C("128"), C("65535"), C("65536"), C("16909060"), C("2147483647"), C("2147483648"), C("4294967295"), C("9007199254740992"), C("9007199254740993"), C("72623859790382856"), C("9223372036854775807"), C("9223372036854775808"), C("340282366920938463463374607431768211454")>>]
T_i128 == [k |-> "int", sg |-> TRUE, b |-> 16, lo |-> C("-170141183460469231731687303715884105728"), hi |-> C("170141183460469231731687303715884105727"), smp |-> <<C("42"), C("170141183460469231731687303715884105727"), C("-170141183460469231731687303715884105728"), C("255"), C("-1"), C("256"), C("0"), C("1"), C("9"), C("10"), C("127"), C("128"), C("-128"), C("-129"), C("-32769"), C("65535"), C("65536"), C("16909060"), C("2147483647"), C("2147483648"), C("-2147483648"), C("-2147483649"), C("4294967295"), C("9007199254740992"), C("9007199254740993"), C("-9007199254740993"), C("72623859790382856"), C("9223372036854775807"), C("9223372036854775808"), C("170141183460469231731687303715884105726"), C("-170141183460469231731687303715884105727")>>]
T_f32 == [k |-> "flt", b |-> 4, smp |-> <<C("1.5"), C("-0.0"), C("3.4028235e38"), C("7.038531e-26"), C("0.1"), C("0.0"), C("1.0"), C("-1.0"), C("100000.0"), C("1e16"), C("1e-45"), C("1.1754944e-38"), C("16777216.0"), C("0.3"), C("1e-7"), C("-2.7182817")>>]
T_f64 == [k |-> "flt", b |-> 8, smp |-> <<C("1.5"), C("-0.0"), C("1.7976931348623157e308"), C("0.1"), C("0.0"), C("1.0"), C("-1.0"), C("100000.0"), C("1e16"), C("1e21"), C("5e-324"), C("2.2250738585072014e-308"), C("1e-7"), C("123456789.125"), C("9007199254740993.0"), C("-3.141592653589793"), C("0.30000000000000004"), C("18446744073709551616.0"), C("1e-5")>>]
T_bool == [k |-> "bool"]
T_String == [k |-> "str", smp |-> <<C("hello"), <<>>, <<97, 34, 98, 92, 99, 47, 100>>, <<128512, 233>>, C("a"), C("null"), C(" "), <<34>>, <<92>>, C("/"), <<10, 13, 9, 8, 12>>, <<0, 1, 31, 127>>, <<128, 159, 233>>, <<8364, 2047, 2048, 65535, 65279, 8232, 55295, 57344>>, <<128512, 65536, 1114111>>, <<92, 117, 48, 48, 52, 49>>, C("true"), C("None"), C("{}[](),:"), C("//x"), C("/*y*/"), C("'"), C("0"), <<92, 110>>, C("xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx"), <<116, 97, 98, 9, 104, 101, 114, 101>>, <<233, 233, 233, 233, 233>>>>]
T_unit == [k |-> "unit"]
T_dur == [k |-> "dur"]
T_sys == [k |-> "sys"]

T_Unit1 == [k |-> "tstruct", tr |-> FALSE, ts |-> <<>>, ws |-> <<>>, px |-> <<>>]
T_Plain == [k |-> "struct", fs |-> <<[f |-> C("a"), j |-> C("a"), t |-> T_u8, w |-> T_u8, px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("b"), j |-> C("b"), t |-> T_String, w |-> T_String, px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("c"), j |-> C("c"), t |-> T_i32, w |-> T_i32, px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE]>>]
T_Keyed == [k |-> "struct", fs |-> <<[f |-> C("x"), j |-> C("x"), t |-> T_u8, w |-> T_u8, px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("y"), j |-> C("y"), t |-> T_i16, w |-> T_i16, px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE]>>]
T_AllPrim == [k |-> "struct", fs |-> <<[f |-> C("a"), j |-> C("a"), t |-> T_u8, w |-> T_u8, px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("b"), j |-> C("b"), t |-> T_u16, w |-> T_u16, px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("c"), j |-> C("c"), t |-> T_u32, w |-> T_u32, px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("d"), j |-> C("d"), t |-> T_u64, w |-> T_u64, px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("e"), j |-> C("e"), t |-> T_usize, w |-> T_usize, px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("f"), j |-> C("f"), t |-> T_i8, w |-> T_i8, px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("g"), j |-> C("g"), t |-> T_i16, w |-> T_i16, px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("h"), j |-> C("h"), t |-> T_i32, w |-> T_i32, px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("i"), j |-> C("i"), t |-> T_i64, w |-> T_i64, px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("j"), j |-> C("j"), t |-> T_f32, w |-> T_f32, px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("k"), j |-> C("k"), t |-> T_f64, w |-> T_f64, px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("l"), j |-> C("l"), t |-> T_bool, w |-> T_bool, px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("m"), j |-> C("m"), t |-> T_String, w |-> T_String, px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("n"), j |-> C("n"), t |-> T_unit, w |-> T_unit, px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE]>>]
T_Wide == [k |-> "struct", fs |-> <<[f |-> C("big"), j |-> C("big"), t |-> T_u128, w |-> T_u128, px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("neg"), j |-> C("neg"), t |-> T_i128, w |-> T_i128, px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("t"), j |-> C("t"), t |-> [k |-> "tup", ts |-> <<T_u128, T_u8>>], w |-> [k |-> "tup", ts |-> <<T_u128, T_u8>>], px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE]>>]
T_Empty == [k |-> "struct", fs |-> <<>>]
T_Opts == [k |-> "struct", fs |-> <<[f |-> C("a"), j |-> C("a"), t |-> [k |-> "opt", t |-> T_u8], w |-> [k |-> "opt", t |-> T_u8], px |-> "", o |-> TRUE, jm |-> <<"def", <<"none">>>>, rm |-> <<"def", <<"none">>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("b"), j |-> C("b"), t |-> [k |-> "opt", t |-> T_String], w |-> [k |-> "opt", t |-> T_String], px |-> "", o |-> TRUE, jm |-> <<"def", <<"none">>>>, rm |-> <<"def", <<"none">>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("c"), j |-> C("c"), t |-> T_u8, w |-> T_u8, px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("d"), j |-> C("d"), t |-> [k |-> "opt", t |-> [k |-> "seq", t |-> T_u8]], w |-> [k |-> "opt", t |-> [k |-> "seq", t |-> T_u8]], px |-> "", o |-> TRUE, jm |-> <<"def", <<"none">>>>, rm |-> <<"def", <<"none">>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE]>>]
T_AllOpt == [k |-> "struct", fs |-> <<[f |-> C("a"), j |-> C("a"), t |-> [k |-> "opt", t |-> T_u8], w |-> [k |-> "opt", t |-> T_u8], px |-> "", o |-> TRUE, jm |-> <<"def", <<"none">>>>, rm |-> <<"def", <<"none">>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("b"), j |-> C("b"), t |-> [k |-> "opt", t |-> T_bool], w |-> [k |-> "opt", t |-> T_bool], px |-> "", o |-> TRUE, jm |-> <<"def", <<"none">>>>, rm |-> <<"def", <<"none">>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE]>>]
T_Ren == [k |-> "struct", fs |-> <<[f |-> C("a"), j |-> C("b"), t |-> T_u8, w |-> T_u8, px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("b"), j |-> C("c"), t |-> T_u8, w |-> T_u8, px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("c"), j |-> C("fooBar"), t |-> [k |-> "opt", t |-> T_u8], w |-> [k |-> "opt", t |-> T_u8], px |-> "", o |-> TRUE, jm |-> <<"def", <<"none">>>>, rm |-> <<"def", <<"none">>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("d"), j |-> C("D"), t |-> T_String, w |-> T_String, px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE]>>]
T_RenEsc == [k |-> "struct", fs |-> <<[f |-> C("a"), j |-> C("a b"), t |-> T_u8, w |-> T_u8, px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("b"), j |-> <<113, 34, 113>>, t |-> T_u8, w |-> T_u8, px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("c"), j |-> <<92>>, t |-> T_u8, w |-> T_u8, px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("d"), j |-> <<233, 8364>>, t |-> [k |-> "opt", t |-> T_u8], w |-> [k |-> "opt", t |-> T_u8], px |-> "", o |-> TRUE, jm |-> <<"def", <<"none">>>>, rm |-> <<"def", <<"none">>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE]>>]
T_Def == [k |-> "struct", fs |-> <<[f |-> C("a"), j |-> C("a"), t |-> T_u8, w |-> T_u8, px |-> "", o |-> FALSE, jm |-> <<"def", <<"int", C("0")>>>>, rm |-> <<"def", <<"int", C("0")>>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("b"), j |-> C("b"), t |-> T_u16, w |-> T_u16, px |-> "", o |-> FALSE, jm |-> <<"def", <<"int", C("513")>>>>, rm |-> <<"def", <<"int", C("513")>>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("c"), j |-> C("c"), t |-> T_String, w |-> T_String, px |-> "", o |-> FALSE, jm |-> <<"def", <<"str", C("hi there")>>>>, rm |-> <<"def", <<"str", C("hi there")>>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("d"), j |-> C("d"), t |-> T_i32, w |-> T_i32, px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("e"), j |-> C("e"), t |-> [k |-> "seq", t |-> T_u8], w |-> [k |-> "seq", t |-> T_u8], px |-> "", o |-> FALSE, jm |-> <<"def", <<"seq", <<<<"int", C("7")>>, <<"int", C("9")>>>>>>>>, rm |-> <<"def", <<"seq", <<<<"int", C("7")>>, <<"int", C("9")>>>>>>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("f"), j |-> C("f"), t |-> T_i64, w |-> T_i64, px |-> "", o |-> FALSE, jm |-> <<"def", <<"int", C("-5")>>>>, rm |-> <<"def", <<"int", C("-5")>>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE]>>]
T_DefOpt == [k |-> "struct", fs |-> <<[f |-> C("a"), j |-> C("a"), t |-> [k |-> "opt", t |-> T_u8], w |-> [k |-> "opt", t |-> T_u8], px |-> "", o |-> TRUE, jm |-> <<"def", <<"some", <<"int", C("3")>>>>>>, rm |-> <<"def", <<"some", <<"int", C("3")>>>>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("b"), j |-> C("b"), t |-> [k |-> "opt", t |-> T_String], w |-> [k |-> "opt", t |-> T_String], px |-> "", o |-> TRUE, jm |-> <<"def", <<"none">>>>, rm |-> <<"def", <<"none">>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("c"), j |-> C("c"), t |-> [k |-> "opt", t |-> T_u8], w |-> [k |-> "opt", t |-> T_u8], px |-> "", o |-> TRUE, jm |-> <<"def", <<"some", <<"int", C("8")>>>>>>, rm |-> <<"def", <<"some", <<"int", C("8")>>>>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("d"), j |-> C("d"), t |-> T_u8, w |-> T_u8, px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE]>>]
T_DefOptS == [k |-> "struct", fs |-> <<[f |-> C("a"), j |-> C("a"), t |-> [k |-> "opt", t |-> T_String], w |-> [k |-> "opt", t |-> T_String], px |-> "", o |-> TRUE, jm |-> <<"def", <<"some", <<"str", C("str")>>>>>>, rm |-> <<"def", <<"some", <<"str", C("str")>>>>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("d"), j |-> C("d"), t |-> T_u8, w |-> T_u8, px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE]>>]
T_CDef == [k |-> "struct", fs |-> <<[f |-> C("a"), j |-> C("a"), t |-> T_u8, w |-> T_u8, px |-> "", o |-> FALSE, jm |-> <<"def", <<"int", C("0")>>>>, rm |-> <<"def", <<"int", C("0")>>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("b"), j |-> C("b"), t |-> T_String, w |-> T_String, px |-> "", o |-> FALSE, jm |-> <<"def", <<"str", <<>>>>>>, rm |-> <<"def", <<"str", <<>>>>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("c"), j |-> C("c"), t |-> [k |-> "opt", t |-> T_u8], w |-> [k |-> "opt", t |-> T_u8], px |-> "", o |-> TRUE, jm |-> <<"def", <<"none">>>>, rm |-> <<"def", <<"none">>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("d"), j |-> C("d"), t |-> T_Plain, w |-> T_Plain, px |-> "", o |-> FALSE, jm |-> <<"def", <<"rec", <<<<"int", C("0")>>, <<"str", <<>>>>, <<"int", C("0")>>>>>>>>, rm |-> <<"def", <<"rec", <<<<"int", C("0")>>, <<"str", <<>>>>, <<"int", C("0")>>>>>>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("e"), j |-> C("e"), t |-> T_u16, w |-> T_u16, px |-> "", o |-> FALSE, jm |-> <<"def", <<"int", C("77")>>>>, rm |-> <<"def", <<"int", C("77")>>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE]>>]
T_CDefW == [k |-> "struct", fs |-> <<[f |-> C("a"), j |-> C("a"), t |-> T_u8, w |-> T_u8, px |-> "", o |-> FALSE, jm |-> <<"def", <<"int", C("0")>>>>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("b"), j |-> C("b"), t |-> [k |-> "seq", t |-> T_String], w |-> [k |-> "seq", t |-> T_String], px |-> "", o |-> FALSE, jm |-> <<"def", <<"seq", <<>>>>>>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("c"), j |-> C("c"), t |-> T_i16, w |-> T_i16, px |-> "", o |-> FALSE, jm |-> <<"def", <<"int", C("-300")>>>>, rm |-> <<"def", <<"int", C("-300")>>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE]>>]
T_Skip == [k |-> "struct", fs |-> <<[f |-> C("a"), j |-> C("a"), t |-> T_u8, w |-> T_u8, px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("b"), j |-> C("b"), t |-> T_u16, w |-> T_u16, px |-> "", o |-> FALSE, jm |-> <<"def", <<"int", C("0")>>>>, rm |-> <<"def", <<"int", C("0")>>>>, s |-> TRUE, sv |-> <<"int", C("0")>>, bv |-> <<"int", C("0")>>, nn |-> FALSE],
      [f |-> C("c"), j |-> C("c"), t |-> T_String, w |-> T_String, px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("d"), j |-> C("d"), t |-> T_String, w |-> T_String, px |-> "", o |-> FALSE, jm |-> <<"def", <<"str", C("dd")>>>>, rm |-> <<"def", <<"str", C("dd")>>>>, s |-> TRUE, sv |-> <<"str", C("dd")>>, bv |-> <<"str", <<>>>>, nn |-> FALSE],
      [f |-> C("e"), j |-> C("e"), t |-> [k |-> "opt", t |-> T_u8], w |-> [k |-> "opt", t |-> T_u8], px |-> "", o |-> TRUE, jm |-> <<"def", <<"none">>>>, rm |-> <<"def", <<"none">>>>, s |-> TRUE, sv |-> <<"none">>, bv |-> <<"none">>, nn |-> FALSE],
      [f |-> C("g"), j |-> C("g"), t |-> T_u8, w |-> T_u8, px |-> "", o |-> FALSE, jm |-> <<"def", <<"int", C("211")>>>>, rm |-> <<"def", <<"int", C("211")>>>>, s |-> TRUE, sv |-> <<"int", C("211")>>, bv |-> <<"int", C("0")>>, nn |-> FALSE],
      [f |-> C("h"), j |-> C("h"), t |-> [k |-> "opt", t |-> T_u8], w |-> [k |-> "opt", t |-> T_u8], px |-> "", o |-> TRUE, jm |-> <<"def", <<"none">>>>, rm |-> <<"def", <<"none">>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE]>>]
T_SkipFirst == [k |-> "struct", fs |-> <<[f |-> C("a"), j |-> C("a"), t |-> T_u8, w |-> T_u8, px |-> "", o |-> FALSE, jm |-> <<"def", <<"int", C("0")>>>>, rm |-> <<"def", <<"int", C("0")>>>>, s |-> TRUE, sv |-> <<"int", C("0")>>, bv |-> <<"int", C("0")>>, nn |-> FALSE],
      [f |-> C("b"), j |-> C("b"), t |-> [k |-> "opt", t |-> T_u8], w |-> [k |-> "opt", t |-> T_u8], px |-> "", o |-> TRUE, jm |-> <<"def", <<"none">>>>, rm |-> <<"def", <<"none">>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("c"), j |-> C("c"), t |-> T_u8, w |-> T_u8, px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE]>>]
T_SkipAll == [k |-> "struct", fs |-> <<[f |-> C("a"), j |-> C("a"), t |-> T_u8, w |-> T_u8, px |-> "", o |-> FALSE, jm |-> <<"def", <<"int", C("0")>>>>, rm |-> <<"def", <<"int", C("0")>>>>, s |-> TRUE, sv |-> <<"int", C("0")>>, bv |-> <<"int", C("0")>>, nn |-> FALSE],
      [f |-> C("b"), j |-> C("b"), t |-> T_String, w |-> T_String, px |-> "", o |-> FALSE, jm |-> <<"def", <<"str", <<>>>>>>, rm |-> <<"def", <<"str", <<>>>>>>, s |-> TRUE, sv |-> <<"str", <<>>>>, bv |-> <<"str", <<>>>>, nn |-> FALSE]>>]
T_Nulls == [k |-> "struct", fs |-> <<[f |-> C("a"), j |-> C("a"), t |-> [k |-> "opt", t |-> T_u8], w |-> [k |-> "opt", t |-> T_u8], px |-> "", o |-> TRUE, jm |-> <<"def", <<"none">>>>, rm |-> <<"def", <<"none">>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> TRUE],
      [f |-> C("b"), j |-> C("b"), t |-> [k |-> "opt", t |-> T_u8], w |-> [k |-> "opt", t |-> T_u8], px |-> "", o |-> TRUE, jm |-> <<"def", <<"none">>>>, rm |-> <<"def", <<"none">>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("c"), j |-> C("c"), t |-> [k |-> "opt", t |-> T_String], w |-> [k |-> "opt", t |-> T_String], px |-> "", o |-> TRUE, jm |-> <<"def", <<"none">>>>, rm |-> <<"def", <<"none">>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> TRUE],
      [f |-> C("d"), j |-> C("d"), t |-> T_u8, w |-> T_u8, px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE]>>]
T_CNulls == [k |-> "struct", fs |-> <<[f |-> C("a"), j |-> C("a"), t |-> [k |-> "opt", t |-> T_u8], w |-> [k |-> "opt", t |-> T_u8], px |-> "", o |-> TRUE, jm |-> <<"def", <<"none">>>>, rm |-> <<"def", <<"none">>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> TRUE],
      [f |-> C("b"), j |-> C("b"), t |-> [k |-> "opt", t |-> T_String], w |-> [k |-> "opt", t |-> T_String], px |-> "", o |-> TRUE, jm |-> <<"def", <<"none">>>>, rm |-> <<"def", <<"none">>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> TRUE],
      [f |-> C("c"), j |-> C("c"), t |-> T_u8, w |-> T_u8, px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE]>>]
T_RenSkip == [k |-> "struct", fs |-> <<[f |-> C("a"), j |-> C("x"), t |-> T_u8, w |-> T_u8, px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("x"), j |-> C("x"), t |-> T_u8, w |-> T_u8, px |-> "", o |-> FALSE, jm |-> <<"def", <<"int", C("0")>>>>, rm |-> <<"def", <<"int", C("0")>>>>, s |-> TRUE, sv |-> <<"int", C("0")>>, bv |-> <<"int", C("0")>>, nn |-> FALSE],
      [f |-> C("y"), j |-> C("a"), t |-> [k |-> "opt", t |-> T_u8], w |-> [k |-> "opt", t |-> T_u8], px |-> "", o |-> TRUE, jm |-> <<"def", <<"none">>>>, rm |-> <<"def", <<"none">>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("z"), j |-> C("w"), t |-> T_u8, w |-> T_u8, px |-> "", o |-> FALSE, jm |-> <<"def", <<"int", C("9")>>>>, rm |-> <<"def", <<"int", C("9")>>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE]>>]
T_Nest == [k |-> "struct", fs |-> <<[f |-> C("p"), j |-> C("p"), t |-> T_Plain, w |-> T_Plain, px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("o"), j |-> C("o"), t |-> [k |-> "opt", t |-> T_Opts], w |-> [k |-> "opt", t |-> T_Opts], px |-> "", o |-> TRUE, jm |-> <<"def", <<"none">>>>, rm |-> <<"def", <<"none">>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("v"), j |-> C("v"), t |-> [k |-> "seq", t |-> T_Plain], w |-> [k |-> "seq", t |-> T_Plain], px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("m"), j |-> C("m"), t |-> [k |-> "map", h |-> FALSE, kt |-> T_String, vt |-> T_Plain], w |-> [k |-> "map", h |-> FALSE, kt |-> T_String, vt |-> T_Plain], px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("t"), j |-> C("t"), t |-> [k |-> "tup", ts |-> <<T_Plain, T_u8>>], w |-> [k |-> "tup", ts |-> <<T_Plain, T_u8>>], px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("r"), j |-> C("r"), t |-> [k |-> "arr", n |-> 2, t |-> T_AllOpt], w |-> [k |-> "arr", n |-> 2, t |-> T_AllOpt], px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE]>>]
T_Colls == [k |-> "struct", fs |-> <<[f |-> C("a"), j |-> C("a"), t |-> [k |-> "seq", t |-> T_u16], w |-> [k |-> "seq", t |-> T_u16], px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("b"), j |-> C("b"), t |-> [k |-> "seq", t |-> T_String], w |-> [k |-> "seq", t |-> T_String], px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("c"), j |-> C("c"), t |-> [k |-> "set", h |-> FALSE, t |-> T_u8], w |-> [k |-> "set", h |-> FALSE, t |-> T_u8], px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("d"), j |-> C("d"), t |-> [k |-> "map", h |-> FALSE, kt |-> T_String, vt |-> T_i32], w |-> [k |-> "map", h |-> FALSE, kt |-> T_String, vt |-> T_i32], px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("e"), j |-> C("e"), t |-> [k |-> "arr", n |-> 2, t |-> T_u8], w |-> [k |-> "arr", n |-> 2, t |-> T_u8], px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("f"), j |-> C("f"), t |-> [k |-> "tup", ts |-> <<T_bool, T_f64>>], w |-> [k |-> "tup", ts |-> <<T_bool, T_f64>>], px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("g"), j |-> C("g"), t |-> T_u8, w |-> T_u8, px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE]>>]
T_HColls == [k |-> "struct", fs |-> <<[f |-> C("a"), j |-> C("a"), t |-> [k |-> "set", h |-> TRUE, t |-> T_u8], w |-> [k |-> "set", h |-> TRUE, t |-> T_u8], px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("b"), j |-> C("b"), t |-> [k |-> "map", h |-> TRUE, kt |-> T_String, vt |-> T_u8], w |-> [k |-> "map", h |-> TRUE, kt |-> T_String, vt |-> T_u8], px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE]>>]
T_Times == [k |-> "struct", fs |-> <<[f |-> C("d"), j |-> C("d"), t |-> T_dur, w |-> T_dur, px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("o"), j |-> C("o"), t |-> [k |-> "opt", t |-> T_dur], w |-> [k |-> "opt", t |-> T_dur], px |-> "", o |-> TRUE, jm |-> <<"def", <<"none">>>>, rm |-> <<"def", <<"none">>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("v"), j |-> C("v"), t |-> [k |-> "seq", t |-> T_dur], w |-> [k |-> "seq", t |-> T_dur], px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE]>>]
T_Under == [k |-> "struct", fs |-> <<[f |-> C("_a"), j |-> C("_a"), t |-> T_u8, w |-> T_u8, px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("a_b"), j |-> C("a_b"), t |-> T_u8, w |-> T_u8, px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("a1"), j |-> C("a_1"), t |-> T_u8, w |-> T_u8, px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("type_"), j |-> C("type"), t |-> T_String, w |-> T_String, px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE]>>]
T_One == [k |-> "struct", fs |-> <<[f |-> C("only"), j |-> C("only"), t |-> T_String, w |-> T_String, px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE]>>]
T_Tree == [k |-> "struct", fs |-> <<[f |-> C("v"), j |-> C("v"), t |-> T_u8, w |-> T_u8, px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("kids"), j |-> C("kids"), t |-> [k |-> "seq", t |-> [k |-> "ref", n |-> "Tree"]], w |-> [k |-> "seq", t |-> [k |-> "ref", n |-> "Tree"]], px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE]>>]
T_Chain == [k |-> "struct", fs |-> <<[f |-> C("v"), j |-> C("v"), t |-> T_u8, w |-> T_u8, px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("next"), j |-> C("next"), t |-> [k |-> "opt", t |-> [k |-> "ref", n |-> "Chain"]], w |-> [k |-> "opt", t |-> [k |-> "ref", n |-> "Chain"]], px |-> "", o |-> TRUE, jm |-> <<"def", <<"none">>>>, rm |-> <<"def", <<"none">>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE]>>]
T_New == [k |-> "tstruct", tr |-> FALSE, ts |-> <<T_u8>>, ws |-> <<T_u8>>, px |-> <<"">>]
T_NewT == [k |-> "tstruct", tr |-> TRUE, ts |-> <<T_String>>, ws |-> <<T_String>>, px |-> <<"">>]
T_NewTV == [k |-> "tstruct", tr |-> TRUE, ts |-> <<[k |-> "seq", t |-> [k |-> "opt", t |-> T_u8]]>>, ws |-> <<[k |-> "seq", t |-> [k |-> "opt", t |-> T_u8]]>>, px |-> <<"">>]
T_Pair == [k |-> "tstruct", tr |-> FALSE, ts |-> <<T_u8, T_String>>, ws |-> <<T_u8, T_String>>, px |-> <<"", "">>]
T_Trip == [k |-> "tstruct", tr |-> FALSE, ts |-> <<[k |-> "opt", t |-> T_u8], [k |-> "seq", t |-> T_u8], T_New>>, ws |-> <<[k |-> "opt", t |-> T_u8], [k |-> "seq", t |-> T_u8], T_New>>, px |-> <<"", "", "">>]
T_Quint == [k |-> "tstruct", tr |-> FALSE, ts |-> <<T_u8, T_u16, T_u32, T_u64, T_i8>>, ws |-> <<T_u8, T_u16, T_u32, T_u64, T_i8>>, px |-> <<"", "", "", "", "">>]
T_HoldT == [k |-> "struct", fs |-> <<[f |-> C("a"), j |-> C("a"), t |-> T_New, w |-> T_New, px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("b"), j |-> C("b"), t |-> T_Pair, w |-> T_Pair, px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("c"), j |-> C("c"), t |-> [k |-> "opt", t |-> T_New], w |-> [k |-> "opt", t |-> T_New], px |-> "", o |-> TRUE, jm |-> <<"def", <<"none">>>>, rm |-> <<"def", <<"none">>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("d"), j |-> C("d"), t |-> [k |-> "seq", t |-> T_Pair], w |-> [k |-> "seq", t |-> T_Pair], px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("u"), j |-> C("u"), t |-> [k |-> "tup", ts |-> <<T_New, T_u8>>], w |-> [k |-> "tup", ts |-> <<T_New, T_u8>>], px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE]>>]
T_HoldN == [k |-> "struct", fs |-> <<[f |-> C("a"), j |-> C("a"), t |-> T_NewT, w |-> T_NewT, px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("b"), j |-> C("b"), t |-> T_Unit1, w |-> T_Unit1, px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("c"), j |-> C("c"), t |-> [k |-> "opt", t |-> T_NewT], w |-> [k |-> "opt", t |-> T_NewT], px |-> "", o |-> TRUE, jm |-> <<"def", <<"none">>>>, rm |-> <<"def", <<"none">>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE]>>]
T_Uni == [k |-> "enum", vs |-> <<[n |-> C("A"), j |-> C("A"), k |-> "unit", fs |-> <<>>],
      [n |-> C("B"), j |-> C("B"), k |-> "unit", fs |-> <<>>],
      [n |-> C("Ab"), j |-> C("Ab"), k |-> "unit", fs |-> <<>>],
      [n |-> C("ABC"), j |-> C("ABC"), k |-> "unit", fs |-> <<>>],
      [n |-> C("a"), j |-> C("a"), k |-> "unit", fs |-> <<>>]>>]
T_Mix == [k |-> "enum", vs |-> <<[n |-> C("U"), j |-> C("U"), k |-> "unit", fs |-> <<>>],
      [n |-> C("T1"), j |-> C("T1"), k |-> "tup", fs |-> <<T_u8>>],
      [n |-> C("T2"), j |-> C("T2"), k |-> "tup", fs |-> <<T_u8, T_String>>],
      [n |-> C("R"), j |-> C("R"), k |-> "rec", fs |-> <<[f |-> C("a"), j |-> C("a"), t |-> T_u8, w |-> T_u8, px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE], [f |-> C("b"), j |-> C("b"), t |-> T_String, w |-> T_String, px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE]>>],
      [n |-> C("V"), j |-> C("V"), k |-> "tup", fs |-> <<[k |-> "seq", t |-> T_u8]>>],
      [n |-> C("U2"), j |-> C("U2"), k |-> "unit", fs |-> <<>>],
      [n |-> C("O"), j |-> C("O"), k |-> "tup", fs |-> <<[k |-> "opt", t |-> T_u8], [k |-> "opt", t |-> T_u8]>>],
      [n |-> C("W"), j |-> C("W"), k |-> "rec", fs |-> <<[f |-> C("u"), j |-> C("u"), t |-> [k |-> "opt", t |-> T_u8], w |-> [k |-> "opt", t |-> T_u8], px |-> "", o |-> TRUE, jm |-> <<"def", <<"none">>>>, rm |-> <<"def", <<"none">>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE]>>]>>]
T_RenV == [k |-> "enum", vs |-> <<[n |-> C("A"), j |-> C("B"), k |-> "unit", fs |-> <<>>],
      [n |-> C("B"), j |-> C("A"), k |-> "unit", fs |-> <<>>],
      [n |-> C("C"), j |-> C("see me"), k |-> "tup", fs |-> <<T_u8>>],
      [n |-> C("D"), j |-> C("D2"), k |-> "rec", fs |-> <<[f |-> C("x"), j |-> C("y"), t |-> T_u8, w |-> T_u8, px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE], [f |-> C("y"), j |-> C("x"), t |-> T_u8, w |-> T_u8, px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE]>>],
      [n |-> C("E"), j |-> C("E"), k |-> "unit", fs |-> <<>>]>>]
T_RenVE == [k |-> "enum", vs |-> <<[n |-> C("A"), j |-> <<113, 34, 92>>, k |-> "unit", fs |-> <<>>],
      [n |-> C("B"), j |-> <<233, 10>>, k |-> "tup", fs |-> <<T_u8>>],
      [n |-> C("C"), j |-> <<>>, k |-> "rec", fs |-> <<[f |-> C("a"), j |-> C("a"), t |-> T_u8, w |-> T_u8, px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE]>>]>>]
T_FieldV == [k |-> "enum", vs |-> <<[n |-> C("R"), j |-> C("R"), k |-> "rec", fs |-> <<[f |-> C("a"), j |-> C("a"), t |-> [k |-> "opt", t |-> T_u8], w |-> [k |-> "opt", t |-> T_u8], px |-> "", o |-> TRUE, jm |-> <<"def", <<"none">>>>, rm |-> <<"def", <<"none">>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE], [f |-> C("b"), j |-> C("b"), t |-> T_u8, w |-> T_u8, px |-> "", o |-> FALSE, jm |-> <<"def", <<"int", C("5")>>>>, rm |-> <<"def", <<"int", C("5")>>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE], [f |-> C("c"), j |-> C("c"), t |-> T_u8, w |-> T_u8, px |-> "", o |-> FALSE, jm |-> <<"def", <<"int", C("0")>>>>, rm |-> <<"def", <<"int", C("0")>>>>, s |-> TRUE, sv |-> <<"int", C("0")>>, bv |-> <<"int", C("0")>>, nn |-> FALSE], [f |-> C("d"), j |-> C("dee"), t |-> [k |-> "opt", t |-> T_String], w |-> [k |-> "opt", t |-> T_String], px |-> "", o |-> TRUE, jm |-> <<"def", <<"none">>>>, rm |-> <<"def", <<"none">>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE]>>],
      [n |-> C("Q"), j |-> C("Q"), k |-> "rec", fs |-> <<[f |-> C("a"), j |-> C("b"), t |-> T_u8, w |-> T_u8, px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE], [f |-> C("b"), j |-> C("a"), t |-> [k |-> "opt", t |-> T_u8], w |-> [k |-> "opt", t |-> T_u8], px |-> "", o |-> TRUE, jm |-> <<"def", <<"none">>>>, rm |-> <<"def", <<"none">>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE]>>],
      [n |-> C("U"), j |-> C("U"), k |-> "unit", fs |-> <<>>]>>]
T_AllOptV == [k |-> "enum", vs |-> <<[n |-> C("R"), j |-> C("R"), k |-> "rec", fs |-> <<[f |-> C("a"), j |-> C("a"), t |-> [k |-> "opt", t |-> T_u8], w |-> [k |-> "opt", t |-> T_u8], px |-> "", o |-> TRUE, jm |-> <<"def", <<"none">>>>, rm |-> <<"def", <<"none">>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE], [f |-> C("b"), j |-> C("b"), t |-> [k |-> "opt", t |-> T_u8], w |-> [k |-> "opt", t |-> T_u8], px |-> "", o |-> TRUE, jm |-> <<"def", <<"none">>>>, rm |-> <<"def", <<"none">>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE]>>],
      [n |-> C("T"), j |-> C("T"), k |-> "tup", fs |-> <<[k |-> "opt", t |-> T_u8]>>]>>]
T_Disc == [k |-> "enum", vs |-> <<[n |-> C("A"), j |-> C("A"), k |-> "unit", fs |-> <<>>],
      [n |-> C("B"), j |-> C("B"), k |-> "unit", fs |-> <<>>],
      [n |-> C("C"), j |-> C("C"), k |-> "unit", fs |-> <<>>],
      [n |-> C("D"), j |-> C("D"), k |-> "unit", fs |-> <<>>]>>]
T_Inner == [k |-> "enum", vs |-> <<[n |-> C("P"), j |-> C("P"), k |-> "tup", fs |-> <<T_Uni>>],
      [n |-> C("Q"), j |-> C("Q"), k |-> "tup", fs |-> <<T_Mix>>],
      [n |-> C("R"), j |-> C("R"), k |-> "rec", fs |-> <<[f |-> C("m"), j |-> C("m"), t |-> T_Mix, w |-> T_Mix, px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE], [f |-> C("u"), j |-> C("u"), t |-> T_Uni, w |-> T_Uni, px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE]>>],
      [n |-> C("N"), j |-> C("N"), k |-> "tup", fs |-> <<[k |-> "tup", ts |-> <<T_u8, T_Uni>>]>>],
      [n |-> C("A2"), j |-> C("A2"), k |-> "tup", fs |-> <<[k |-> "arr", n |-> 2, t |-> T_Uni]>>]>>]
T_Deep == [k |-> "enum", vs |-> <<[n |-> C("L"), j |-> C("L"), k |-> "tup", fs |-> <<T_u8>>],
      [n |-> C("N"), j |-> C("N"), k |-> "tup", fs |-> <<[k |-> "ref", n |-> "Deep"], [k |-> "ref", n |-> "Deep"]>>],
      [n |-> C("S"), j |-> C("S"), k |-> "rec", fs |-> <<[f |-> C("next"), j |-> C("next"), t |-> [k |-> "seq", t |-> [k |-> "ref", n |-> "Deep"]], w |-> [k |-> "seq", t |-> [k |-> "ref", n |-> "Deep"]], px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE]>>]>>]
T_Big == [k |-> "enum", vs |-> [i \in 1..300 |-> LET nm == C("N") \o Dec(i - 1) IN [n |-> nm, j |-> nm, k |-> "unit", fs |-> <<>>]] \o <<[n |-> C("P"), j |-> C("P"), k |-> "tup", fs |-> <<T_u8>>], [n |-> C("P2"), j |-> C("P2"), k |-> "tup", fs |-> <<T_u8, T_String>>], [n |-> C("R"), j |-> C("R"), k |-> "rec", fs |-> <<[f |-> C("a"), j |-> C("a"), t |-> T_u8, w |-> T_u8, px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE]>>], [n |-> C("Z"), j |-> C("Z"), k |-> "unit", fs |-> <<>>]>>]
T_Words == [k |-> "enum", vs |-> <<[n |-> C("NoneYet"), j |-> C("NoneYet"), k |-> "unit", fs |-> <<>>],
      [n |-> C("Non"), j |-> C("Non"), k |-> "unit", fs |-> <<>>],
      [n |-> C("None1"), j |-> C("None1"), k |-> "tup", fs |-> <<T_u8>>],
      [n |-> C("None_"), j |-> C("None_"), k |-> "rec", fs |-> <<[f |-> C("a"), j |-> C("a"), t |-> [k |-> "opt", t |-> T_u8], w |-> [k |-> "opt", t |-> T_u8], px |-> "", o |-> TRUE, jm |-> <<"def", <<"none">>>>, rm |-> <<"def", <<"none">>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE]>>],
      [n |-> C("none"), j |-> C("none"), k |-> "unit", fs |-> <<>>],
      [n |-> C("Some"), j |-> C("Some"), k |-> "tup", fs |-> <<T_u8>>],
      [n |-> C("Ok"), j |-> C("Ok"), k |-> "tup", fs |-> <<[k |-> "opt", t |-> T_u8]>>]>>]
T_Words2 == [k |-> "enum", vs |-> <<[n |-> C("nul"), j |-> C("nul"), k |-> "unit", fs |-> <<>>],
      [n |-> C("nullx"), j |-> C("nullx"), k |-> "tup", fs |-> <<T_u8>>],
      [n |-> C("null"), j |-> C("null"), k |-> "unit", fs |-> <<>>],
      [n |-> C("True"), j |-> C("True"), k |-> "unit", fs |-> <<>>],
      [n |-> C("truex"), j |-> C("truex"), k |-> "unit", fs |-> <<>>],
      [n |-> C("fals"), j |-> C("fals"), k |-> "unit", fs |-> <<>>],
      [n |-> C("falsey"), j |-> C("falsey"), k |-> "rec", fs |-> <<[f |-> C("nulls"), j |-> C("nulls"), t |-> T_u8, w |-> T_u8, px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE]>>],
      [n |-> C("nan"), j |-> C("nan"), k |-> "unit", fs |-> <<>>],
      [n |-> C("inf"), j |-> C("inf"), k |-> "unit", fs |-> <<>>],
      [n |-> C("e5"), j |-> C("e5"), k |-> "unit", fs |-> <<>>]>>]
T_WordsJ == [k |-> "enum", vs |-> <<[n |-> C("A"), j |-> C("null"), k |-> "unit", fs |-> <<>>],
      [n |-> C("B"), j |-> C("true"), k |-> "unit", fs |-> <<>>],
      [n |-> C("C"), j |-> C("false"), k |-> "tup", fs |-> <<T_u8>>],
      [n |-> C("D"), j |-> C("None"), k |-> "unit", fs |-> <<>>],
      [n |-> C("E"), j |-> C("nul"), k |-> "tup", fs |-> <<[k |-> "opt", t |-> T_u8]>>],
      [n |-> C("F"), j |-> C("1"), k |-> "unit", fs |-> <<>>],
      [n |-> C("G"), j |-> C("[]"), k |-> "unit", fs |-> <<>>]>>]
T_WordsF == [k |-> "struct", fs |-> <<[f |-> C("w"), j |-> C("w"), t |-> [k |-> "opt", t |-> T_Words], w |-> [k |-> "opt", t |-> T_Words], px |-> "", o |-> TRUE, jm |-> <<"def", <<"none">>>>, rm |-> <<"def", <<"none">>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("None_"), j |-> C("None_"), t |-> [k |-> "opt", t |-> T_u8], w |-> [k |-> "opt", t |-> T_u8], px |-> "", o |-> TRUE, jm |-> <<"def", <<"none">>>>, rm |-> <<"def", <<"none">>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("nullx"), j |-> C("nullx"), t |-> T_u8, w |-> T_u8, px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("t"), j |-> C("truey"), t |-> [k |-> "opt", t |-> T_u8], w |-> [k |-> "opt", t |-> T_u8], px |-> "", o |-> TRUE, jm |-> <<"def", <<"none">>>>, rm |-> <<"def", <<"none">>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("fals"), j |-> C("fals"), t |-> [k |-> "opt", t |-> T_Words2], w |-> [k |-> "opt", t |-> T_Words2], px |-> "", o |-> TRUE, jm |-> <<"def", <<"none">>>>, rm |-> <<"def", <<"none">>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("some"), j |-> C("some"), t |-> T_Words, w |-> T_Words, px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE]>>]
T_HoldE == [k |-> "struct", fs |-> <<[f |-> C("u"), j |-> C("u"), t |-> T_Uni, w |-> T_Uni, px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("m"), j |-> C("m"), t |-> T_Mix, w |-> T_Mix, px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("o"), j |-> C("o"), t |-> [k |-> "opt", t |-> T_Uni], w |-> [k |-> "opt", t |-> T_Uni], px |-> "", o |-> TRUE, jm |-> <<"def", <<"none">>>>, rm |-> <<"def", <<"none">>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("v"), j |-> C("v"), t |-> [k |-> "seq", t |-> T_FieldV], w |-> [k |-> "seq", t |-> T_FieldV], px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("d"), j |-> C("d"), t |-> T_Uni, w |-> T_Uni, px |-> "", o |-> FALSE, jm |-> <<"def", <<"var", 1, <<>>>>>>, rm |-> <<"def", <<"var", 1, <<>>>>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE]>>]
T_HoldEB == [k |-> "struct", fs |-> <<[f |-> C("u"), j |-> C("u"), t |-> T_Uni, w |-> T_Uni, px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("m"), j |-> C("m"), t |-> T_Mix, w |-> T_Mix, px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("o"), j |-> C("o"), t |-> [k |-> "opt", t |-> T_Uni], w |-> [k |-> "opt", t |-> T_Uni], px |-> "", o |-> TRUE, jm |-> <<"def", <<"none">>>>, rm |-> <<"def", <<"none">>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("k"), j |-> C("k"), t |-> T_Disc, w |-> T_Disc, px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE]>>]
T_G1__u8 == [k |-> "struct", fs |-> <<[f |-> C("a"), j |-> C("a"), t |-> T_u8, w |-> T_u8, px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("v"), j |-> C("v"), t |-> [k |-> "seq", t |-> T_u8], w |-> [k |-> "seq", t |-> T_u8], px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE]>>]
T_G1__S == [k |-> "struct", fs |-> <<[f |-> C("a"), j |-> C("a"), t |-> T_String, w |-> T_String, px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("v"), j |-> C("v"), t |-> [k |-> "seq", t |-> T_String], w |-> [k |-> "seq", t |-> T_String], px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE]>>]
T_G2__a == [k |-> "struct", fs |-> <<[f |-> C("k"), j |-> C("k"), t |-> T_u16, w |-> T_u16, px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("v"), j |-> C("v"), t |-> [k |-> "opt", t |-> T_String], w |-> [k |-> "opt", t |-> T_String], px |-> "", o |-> TRUE, jm |-> <<"def", <<"none">>>>, rm |-> <<"def", <<"none">>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE]>>]
T_GC__3 == [k |-> "struct", fs |-> <<[f |-> C("a"), j |-> C("a"), t |-> [k |-> "arr", n |-> 3, t |-> T_u8], w |-> [k |-> "arr", n |-> 3, t |-> T_u8], px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("n"), j |-> C("n"), t |-> T_u8, w |-> T_u8, px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE]>>]
T_GE__a == [k |-> "enum", vs |-> <<[n |-> C("A"), j |-> C("A"), k |-> "tup", fs |-> <<T_u8>>],
      [n |-> C("B"), j |-> C("B"), k |-> "rec", fs |-> <<[f |-> C("t"), j |-> C("t"), t |-> T_u8, w |-> T_u8, px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE], [f |-> C("u"), j |-> C("u"), t |-> T_String, w |-> T_String, px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE]>>],
      [n |-> C("C"), j |-> C("C"), k |-> "unit", fs |-> <<>>],
      [n |-> C("D"), j |-> C("D"), k |-> "tup", fs |-> <<T_String, T_u8>>]>>]
T_GT__a == [k |-> "tstruct", tr |-> FALSE, ts |-> <<T_u8, T_String>>, ws |-> <<T_u8, T_String>>, px |-> <<"", "">>]
T_WrapP == [k |-> "struct", fs |-> <<[f |-> C("s"), j |-> C("s"), t |-> T_String, w |-> T_String, px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE]>>]
T_Wrapped == [k |-> "proxy", c |-> "wrap", t |-> T_String, p |-> T_WrapP]
T_Scaled == [k |-> "proxy", c |-> "scale", t |-> T_u16, p |-> T_i32]
T_Flip == [k |-> "proxy", c |-> "swap", t |-> [k |-> "tup", ts |-> <<T_u8, T_String>>], p |-> [k |-> "tup", ts |-> <<T_String, T_u8>>]]
T_EnumPx == [k |-> "proxy", c |-> "scale", t |-> T_u16, p |-> T_i32]
T_OptPx == [k |-> "proxy", c |-> "unopt", t |-> [k |-> "opt", t |-> T_u8], p |-> [k |-> "seq", t |-> T_u8]]
T_FieldPx == [k |-> "struct", fs |-> <<[f |-> C("a"), j |-> C("a"), t |-> T_u8, w |-> T_u8, px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("w"), j |-> C("w"), t |-> T_String, w |-> T_WrapP, px |-> "wrap", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("n"), j |-> C("en"), t |-> T_u16, w |-> T_i32, px |-> "scale", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("z"), j |-> C("z"), t |-> T_String, w |-> T_String, px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE]>>]
T_OptFieldPx == [k |-> "struct", fs |-> <<[f |-> C("a"), j |-> C("a"), t |-> [k |-> "opt", t |-> T_u16], w |-> T_i32, px |-> "scale", o |-> TRUE, jm |-> <<"def", <<"none">>>>, rm |-> <<"def", <<"none">>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("b"), j |-> C("b"), t |-> T_u8, w |-> T_u8, px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("c"), j |-> C("cc"), t |-> [k |-> "opt", t |-> T_String], w |-> T_WrapP, px |-> "wrap", o |-> TRUE, jm |-> <<"def", <<"none">>>>, rm |-> <<"def", <<"none">>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("d"), j |-> C("d"), t |-> [k |-> "opt", t |-> T_u8], w |-> [k |-> "opt", t |-> T_u8], px |-> "", o |-> TRUE, jm |-> <<"def", <<"none">>>>, rm |-> <<"def", <<"none">>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE]>>]
T_PxV == [k |-> "enum", vs |-> <<[n |-> C("A"), j |-> C("A"), k |-> "rec", fs |-> <<[f |-> C("n"), j |-> C("n"), t |-> T_u16, w |-> T_i32, px |-> "scale", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE], [f |-> C("s"), j |-> C("s"), t |-> T_u8, w |-> T_u8, px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE], [f |-> C("d"), j |-> C("dd"), t |-> T_String, w |-> T_WrapP, px |-> "wrap", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE]>>],
      [n |-> C("B"), j |-> C("B"), k |-> "rec", fs |-> <<[f |-> C("i"), j |-> C("i"), t |-> [k |-> "opt", t |-> T_u16], w |-> T_i32, px |-> "scale", o |-> TRUE, jm |-> <<"def", <<"none">>>>, rm |-> <<"def", <<"none">>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE], [f |-> C("first_field_was_serialized"), j |-> C("first_field_was_serialized"), t |-> T_u8, w |-> T_u8, px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE]>>],
      [n |-> C("U"), j |-> C("U"), k |-> "unit", fs |-> <<>>]>>]
T_NamesV == [k |-> "enum", vs |-> <<[n |-> C("V"), j |-> C("V"), k |-> "rec", fs |-> <<[f |-> C("s"), j |-> C("s"), t |-> T_u8, w |-> T_u8, px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE], [f |-> C("d"), j |-> C("d"), t |-> T_String, w |-> T_String, px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE], [f |-> C("i"), j |-> C("i"), t |-> [k |-> "opt", t |-> T_u8], w |-> [k |-> "opt", t |-> T_u8], px |-> "", o |-> TRUE, jm |-> <<"def", <<"none">>>>, rm |-> <<"def", <<"none">>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE], [f |-> C("o"), j |-> C("o"), t |-> T_u16, w |-> T_u16, px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE], [f |-> C("r"), j |-> C("r"), t |-> T_u8, w |-> T_u8, px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE], [f |-> C("t"), j |-> C("t"), t |-> [k |-> "opt", t |-> T_String], w |-> [k |-> "opt", t |-> T_String], px |-> "", o |-> TRUE, jm |-> <<"def", <<"none">>>>, rm |-> <<"def", <<"none">>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE], [f |-> C("name"), j |-> C("name"), t |-> T_u8, w |-> T_u8, px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE], [f |-> C("_s"), j |-> C("_s"), t |-> T_u8, w |-> T_u8, px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE]>>],
      [n |-> C("T"), j |-> C("T"), k |-> "tup", fs |-> <<T_u8, T_u16>>]>>]
T_Names == [k |-> "struct", fs |-> <<[f |-> C("s"), j |-> C("s"), t |-> T_u8, w |-> T_u8, px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("d"), j |-> C("d"), t |-> T_String, w |-> T_String, px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("i"), j |-> C("i"), t |-> [k |-> "opt", t |-> T_u8], w |-> [k |-> "opt", t |-> T_u8], px |-> "", o |-> TRUE, jm |-> <<"def", <<"none">>>>, rm |-> <<"def", <<"none">>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("o"), j |-> C("o"), t |-> T_u16, w |-> T_u16, px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("r"), j |-> C("r"), t |-> T_u8, w |-> T_u8, px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("t"), j |-> C("t"), t |-> [k |-> "opt", t |-> T_String], w |-> [k |-> "opt", t |-> T_String], px |-> "", o |-> TRUE, jm |-> <<"def", <<"none">>>>, rm |-> <<"def", <<"none">>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("proxy"), j |-> C("proxy"), t |-> T_u8, w |-> T_u8, px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("out"), j |-> C("out"), t |-> T_u8, w |-> T_u8, px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE]>>]
T_TupPx == [k |-> "tstruct", tr |-> FALSE, ts |-> <<T_u16, T_u8, T_String>>, ws |-> <<T_i32, T_u8, T_WrapP>>, px |-> <<"scale", "", "wrap">>]
T_HoldPx == [k |-> "struct", fs |-> <<[f |-> C("a"), j |-> C("a"), t |-> T_Wrapped, w |-> T_Wrapped, px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("b"), j |-> C("b"), t |-> [k |-> "seq", t |-> T_Scaled], w |-> [k |-> "seq", t |-> T_Scaled], px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("c"), j |-> C("c"), t |-> [k |-> "opt", t |-> T_EnumPx], w |-> [k |-> "opt", t |-> T_EnumPx], px |-> "", o |-> TRUE, jm |-> <<"def", <<"none">>>>, rm |-> <<"def", <<"none">>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE]>>]
T_PxD == [k |-> "struct", fs |-> <<[f |-> C("n"), j |-> C("n"), t |-> T_u16, w |-> T_i32, px |-> "scale", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("s"), j |-> C("s"), t |-> T_String, w |-> T_String, px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("m"), j |-> C("m"), t |-> T_u16, w |-> T_u16, px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE]>>]
T_PxDef == [k |-> "struct", fs |-> <<[f |-> C("n"), j |-> C("n"), t |-> T_u16, w |-> T_i32, px |-> "scale", o |-> FALSE, jm |-> <<"def", <<"int", C("42")>>>>, rm |-> <<"def", <<"int", C("42")>>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("s"), j |-> C("s"), t |-> T_String, w |-> T_String, px |-> "", o |-> FALSE, jm |-> <<"def", <<"str", <<>>>>>>, rm |-> <<"def", <<"str", <<>>>>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("m"), j |-> C("m"), t |-> [k |-> "opt", t |-> T_u16], w |-> T_i32, px |-> "scale", o |-> TRUE, jm |-> <<"def", <<"none">>>>, rm |-> <<"def", <<"none">>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE]>>]
T_PxDefF == [k |-> "struct", fs |-> <<[f |-> C("n"), j |-> C("n"), t |-> T_u16, w |-> T_i32, px |-> "scale", o |-> FALSE, jm |-> <<"def", <<"int", C("42")>>>>, rm |-> <<"def", <<"int", C("42")>>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("s"), j |-> C("s"), t |-> T_String, w |-> T_String, px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("k"), j |-> C("k"), t |-> T_u16, w |-> T_i32, px |-> "scale", o |-> FALSE, jm |-> <<"def", <<"int", C("9")>>>>, rm |-> <<"def", <<"int", C("9")>>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("o"), j |-> C("o"), t |-> [k |-> "opt", t |-> T_u16], w |-> T_i32, px |-> "scale", o |-> TRUE, jm |-> <<"def", <<"none">>>>, rm |-> <<"def", <<"none">>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("p"), j |-> C("p"), t |-> [k |-> "opt", t |-> T_u16], w |-> T_i32, px |-> "scale", o |-> TRUE, jm |-> <<"def", <<"some", <<"int", C("5")>>>>>>, rm |-> <<"def", <<"some", <<"int", C("5")>>>>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE]>>]
T_PxSkip == [k |-> "struct", fs |-> <<[f |-> C("a"), j |-> C("a"), t |-> T_u8, w |-> T_u8, px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("n"), j |-> C("n"), t |-> T_u16, w |-> T_i32, px |-> "scale", o |-> FALSE, jm |-> <<"def", <<"int", C("42")>>>>, rm |-> <<"def", <<"int", C("42")>>>>, s |-> TRUE, sv |-> <<"int", C("42")>>, bv |-> <<"int", C("42")>>, nn |-> FALSE],
      [f |-> C("b"), j |-> C("b"), t |-> T_String, w |-> T_String, px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("k"), j |-> C("k"), t |-> T_u16, w |-> T_i32, px |-> "scale", o |-> FALSE, jm |-> <<"def", <<"int", C("9")>>>>, rm |-> <<"def", <<"int", C("9")>>>>, s |-> TRUE, sv |-> <<"int", C("9")>>, bv |-> <<"int", C("42")>>, nn |-> FALSE],
      [f |-> C("c"), j |-> C("c"), t |-> T_u16, w |-> T_i32, px |-> "scale", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE]>>]
T_PxDefV == [k |-> "enum", vs |-> <<[n |-> C("A"), j |-> C("A"), k |-> "rec", fs |-> <<[f |-> C("n"), j |-> C("n"), t |-> T_u16, w |-> T_i32, px |-> "scale", o |-> FALSE, jm |-> <<"def", <<"int", C("42")>>>>, rm |-> <<"def", <<"int", C("42")>>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE], [f |-> C("s"), j |-> C("s"), t |-> T_u8, w |-> T_u8, px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE], [f |-> C("m"), j |-> C("m"), t |-> [k |-> "opt", t |-> T_u16], w |-> T_i32, px |-> "scale", o |-> TRUE, jm |-> <<"def", <<"none">>>>, rm |-> <<"def", <<"none">>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE]>>],
      [n |-> C("U"), j |-> C("U"), k |-> "unit", fs |-> <<>>]>>]
T_PxEnum == [k |-> "enum", vs |-> <<[n |-> C("A"), j |-> C("A"), k |-> "tup", fs |-> <<T_Scaled>>],
      [n |-> C("B"), j |-> C("B"), k |-> "rec", fs |-> <<[f |-> C("w"), j |-> C("w"), t |-> T_Wrapped, w |-> T_Wrapped, px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE]>>]>>]
T_WideT == [k |-> "tstruct", tr |-> FALSE, ts |-> <<T_u16, T_u16, T_u16, T_u16, T_u16, T_u16, T_u16, T_u16, T_u16, T_u16, T_u16, T_u16>>, ws |-> <<T_u16, T_u16, T_u16, T_u16, T_u16, T_u16, T_u16, T_u16, T_u16, T_u16, T_u16, T_u16>>, px |-> <<"", "", "", "", "", "", "", "", "", "", "", "">>]
T_WideV == [k |-> "enum", vs |-> <<[n |-> C("U"), j |-> C("U"), k |-> "unit", fs |-> <<>>],
      [n |-> C("T"), j |-> C("T"), k |-> "tup", fs |-> <<T_u16, T_u16, T_u16, T_u16, T_u16, T_u16, T_u16, T_u16, T_u16, T_u16, T_u16, T_u16, T_u16>>],
      [n |-> C("R"), j |-> C("R"), k |-> "rec", fs |-> <<[f |-> C("f0"), j |-> C("f0"), t |-> T_u16, w |-> T_u16, px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE], [f |-> C("f1"), j |-> C("f1"), t |-> T_u16, w |-> T_u16, px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE], [f |-> C("f2"), j |-> C("f2"), t |-> T_u16, w |-> T_u16, px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE], [f |-> C("f3"), j |-> C("f3"), t |-> T_u16, w |-> T_u16, px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE], [f |-> C("f4"), j |-> C("f4"), t |-> T_u16, w |-> T_u16, px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE], [f |-> C("f5"), j |-> C("f5"), t |-> T_u16, w |-> T_u16, px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE], [f |-> C("f6"), j |-> C("f6"), t |-> T_u16, w |-> T_u16, px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE], [f |-> C("f7"), j |-> C("f7"), t |-> T_u16, w |-> T_u16, px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE], [f |-> C("f8"), j |-> C("f8"), t |-> T_u16, w |-> T_u16, px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE], [f |-> C("f9"), j |-> C("f9"), t |-> T_u16, w |-> T_u16, px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE], [f |-> C("f10"), j |-> C("f10"), t |-> T_u16, w |-> T_u16, px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE], [f |-> C("f11"), j |-> C("f11"), t |-> T_u16, w |-> T_u16, px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE], [f |-> C("f12"), j |-> C("f12"), t |-> T_u16, w |-> T_u16, px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE]>>],
      [n |-> C("O"), j |-> C("O"), k |-> "tup", fs |-> <<[k |-> "opt", t |-> T_u8], [k |-> "opt", t |-> T_u8], [k |-> "opt", t |-> T_u8], [k |-> "opt", t |-> T_u8], [k |-> "opt", t |-> T_u8], [k |-> "opt", t |-> T_u8], [k |-> "opt", t |-> T_u8], [k |-> "opt", t |-> T_u8], [k |-> "opt", t |-> T_u8], [k |-> "opt", t |-> T_u8], [k |-> "opt", t |-> T_u8], [k |-> "opt", t |-> T_u8]>>],
      [n |-> C("S"), j |-> C("S"), k |-> "tup", fs |-> <<T_String, T_u8, T_String, T_u8, T_String, T_u8, T_String, T_u8, T_String, T_u8, T_String, T_u8>>],
      [n |-> C("Z"), j |-> C("Z"), k |-> "tup", fs |-> <<T_u8>>]>>]
T_WideS == [k |-> "struct", fs |-> <<[f |-> C("f0"), j |-> C("f0"), t |-> T_u8, w |-> T_u8, px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("f1"), j |-> C("f1"), t |-> [k |-> "opt", t |-> T_u16], w |-> [k |-> "opt", t |-> T_u16], px |-> "", o |-> TRUE, jm |-> <<"def", <<"none">>>>, rm |-> <<"def", <<"none">>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("f2"), j |-> C("f2"), t |-> T_String, w |-> T_String, px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("f3"), j |-> C("x70"), t |-> [k |-> "opt", t |-> T_String], w |-> [k |-> "opt", t |-> T_String], px |-> "", o |-> TRUE, jm |-> <<"def", <<"none">>>>, rm |-> <<"def", <<"none">>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("f4"), j |-> C("f4"), t |-> T_i16, w |-> T_i16, px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("f5"), j |-> C("f5"), t |-> T_u8, w |-> T_u8, px |-> "", o |-> FALSE, jm |-> <<"def", <<"int", C("0")>>>>, rm |-> <<"def", <<"int", C("0")>>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("f6"), j |-> C("f6"), t |-> [k |-> "opt", t |-> T_u16], w |-> [k |-> "opt", t |-> T_u16], px |-> "", o |-> TRUE, jm |-> <<"def", <<"none">>>>, rm |-> <<"def", <<"none">>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("f7"), j |-> C("f7"), t |-> T_String, w |-> T_String, px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("f8"), j |-> C("f8"), t |-> [k |-> "opt", t |-> T_String], w |-> [k |-> "opt", t |-> T_String], px |-> "", o |-> TRUE, jm |-> <<"def", <<"none">>>>, rm |-> <<"def", <<"none">>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("f9"), j |-> C("f9"), t |-> T_i16, w |-> T_i16, px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("f10"), j |-> C("x63"), t |-> T_u8, w |-> T_u8, px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("f11"), j |-> C("f11"), t |-> [k |-> "opt", t |-> T_u16], w |-> [k |-> "opt", t |-> T_u16], px |-> "", o |-> TRUE, jm |-> <<"def", <<"none">>>>, rm |-> <<"def", <<"none">>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("f12"), j |-> C("f12"), t |-> T_String, w |-> T_String, px |-> "", o |-> FALSE, jm |-> <<"def", <<"str", <<>>>>>>, rm |-> <<"def", <<"str", <<>>>>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("f13"), j |-> C("f13"), t |-> [k |-> "opt", t |-> T_String], w |-> [k |-> "opt", t |-> T_String], px |-> "", o |-> TRUE, jm |-> <<"def", <<"none">>>>, rm |-> <<"def", <<"none">>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("f14"), j |-> C("f14"), t |-> T_i16, w |-> T_i16, px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("f15"), j |-> C("f15"), t |-> T_u8, w |-> T_u8, px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("f16"), j |-> C("f16"), t |-> [k |-> "opt", t |-> T_u16], w |-> [k |-> "opt", t |-> T_u16], px |-> "", o |-> TRUE, jm |-> <<"def", <<"none">>>>, rm |-> <<"def", <<"none">>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("f17"), j |-> C("x56"), t |-> T_String, w |-> T_String, px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("f18"), j |-> C("f18"), t |-> [k |-> "opt", t |-> T_String], w |-> [k |-> "opt", t |-> T_String], px |-> "", o |-> TRUE, jm |-> <<"def", <<"none">>>>, rm |-> <<"def", <<"none">>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("f19"), j |-> C("f19"), t |-> T_i16, w |-> T_i16, px |-> "", o |-> FALSE, jm |-> <<"def", <<"int", C("0")>>>>, rm |-> <<"def", <<"int", C("0")>>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("f20"), j |-> C("f20"), t |-> T_u8, w |-> T_u8, px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("f21"), j |-> C("f21"), t |-> [k |-> "opt", t |-> T_u16], w |-> [k |-> "opt", t |-> T_u16], px |-> "", o |-> TRUE, jm |-> <<"def", <<"none">>>>, rm |-> <<"def", <<"none">>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("f22"), j |-> C("f22"), t |-> T_String, w |-> T_String, px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("f23"), j |-> C("f23"), t |-> [k |-> "opt", t |-> T_String], w |-> [k |-> "opt", t |-> T_String], px |-> "", o |-> TRUE, jm |-> <<"def", <<"none">>>>, rm |-> <<"def", <<"none">>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("f24"), j |-> C("x49"), t |-> T_i16, w |-> T_i16, px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("f25"), j |-> C("f25"), t |-> T_u8, w |-> T_u8, px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("f26"), j |-> C("f26"), t |-> [k |-> "opt", t |-> T_u16], w |-> [k |-> "opt", t |-> T_u16], px |-> "", o |-> TRUE, jm |-> <<"def", <<"none">>>>, rm |-> <<"def", <<"none">>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("f27"), j |-> C("f27"), t |-> T_String, w |-> T_String, px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("f28"), j |-> C("f28"), t |-> [k |-> "opt", t |-> T_String], w |-> [k |-> "opt", t |-> T_String], px |-> "", o |-> TRUE, jm |-> <<"def", <<"none">>>>, rm |-> <<"def", <<"none">>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("f29"), j |-> C("f29"), t |-> T_i16, w |-> T_i16, px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("f30"), j |-> C("f30"), t |-> T_u8, w |-> T_u8, px |-> "", o |-> FALSE, jm |-> <<"def", <<"int", C("0")>>>>, rm |-> <<"def", <<"int", C("0")>>>>, s |-> TRUE, sv |-> <<"int", C("0")>>, bv |-> <<"int", C("0")>>, nn |-> FALSE],
      [f |-> C("f31"), j |-> C("x42"), t |-> [k |-> "opt", t |-> T_u16], w |-> [k |-> "opt", t |-> T_u16], px |-> "", o |-> TRUE, jm |-> <<"def", <<"none">>>>, rm |-> <<"def", <<"none">>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("f32"), j |-> C("f32"), t |-> T_String, w |-> T_String, px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("f33"), j |-> C("f33"), t |-> [k |-> "opt", t |-> T_String], w |-> [k |-> "opt", t |-> T_String], px |-> "", o |-> TRUE, jm |-> <<"def", <<"none">>>>, rm |-> <<"def", <<"none">>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("f34"), j |-> C("f34"), t |-> T_i16, w |-> T_i16, px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("f35"), j |-> C("f35"), t |-> T_u8, w |-> T_u8, px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("f36"), j |-> C("f36"), t |-> [k |-> "opt", t |-> T_u16], w |-> [k |-> "opt", t |-> T_u16], px |-> "", o |-> TRUE, jm |-> <<"def", <<"none">>>>, rm |-> <<"def", <<"none">>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("f37"), j |-> C("f37"), t |-> T_String, w |-> T_String, px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("f38"), j |-> C("x35"), t |-> [k |-> "opt", t |-> T_String], w |-> [k |-> "opt", t |-> T_String], px |-> "", o |-> TRUE, jm |-> <<"def", <<"none">>>>, rm |-> <<"def", <<"none">>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("f39"), j |-> C("f39"), t |-> T_i16, w |-> T_i16, px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("f40"), j |-> C("f40"), t |-> T_u8, w |-> T_u8, px |-> "", o |-> FALSE, jm |-> <<"def", <<"int", C("0")>>>>, rm |-> <<"def", <<"int", C("0")>>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("f41"), j |-> C("f41"), t |-> [k |-> "opt", t |-> T_u16], w |-> [k |-> "opt", t |-> T_u16], px |-> "", o |-> TRUE, jm |-> <<"def", <<"none">>>>, rm |-> <<"def", <<"none">>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("f42"), j |-> C("f42"), t |-> T_String, w |-> T_String, px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("f43"), j |-> C("f43"), t |-> [k |-> "opt", t |-> T_String], w |-> [k |-> "opt", t |-> T_String], px |-> "", o |-> TRUE, jm |-> <<"def", <<"none">>>>, rm |-> <<"def", <<"none">>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("f44"), j |-> C("f44"), t |-> T_i16, w |-> T_i16, px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("f45"), j |-> C("x28"), t |-> T_u8, w |-> T_u8, px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("f46"), j |-> C("f46"), t |-> [k |-> "opt", t |-> T_u16], w |-> [k |-> "opt", t |-> T_u16], px |-> "", o |-> TRUE, jm |-> <<"def", <<"none">>>>, rm |-> <<"def", <<"none">>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("f47"), j |-> C("f47"), t |-> T_String, w |-> T_String, px |-> "", o |-> FALSE, jm |-> <<"def", <<"str", <<>>>>>>, rm |-> <<"def", <<"str", <<>>>>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("f48"), j |-> C("f48"), t |-> [k |-> "opt", t |-> T_String], w |-> [k |-> "opt", t |-> T_String], px |-> "", o |-> TRUE, jm |-> <<"def", <<"none">>>>, rm |-> <<"def", <<"none">>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("f49"), j |-> C("f49"), t |-> T_i16, w |-> T_i16, px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("f50"), j |-> C("f50"), t |-> T_u8, w |-> T_u8, px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("f51"), j |-> C("f51"), t |-> [k |-> "opt", t |-> T_u16], w |-> [k |-> "opt", t |-> T_u16], px |-> "", o |-> TRUE, jm |-> <<"def", <<"none">>>>, rm |-> <<"def", <<"none">>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("f52"), j |-> C("x21"), t |-> T_String, w |-> T_String, px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("f53"), j |-> C("f53"), t |-> [k |-> "opt", t |-> T_String], w |-> [k |-> "opt", t |-> T_String], px |-> "", o |-> TRUE, jm |-> <<"def", <<"none">>>>, rm |-> <<"def", <<"none">>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("f54"), j |-> C("f54"), t |-> T_i16, w |-> T_i16, px |-> "", o |-> FALSE, jm |-> <<"def", <<"int", C("0")>>>>, rm |-> <<"def", <<"int", C("0")>>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("f55"), j |-> C("f55"), t |-> T_u8, w |-> T_u8, px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("f56"), j |-> C("f56"), t |-> [k |-> "opt", t |-> T_u16], w |-> [k |-> "opt", t |-> T_u16], px |-> "", o |-> TRUE, jm |-> <<"def", <<"none">>>>, rm |-> <<"def", <<"none">>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("f57"), j |-> C("f57"), t |-> T_String, w |-> T_String, px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("f58"), j |-> C("f58"), t |-> [k |-> "opt", t |-> T_String], w |-> [k |-> "opt", t |-> T_String], px |-> "", o |-> TRUE, jm |-> <<"def", <<"none">>>>, rm |-> <<"def", <<"none">>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("f59"), j |-> C("x14"), t |-> T_i16, w |-> T_i16, px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("f60"), j |-> C("f60"), t |-> T_u8, w |-> T_u8, px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("f61"), j |-> C("f61"), t |-> [k |-> "opt", t |-> T_u16], w |-> [k |-> "opt", t |-> T_u16], px |-> "", o |-> TRUE, jm |-> <<"def", <<"none">>>>, rm |-> <<"def", <<"none">>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("f62"), j |-> C("f62"), t |-> T_String, w |-> T_String, px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("f63"), j |-> C("f63"), t |-> [k |-> "opt", t |-> T_String], w |-> [k |-> "opt", t |-> T_String], px |-> "", o |-> TRUE, jm |-> <<"def", <<"none">>>>, rm |-> <<"def", <<"none">>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("f64"), j |-> C("f64"), t |-> T_i16, w |-> T_i16, px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("f65"), j |-> C("f65"), t |-> T_u8, w |-> T_u8, px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("f66"), j |-> C("x7"), t |-> [k |-> "opt", t |-> T_u16], w |-> [k |-> "opt", t |-> T_u16], px |-> "", o |-> TRUE, jm |-> <<"def", <<"none">>>>, rm |-> <<"def", <<"none">>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("f67"), j |-> C("f67"), t |-> T_String, w |-> T_String, px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("f68"), j |-> C("f68"), t |-> [k |-> "opt", t |-> T_String], w |-> [k |-> "opt", t |-> T_String], px |-> "", o |-> TRUE, jm |-> <<"def", <<"none">>>>, rm |-> <<"def", <<"none">>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("f69"), j |-> C("f69"), t |-> T_i16, w |-> T_i16, px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("f70"), j |-> C("f70"), t |-> T_u8, w |-> T_u8, px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("f71"), j |-> C("f71"), t |-> [k |-> "opt", t |-> T_u16], w |-> [k |-> "opt", t |-> T_u16], px |-> "", o |-> TRUE, jm |-> <<"def", <<"none">>>>, rm |-> <<"def", <<"none">>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("f72"), j |-> C("f72"), t |-> T_String, w |-> T_String, px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("f73"), j |-> C("x0"), t |-> [k |-> "opt", t |-> T_String], w |-> [k |-> "opt", t |-> T_String], px |-> "", o |-> TRUE, jm |-> <<"def", <<"none">>>>, rm |-> <<"def", <<"none">>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE]>>]
T_WideO == [k |-> "struct", fs |-> <<[f |-> C("o0"), j |-> C("o0"), t |-> [k |-> "opt", t |-> T_u8], w |-> [k |-> "opt", t |-> T_u8], px |-> "", o |-> TRUE, jm |-> <<"def", <<"none">>>>, rm |-> <<"def", <<"none">>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("o1"), j |-> C("o1"), t |-> [k |-> "opt", t |-> T_u8], w |-> [k |-> "opt", t |-> T_u8], px |-> "", o |-> TRUE, jm |-> <<"def", <<"none">>>>, rm |-> <<"def", <<"none">>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("o2"), j |-> C("o2"), t |-> [k |-> "opt", t |-> T_u8], w |-> [k |-> "opt", t |-> T_u8], px |-> "", o |-> TRUE, jm |-> <<"def", <<"none">>>>, rm |-> <<"def", <<"none">>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("o3"), j |-> C("o3"), t |-> [k |-> "opt", t |-> T_u8], w |-> [k |-> "opt", t |-> T_u8], px |-> "", o |-> TRUE, jm |-> <<"def", <<"none">>>>, rm |-> <<"def", <<"none">>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("o4"), j |-> C("o4"), t |-> [k |-> "opt", t |-> T_u8], w |-> [k |-> "opt", t |-> T_u8], px |-> "", o |-> TRUE, jm |-> <<"def", <<"none">>>>, rm |-> <<"def", <<"none">>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("o5"), j |-> C("o5"), t |-> [k |-> "opt", t |-> T_u8], w |-> [k |-> "opt", t |-> T_u8], px |-> "", o |-> TRUE, jm |-> <<"def", <<"none">>>>, rm |-> <<"def", <<"none">>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("o6"), j |-> C("o6"), t |-> [k |-> "opt", t |-> T_u8], w |-> [k |-> "opt", t |-> T_u8], px |-> "", o |-> TRUE, jm |-> <<"def", <<"none">>>>, rm |-> <<"def", <<"none">>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("o7"), j |-> C("o7"), t |-> [k |-> "opt", t |-> T_u8], w |-> [k |-> "opt", t |-> T_u8], px |-> "", o |-> TRUE, jm |-> <<"def", <<"none">>>>, rm |-> <<"def", <<"none">>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("o8"), j |-> C("o8"), t |-> [k |-> "opt", t |-> T_u8], w |-> [k |-> "opt", t |-> T_u8], px |-> "", o |-> TRUE, jm |-> <<"def", <<"none">>>>, rm |-> <<"def", <<"none">>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("o9"), j |-> C("o9"), t |-> [k |-> "opt", t |-> T_u8], w |-> [k |-> "opt", t |-> T_u8], px |-> "", o |-> TRUE, jm |-> <<"def", <<"none">>>>, rm |-> <<"def", <<"none">>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("o10"), j |-> C("o10"), t |-> [k |-> "opt", t |-> T_u8], w |-> [k |-> "opt", t |-> T_u8], px |-> "", o |-> TRUE, jm |-> <<"def", <<"none">>>>, rm |-> <<"def", <<"none">>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("o11"), j |-> C("o11"), t |-> [k |-> "opt", t |-> T_u8], w |-> [k |-> "opt", t |-> T_u8], px |-> "", o |-> TRUE, jm |-> <<"def", <<"none">>>>, rm |-> <<"def", <<"none">>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("o12"), j |-> C("o12"), t |-> [k |-> "opt", t |-> T_u8], w |-> [k |-> "opt", t |-> T_u8], px |-> "", o |-> TRUE, jm |-> <<"def", <<"none">>>>, rm |-> <<"def", <<"none">>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("o13"), j |-> C("o13"), t |-> [k |-> "opt", t |-> T_u8], w |-> [k |-> "opt", t |-> T_u8], px |-> "", o |-> TRUE, jm |-> <<"def", <<"none">>>>, rm |-> <<"def", <<"none">>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("o14"), j |-> C("o14"), t |-> [k |-> "opt", t |-> T_u8], w |-> [k |-> "opt", t |-> T_u8], px |-> "", o |-> TRUE, jm |-> <<"def", <<"none">>>>, rm |-> <<"def", <<"none">>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("o15"), j |-> C("o15"), t |-> [k |-> "opt", t |-> T_u8], w |-> [k |-> "opt", t |-> T_u8], px |-> "", o |-> TRUE, jm |-> <<"def", <<"none">>>>, rm |-> <<"def", <<"none">>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("o16"), j |-> C("o16"), t |-> [k |-> "opt", t |-> T_u8], w |-> [k |-> "opt", t |-> T_u8], px |-> "", o |-> TRUE, jm |-> <<"def", <<"none">>>>, rm |-> <<"def", <<"none">>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("o17"), j |-> C("o17"), t |-> [k |-> "opt", t |-> T_u8], w |-> [k |-> "opt", t |-> T_u8], px |-> "", o |-> TRUE, jm |-> <<"def", <<"none">>>>, rm |-> <<"def", <<"none">>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("o18"), j |-> C("o18"), t |-> [k |-> "opt", t |-> T_u8], w |-> [k |-> "opt", t |-> T_u8], px |-> "", o |-> TRUE, jm |-> <<"def", <<"none">>>>, rm |-> <<"def", <<"none">>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("o19"), j |-> C("o19"), t |-> [k |-> "opt", t |-> T_u8], w |-> [k |-> "opt", t |-> T_u8], px |-> "", o |-> TRUE, jm |-> <<"def", <<"none">>>>, rm |-> <<"def", <<"none">>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("o20"), j |-> C("o20"), t |-> [k |-> "opt", t |-> T_u8], w |-> [k |-> "opt", t |-> T_u8], px |-> "", o |-> TRUE, jm |-> <<"def", <<"none">>>>, rm |-> <<"def", <<"none">>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("o21"), j |-> C("o21"), t |-> [k |-> "opt", t |-> T_u8], w |-> [k |-> "opt", t |-> T_u8], px |-> "", o |-> TRUE, jm |-> <<"def", <<"none">>>>, rm |-> <<"def", <<"none">>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("o22"), j |-> C("o22"), t |-> [k |-> "opt", t |-> T_u8], w |-> [k |-> "opt", t |-> T_u8], px |-> "", o |-> TRUE, jm |-> <<"def", <<"none">>>>, rm |-> <<"def", <<"none">>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("o23"), j |-> C("o23"), t |-> [k |-> "opt", t |-> T_u8], w |-> [k |-> "opt", t |-> T_u8], px |-> "", o |-> TRUE, jm |-> <<"def", <<"none">>>>, rm |-> <<"def", <<"none">>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("o24"), j |-> C("o24"), t |-> [k |-> "opt", t |-> T_u8], w |-> [k |-> "opt", t |-> T_u8], px |-> "", o |-> TRUE, jm |-> <<"def", <<"none">>>>, rm |-> <<"def", <<"none">>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("o25"), j |-> C("o25"), t |-> [k |-> "opt", t |-> T_u8], w |-> [k |-> "opt", t |-> T_u8], px |-> "", o |-> TRUE, jm |-> <<"def", <<"none">>>>, rm |-> <<"def", <<"none">>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("o26"), j |-> C("o26"), t |-> [k |-> "opt", t |-> T_u8], w |-> [k |-> "opt", t |-> T_u8], px |-> "", o |-> TRUE, jm |-> <<"def", <<"none">>>>, rm |-> <<"def", <<"none">>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("o27"), j |-> C("o27"), t |-> [k |-> "opt", t |-> T_u8], w |-> [k |-> "opt", t |-> T_u8], px |-> "", o |-> TRUE, jm |-> <<"def", <<"none">>>>, rm |-> <<"def", <<"none">>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("o28"), j |-> C("o28"), t |-> [k |-> "opt", t |-> T_u8], w |-> [k |-> "opt", t |-> T_u8], px |-> "", o |-> TRUE, jm |-> <<"def", <<"none">>>>, rm |-> <<"def", <<"none">>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("o29"), j |-> C("o29"), t |-> [k |-> "opt", t |-> T_u8], w |-> [k |-> "opt", t |-> T_u8], px |-> "", o |-> TRUE, jm |-> <<"def", <<"none">>>>, rm |-> <<"def", <<"none">>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("o30"), j |-> C("o30"), t |-> [k |-> "opt", t |-> T_u8], w |-> [k |-> "opt", t |-> T_u8], px |-> "", o |-> TRUE, jm |-> <<"def", <<"none">>>>, rm |-> <<"def", <<"none">>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("o31"), j |-> C("o31"), t |-> [k |-> "opt", t |-> T_u8], w |-> [k |-> "opt", t |-> T_u8], px |-> "", o |-> TRUE, jm |-> <<"def", <<"none">>>>, rm |-> <<"def", <<"none">>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("o32"), j |-> C("o32"), t |-> [k |-> "opt", t |-> T_u8], w |-> [k |-> "opt", t |-> T_u8], px |-> "", o |-> TRUE, jm |-> <<"def", <<"none">>>>, rm |-> <<"def", <<"none">>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("o33"), j |-> C("o33"), t |-> [k |-> "opt", t |-> T_u8], w |-> [k |-> "opt", t |-> T_u8], px |-> "", o |-> TRUE, jm |-> <<"def", <<"none">>>>, rm |-> <<"def", <<"none">>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("o34"), j |-> C("o34"), t |-> [k |-> "opt", t |-> T_u8], w |-> [k |-> "opt", t |-> T_u8], px |-> "", o |-> TRUE, jm |-> <<"def", <<"none">>>>, rm |-> <<"def", <<"none">>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("o35"), j |-> C("o35"), t |-> [k |-> "opt", t |-> T_u8], w |-> [k |-> "opt", t |-> T_u8], px |-> "", o |-> TRUE, jm |-> <<"def", <<"none">>>>, rm |-> <<"def", <<"none">>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("o36"), j |-> C("o36"), t |-> [k |-> "opt", t |-> T_u8], w |-> [k |-> "opt", t |-> T_u8], px |-> "", o |-> TRUE, jm |-> <<"def", <<"none">>>>, rm |-> <<"def", <<"none">>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("o37"), j |-> C("o37"), t |-> [k |-> "opt", t |-> T_u8], w |-> [k |-> "opt", t |-> T_u8], px |-> "", o |-> TRUE, jm |-> <<"def", <<"none">>>>, rm |-> <<"def", <<"none">>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("o38"), j |-> C("o38"), t |-> [k |-> "opt", t |-> T_u8], w |-> [k |-> "opt", t |-> T_u8], px |-> "", o |-> TRUE, jm |-> <<"def", <<"none">>>>, rm |-> <<"def", <<"none">>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("o39"), j |-> C("o39"), t |-> [k |-> "opt", t |-> T_u8], w |-> [k |-> "opt", t |-> T_u8], px |-> "", o |-> TRUE, jm |-> <<"def", <<"none">>>>, rm |-> <<"def", <<"none">>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("o40"), j |-> C("o40"), t |-> [k |-> "opt", t |-> T_u8], w |-> [k |-> "opt", t |-> T_u8], px |-> "", o |-> TRUE, jm |-> <<"def", <<"none">>>>, rm |-> <<"def", <<"none">>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("o41"), j |-> C("o41"), t |-> [k |-> "opt", t |-> T_u8], w |-> [k |-> "opt", t |-> T_u8], px |-> "", o |-> TRUE, jm |-> <<"def", <<"none">>>>, rm |-> <<"def", <<"none">>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("o42"), j |-> C("o42"), t |-> [k |-> "opt", t |-> T_u8], w |-> [k |-> "opt", t |-> T_u8], px |-> "", o |-> TRUE, jm |-> <<"def", <<"none">>>>, rm |-> <<"def", <<"none">>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("o43"), j |-> C("o43"), t |-> [k |-> "opt", t |-> T_u8], w |-> [k |-> "opt", t |-> T_u8], px |-> "", o |-> TRUE, jm |-> <<"def", <<"none">>>>, rm |-> <<"def", <<"none">>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("o44"), j |-> C("o44"), t |-> [k |-> "opt", t |-> T_u8], w |-> [k |-> "opt", t |-> T_u8], px |-> "", o |-> TRUE, jm |-> <<"def", <<"none">>>>, rm |-> <<"def", <<"none">>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("o45"), j |-> C("o45"), t |-> [k |-> "opt", t |-> T_u8], w |-> [k |-> "opt", t |-> T_u8], px |-> "", o |-> TRUE, jm |-> <<"def", <<"none">>>>, rm |-> <<"def", <<"none">>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("o46"), j |-> C("o46"), t |-> [k |-> "opt", t |-> T_u8], w |-> [k |-> "opt", t |-> T_u8], px |-> "", o |-> TRUE, jm |-> <<"def", <<"none">>>>, rm |-> <<"def", <<"none">>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("o47"), j |-> C("o47"), t |-> [k |-> "opt", t |-> T_u8], w |-> [k |-> "opt", t |-> T_u8], px |-> "", o |-> TRUE, jm |-> <<"def", <<"none">>>>, rm |-> <<"def", <<"none">>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("o48"), j |-> C("o48"), t |-> [k |-> "opt", t |-> T_u8], w |-> [k |-> "opt", t |-> T_u8], px |-> "", o |-> TRUE, jm |-> <<"def", <<"none">>>>, rm |-> <<"def", <<"none">>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("o49"), j |-> C("o49"), t |-> [k |-> "opt", t |-> T_u8], w |-> [k |-> "opt", t |-> T_u8], px |-> "", o |-> TRUE, jm |-> <<"def", <<"none">>>>, rm |-> <<"def", <<"none">>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("o50"), j |-> C("o50"), t |-> [k |-> "opt", t |-> T_u8], w |-> [k |-> "opt", t |-> T_u8], px |-> "", o |-> TRUE, jm |-> <<"def", <<"none">>>>, rm |-> <<"def", <<"none">>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("o51"), j |-> C("o51"), t |-> [k |-> "opt", t |-> T_u8], w |-> [k |-> "opt", t |-> T_u8], px |-> "", o |-> TRUE, jm |-> <<"def", <<"none">>>>, rm |-> <<"def", <<"none">>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("o52"), j |-> C("o52"), t |-> [k |-> "opt", t |-> T_u8], w |-> [k |-> "opt", t |-> T_u8], px |-> "", o |-> TRUE, jm |-> <<"def", <<"none">>>>, rm |-> <<"def", <<"none">>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("o53"), j |-> C("o53"), t |-> [k |-> "opt", t |-> T_u8], w |-> [k |-> "opt", t |-> T_u8], px |-> "", o |-> TRUE, jm |-> <<"def", <<"none">>>>, rm |-> <<"def", <<"none">>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("o54"), j |-> C("o54"), t |-> [k |-> "opt", t |-> T_u8], w |-> [k |-> "opt", t |-> T_u8], px |-> "", o |-> TRUE, jm |-> <<"def", <<"none">>>>, rm |-> <<"def", <<"none">>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("o55"), j |-> C("o55"), t |-> [k |-> "opt", t |-> T_u8], w |-> [k |-> "opt", t |-> T_u8], px |-> "", o |-> TRUE, jm |-> <<"def", <<"none">>>>, rm |-> <<"def", <<"none">>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("o56"), j |-> C("o56"), t |-> [k |-> "opt", t |-> T_u8], w |-> [k |-> "opt", t |-> T_u8], px |-> "", o |-> TRUE, jm |-> <<"def", <<"none">>>>, rm |-> <<"def", <<"none">>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("o57"), j |-> C("o57"), t |-> [k |-> "opt", t |-> T_u8], w |-> [k |-> "opt", t |-> T_u8], px |-> "", o |-> TRUE, jm |-> <<"def", <<"none">>>>, rm |-> <<"def", <<"none">>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("o58"), j |-> C("o58"), t |-> [k |-> "opt", t |-> T_u8], w |-> [k |-> "opt", t |-> T_u8], px |-> "", o |-> TRUE, jm |-> <<"def", <<"none">>>>, rm |-> <<"def", <<"none">>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("o59"), j |-> C("o59"), t |-> [k |-> "opt", t |-> T_u8], w |-> [k |-> "opt", t |-> T_u8], px |-> "", o |-> TRUE, jm |-> <<"def", <<"none">>>>, rm |-> <<"def", <<"none">>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("o60"), j |-> C("o60"), t |-> [k |-> "opt", t |-> T_u8], w |-> [k |-> "opt", t |-> T_u8], px |-> "", o |-> TRUE, jm |-> <<"def", <<"none">>>>, rm |-> <<"def", <<"none">>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("o61"), j |-> C("o61"), t |-> [k |-> "opt", t |-> T_u8], w |-> [k |-> "opt", t |-> T_u8], px |-> "", o |-> TRUE, jm |-> <<"def", <<"none">>>>, rm |-> <<"def", <<"none">>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("o62"), j |-> C("o62"), t |-> [k |-> "opt", t |-> T_u8], w |-> [k |-> "opt", t |-> T_u8], px |-> "", o |-> TRUE, jm |-> <<"def", <<"none">>>>, rm |-> <<"def", <<"none">>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("o63"), j |-> C("o63"), t |-> [k |-> "opt", t |-> T_u8], w |-> [k |-> "opt", t |-> T_u8], px |-> "", o |-> TRUE, jm |-> <<"def", <<"none">>>>, rm |-> <<"def", <<"none">>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("o64"), j |-> C("o64"), t |-> [k |-> "opt", t |-> T_u8], w |-> [k |-> "opt", t |-> T_u8], px |-> "", o |-> TRUE, jm |-> <<"def", <<"none">>>>, rm |-> <<"def", <<"none">>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("o65"), j |-> C("o65"), t |-> [k |-> "opt", t |-> T_u8], w |-> [k |-> "opt", t |-> T_u8], px |-> "", o |-> TRUE, jm |-> <<"def", <<"none">>>>, rm |-> <<"def", <<"none">>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("o66"), j |-> C("o66"), t |-> [k |-> "opt", t |-> T_u8], w |-> [k |-> "opt", t |-> T_u8], px |-> "", o |-> TRUE, jm |-> <<"def", <<"none">>>>, rm |-> <<"def", <<"none">>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("o67"), j |-> C("o67"), t |-> [k |-> "opt", t |-> T_u8], w |-> [k |-> "opt", t |-> T_u8], px |-> "", o |-> TRUE, jm |-> <<"def", <<"none">>>>, rm |-> <<"def", <<"none">>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("o68"), j |-> C("o68"), t |-> [k |-> "opt", t |-> T_u8], w |-> [k |-> "opt", t |-> T_u8], px |-> "", o |-> TRUE, jm |-> <<"def", <<"none">>>>, rm |-> <<"def", <<"none">>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("o69"), j |-> C("o69"), t |-> [k |-> "opt", t |-> T_u8], w |-> [k |-> "opt", t |-> T_u8], px |-> "", o |-> TRUE, jm |-> <<"def", <<"none">>>>, rm |-> <<"def", <<"none">>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE]>>]
T_Ks0 == [k |-> "struct", fs |-> <<[f |-> C("a"), j |-> C("a"), t |-> [k |-> "tup", ts |-> <<T_u8, T_String>>], w |-> [k |-> "tup", ts |-> <<T_u8, T_String>>], px |-> "", o |-> FALSE, jm |-> <<"def", <<"tup", <<<<"int", C("0")>>, <<"str", <<>>>>>>>>>>, rm |-> <<"def", <<"tup", <<<<"int", C("0")>>, <<"str", <<>>>>>>>>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("b"), j |-> C("z"), t |-> [k |-> "opt", t |-> T_u8], w |-> [k |-> "opt", t |-> T_u8], px |-> "", o |-> TRUE, jm |-> <<"def", <<"none">>>>, rm |-> <<"def", <<"none">>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("cc"), j |-> C("w9"), t |-> [k |-> "tup", ts |-> <<T_u8, T_String>>], w |-> [k |-> "tup", ts |-> <<T_u8, T_String>>], px |-> "", o |-> FALSE, jm |-> <<"def", <<"tup", <<<<"int", C("0")>>, <<"str", <<>>>>>>>>>>, rm |-> <<"def", <<"tup", <<<<"int", C("0")>>, <<"str", <<>>>>>>>>>>, s |-> TRUE, sv |-> <<"tup", <<<<"int", C("0")>>, <<"str", <<>>>>>>>>, bv |-> <<"tup", <<<<"int", C("0")>>, <<"str", <<>>>>>>>>, nn |-> FALSE],
      [f |-> C("d_1"), j |-> C("ex"), t |-> T_i64, w |-> T_i64, px |-> "", o |-> FALSE, jm |-> <<"def", <<"int", C("-9000000000")>>>>, rm |-> <<"def", <<"int", C("-9000000000")>>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("e"), j |-> C("e"), t |-> T_u8, w |-> T_u8, px |-> "", o |-> FALSE, jm |-> <<"def", <<"int", C("0")>>>>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE]>>]
T_Ks1__i == [k |-> "struct", fs |-> <<[f |-> C("a"), j |-> C("e"), t |-> [k |-> "opt", t |-> T_u8], w |-> [k |-> "opt", t |-> T_u8], px |-> "", o |-> TRUE, jm |-> <<"def", <<"none">>>>, rm |-> <<"def", <<"none">>>>, s |-> TRUE, sv |-> <<"none">>, bv |-> <<"none">>, nn |-> FALSE],
      [f |-> C("b"), j |-> C("b"), t |-> T_u8, w |-> T_u8, px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("cc"), j |-> C("w9"), t |-> T_i32, w |-> T_i32, px |-> "", o |-> FALSE, jm |-> <<"def", <<"int", C("-7")>>>>, rm |-> <<"def", <<"int", C("-7")>>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("d_1"), j |-> C("ex"), t |-> T_u16, w |-> T_i32, px |-> "scale", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("e"), j |-> C("Yy"), t |-> [k |-> "opt", t |-> T_Plain], w |-> [k |-> "opt", t |-> T_Plain], px |-> "", o |-> TRUE, jm |-> <<"def", <<"none">>>>, rm |-> <<"def", <<"none">>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE]>>]
T_Ks2__i == [k |-> "struct", fs |-> <<[f |-> C("a"), j |-> C("fn_"), t |-> [k |-> "tup", ts |-> <<T_u8, T_String>>], w |-> [k |-> "tup", ts |-> <<T_u8, T_String>>], px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("b"), j |-> C("b"), t |-> [k |-> "tup", ts |-> <<T_u8, T_String>>], w |-> [k |-> "tup", ts |-> <<T_u8, T_String>>], px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("cc"), j |-> C("cc"), t |-> [k |-> "opt", t |-> T_bool], w |-> [k |-> "opt", t |-> T_bool], px |-> "", o |-> TRUE, jm |-> <<"def", <<"some", <<"bool", 1>>>>>>, rm |-> <<"def", <<"some", <<"bool", 1>>>>>>, s |-> TRUE, sv |-> <<"some", <<"bool", 1>>>>, bv |-> <<"none">>, nn |-> TRUE],
      [f |-> C("d_1"), j |-> C("d_1"), t |-> [k |-> "opt", t |-> T_u8], w |-> [k |-> "opt", t |-> T_u8], px |-> "", o |-> TRUE, jm |-> <<"def", <<"none">>>>, rm |-> <<"def", <<"none">>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> TRUE],
      [f |-> C("e"), j |-> C("a"), t |-> [k |-> "opt", t |-> T_u8], w |-> [k |-> "opt", t |-> T_u8], px |-> "", o |-> TRUE, jm |-> <<"def", <<"none">>>>, rm |-> <<"def", <<"none">>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> TRUE]>>]
T_Ks3__i == [k |-> "struct", fs |-> <<[f |-> C("a"), j |-> C("a"), t |-> [k |-> "opt", t |-> T_u8], w |-> [k |-> "opt", t |-> T_u8], px |-> "", o |-> TRUE, jm |-> <<"def", <<"none">>>>, rm |-> <<"def", <<"none">>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> TRUE],
      [f |-> C("b"), j |-> C("ax"), t |-> [k |-> "seq", t |-> T_String], w |-> [k |-> "seq", t |-> T_String], px |-> "", o |-> FALSE, jm |-> <<"def", <<"seq", <<>>>>>>, rm |-> <<"def", <<"seq", <<>>>>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("cc"), j |-> C("ex"), t |-> [k |-> "opt", t |-> T_Plain], w |-> [k |-> "opt", t |-> T_Plain], px |-> "", o |-> TRUE, jm |-> <<"def", <<"none">>>>, rm |-> <<"def", <<"none">>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> TRUE],
      [f |-> C("d_1"), j |-> C("d_1"), t |-> [k |-> "set", h |-> FALSE, t |-> T_i32], w |-> [k |-> "set", h |-> FALSE, t |-> T_i32], px |-> "", o |-> FALSE, jm |-> <<"def", <<"seq", <<>>>>>>, rm |-> <<"def", <<"seq", <<>>>>>>, s |-> TRUE, sv |-> <<"seq", <<>>>>, bv |-> <<"seq", <<>>>>, nn |-> FALSE],
      [f |-> C("e"), j |-> C("e"), t |-> [k |-> "opt", t |-> T_u8], w |-> [k |-> "opt", t |-> T_u8], px |-> "", o |-> TRUE, jm |-> <<"def", <<"none">>>>, rm |-> <<"def", <<"none">>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> TRUE]>>]
T_Ks4 == [k |-> "struct", fs |-> <<[f |-> C("a"), j |-> C("a"), t |-> T_String, w |-> T_String, px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("b"), j |-> C("fn_"), t |-> T_u16, w |-> T_i32, px |-> "scale", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("cc"), j |-> C("cc"), t |-> [k |-> "opt", t |-> [k |-> "seq", t |-> T_u8]], w |-> [k |-> "opt", t |-> [k |-> "seq", t |-> T_u8]], px |-> "", o |-> TRUE, jm |-> <<"def", <<"none">>>>, rm |-> <<"def", <<"none">>>>, s |-> TRUE, sv |-> <<"none">>, bv |-> <<"none">>, nn |-> FALSE],
      [f |-> C("d_1"), j |-> C("d_1"), t |-> [k |-> "seq", t |-> T_u8], w |-> [k |-> "seq", t |-> T_u8], px |-> "", o |-> FALSE, jm |-> <<"def", <<"seq", <<<<"int", C("7")>>, <<"int", C("9")>>>>>>>>, rm |-> <<"def", <<"seq", <<<<"int", C("7")>>, <<"int", C("9")>>>>>>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("e"), j |-> C("e"), t |-> T_String, w |-> T_String, px |-> "", o |-> FALSE, jm |-> <<"def", <<"str", <<>>>>>>, rm |-> <<"def", <<"str", <<>>>>>>, s |-> TRUE, sv |-> <<"str", <<>>>>, bv |-> <<"str", <<>>>>, nn |-> FALSE]>>]
T_Ks5 == [k |-> "struct", fs |-> <<[f |-> C("a"), j |-> C("fn_"), t |-> T_bool, w |-> T_bool, px |-> "", o |-> FALSE, jm |-> <<"def", <<"bool", 0>>>>, rm |-> <<"def", <<"bool", 0>>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("b"), j |-> C("w9"), t |-> [k |-> "opt", t |-> T_bool], w |-> [k |-> "opt", t |-> T_bool], px |-> "", o |-> TRUE, jm |-> <<"def", <<"none">>>>, rm |-> <<"def", <<"none">>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("cc"), j |-> C("cc"), t |-> T_Opts, w |-> T_Opts, px |-> "", o |-> FALSE, jm |-> <<"def", <<"rec", <<<<"none">>, <<"none">>, <<"int", C("0")>>, <<"none">>>>>>>>, rm |-> <<"def", <<"rec", <<<<"none">>, <<"none">>, <<"int", C("0")>>, <<"none">>>>>>>>, s |-> TRUE, sv |-> <<"rec", <<<<"none">>, <<"none">>, <<"int", C("0")>>, <<"none">>>>>>, bv |-> <<"rec", <<<<"none">>, <<"none">>, <<"int", C("0")>>, <<"none">>>>>>, nn |-> FALSE],
      [f |-> C("d_1"), j |-> C("ex"), t |-> [k |-> "map", h |-> FALSE, kt |-> T_String, vt |-> T_u8], w |-> [k |-> "map", h |-> FALSE, kt |-> T_String, vt |-> T_u8], px |-> "", o |-> FALSE, jm |-> <<"def", <<"map", <<>>>>>>, rm |-> <<"def", <<"map", <<>>>>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("e"), j |-> C("e"), t |-> [k |-> "opt", t |-> T_u8], w |-> [k |-> "opt", t |-> T_u8], px |-> "", o |-> TRUE, jm |-> <<"def", <<"none">>>>, rm |-> <<"def", <<"none">>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE]>>]
T_Ks6__i == [k |-> "struct", fs |-> <<[f |-> C("a"), j |-> C("w9"), t |-> T_Plain, w |-> T_Plain, px |-> "", o |-> FALSE, jm |-> <<"def", <<"rec", <<<<"int", C("0")>>, <<"str", <<>>>>, <<"int", C("0")>>>>>>>>, rm |-> <<"def", <<"rec", <<<<"int", C("0")>>, <<"str", <<>>>>, <<"int", C("0")>>>>>>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("b"), j |-> C("w9x"), t |-> [k |-> "seq", t |-> T_u8], w |-> [k |-> "seq", t |-> T_u8], px |-> "", o |-> FALSE, jm |-> <<"def", <<"seq", <<>>>>>>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("cc"), j |-> C("ex"), t |-> [k |-> "opt", t |-> T_Uni], w |-> [k |-> "opt", t |-> T_Uni], px |-> "", o |-> TRUE, jm |-> <<"def", <<"none">>>>, rm |-> <<"def", <<"none">>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> TRUE],
      [f |-> C("d_1"), j |-> C("d_1"), t |-> [k |-> "arr", n |-> 2, t |-> [k |-> "opt", t |-> T_bool]], w |-> [k |-> "arr", n |-> 2, t |-> [k |-> "opt", t |-> T_bool]], px |-> "", o |-> FALSE, jm |-> <<"def", <<"seq", <<<<"none">>, <<"none">>>>>>>>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("e"), j |-> C("e"), t |-> [k |-> "opt", t |-> T_String], w |-> [k |-> "opt", t |-> T_String], px |-> "", o |-> TRUE, jm |-> <<"def", <<"none">>>>, rm |-> <<"def", <<"none">>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("u_"), j |-> C("u_"), t |-> [k |-> "seq", t |-> T_String], w |-> [k |-> "seq", t |-> T_String], px |-> "", o |-> FALSE, jm |-> <<"def", <<"seq", <<>>>>>>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE]>>]
T_Ks7 == [k |-> "struct", fs |-> <<[f |-> C("a"), j |-> C("a"), t |-> [k |-> "map", h |-> FALSE, kt |-> T_String, vt |-> T_u8], w |-> [k |-> "map", h |-> FALSE, kt |-> T_String, vt |-> T_u8], px |-> "", o |-> FALSE, jm |-> <<"def", <<"map", <<>>>>>>, rm |-> <<"def", <<"map", <<>>>>>>, s |-> TRUE, sv |-> <<"map", <<>>>>, bv |-> <<"map", <<>>>>, nn |-> FALSE],
      [f |-> C("b"), j |-> C("e"), t |-> [k |-> "seq", t |-> [k |-> "opt", t |-> T_bool]], w |-> [k |-> "seq", t |-> [k |-> "opt", t |-> T_bool]], px |-> "", o |-> FALSE, jm |-> <<"def", <<"seq", <<>>>>>>, rm |-> <<"def", <<"seq", <<>>>>>>, s |-> TRUE, sv |-> <<"seq", <<>>>>, bv |-> <<"seq", <<>>>>, nn |-> FALSE],
      [f |-> C("cc"), j |-> C("cc"), t |-> [k |-> "opt", t |-> T_Plain], w |-> [k |-> "opt", t |-> T_Plain], px |-> "", o |-> TRUE, jm |-> <<"def", <<"none">>>>, rm |-> <<"def", <<"none">>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> TRUE],
      [f |-> C("d_1"), j |-> C("d_1"), t |-> T_New, w |-> T_New, px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE]>>]
T_Ks8__i == [k |-> "struct", fs |-> <<[f |-> C("a"), j |-> C("a"), t |-> [k |-> "seq", t |-> T_u8], w |-> [k |-> "seq", t |-> T_u8], px |-> "", o |-> FALSE, jm |-> <<"def", <<"seq", <<>>>>>>, rm |-> <<"def", <<"seq", <<>>>>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("b"), j |-> C("b"), t |-> T_u8, w |-> T_u8, px |-> "", o |-> FALSE, jm |-> <<"def", <<"int", C("0")>>>>, rm |-> <<"def", <<"int", C("0")>>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("cc"), j |-> C("w9"), t |-> T_String, w |-> T_String, px |-> "", o |-> FALSE, jm |-> <<"def", <<"str", C("a b")>>>>, rm |-> <<"def", <<"str", C("a b")>>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("d_1"), j |-> C("d_1"), t |-> [k |-> "opt", t |-> T_Uni], w |-> [k |-> "opt", t |-> T_Uni], px |-> "", o |-> TRUE, jm |-> <<"def", <<"none">>>>, rm |-> <<"def", <<"none">>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("e"), j |-> C("e"), t |-> [k |-> "seq", t |-> T_String], w |-> [k |-> "seq", t |-> T_String], px |-> "", o |-> FALSE, jm |-> <<"def", <<"seq", <<>>>>>>, rm |-> <<"def", <<"seq", <<>>>>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("u_"), j |-> C("u_"), t |-> [k |-> "seq", t |-> T_String], w |-> [k |-> "seq", t |-> T_String], px |-> "", o |-> FALSE, jm |-> <<"def", <<"seq", <<>>>>>>, rm |-> <<"def", <<"seq", <<>>>>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE]>>]
T_Ks9 == [k |-> "struct", fs |-> <<[f |-> C("a"), j |-> C("a"), t |-> [k |-> "opt", t |-> T_Plain], w |-> [k |-> "opt", t |-> T_Plain], px |-> "", o |-> TRUE, jm |-> <<"def", <<"none">>>>, rm |-> <<"def", <<"none">>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> TRUE],
      [f |-> C("b"), j |-> C("w9"), t |-> T_bool, w |-> T_bool, px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("cc"), j |-> C("w9x"), t |-> T_String, w |-> T_WrapP, px |-> "wrap", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("d_1"), j |-> C("d_1"), t |-> T_String, w |-> T_String, px |-> "", o |-> FALSE, jm |-> <<"def", <<"str", C("a b")>>>>, rm |-> <<"def", <<"str", C("a b")>>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("e"), j |-> C("z"), t |-> [k |-> "set", h |-> FALSE, t |-> T_i32], w |-> [k |-> "set", h |-> FALSE, t |-> T_i32], px |-> "", o |-> FALSE, jm |-> <<"def", <<"seq", <<>>>>>>, rm |-> <<"def", <<"seq", <<>>>>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE]>>]
T_Ks10__i == [k |-> "struct", fs |-> <<[f |-> C("a"), j |-> C("a"), t |-> T_i32, w |-> T_i32, px |-> "", o |-> FALSE, jm |-> <<"def", <<"int", C("0")>>>>, rm |-> <<"def", <<"int", C("0")>>>>, s |-> TRUE, sv |-> <<"int", C("0")>>, bv |-> <<"int", C("0")>>, nn |-> FALSE],
      [f |-> C("b"), j |-> C("b"), t |-> T_String, w |-> T_String, px |-> "", o |-> FALSE, jm |-> <<"def", <<"str", <<>>>>>>, rm |-> <<"def", <<"str", <<>>>>>>, s |-> TRUE, sv |-> <<"str", <<>>>>, bv |-> <<"str", <<>>>>, nn |-> FALSE],
      [f |-> C("cc"), j |-> C("w9"), t |-> [k |-> "set", h |-> FALSE, t |-> T_i32], w |-> [k |-> "set", h |-> FALSE, t |-> T_i32], px |-> "", o |-> FALSE, jm |-> <<"def", <<"seq", <<>>>>>>, rm |-> <<"def", <<"seq", <<>>>>>>, s |-> TRUE, sv |-> <<"seq", <<>>>>, bv |-> <<"seq", <<>>>>, nn |-> FALSE],
      [f |-> C("d_1"), j |-> C("d_1"), t |-> T_String, w |-> T_String, px |-> "", o |-> FALSE, jm |-> <<"def", <<"str", <<>>>>>>, rm |-> <<"def", <<"str", <<>>>>>>, s |-> TRUE, sv |-> <<"str", <<>>>>, bv |-> <<"str", <<>>>>, nn |-> FALSE],
      [f |-> C("e"), j |-> C("e"), t |-> [k |-> "arr", n |-> 2, t |-> T_u8], w |-> [k |-> "arr", n |-> 2, t |-> T_u8], px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE]>>]
T_Ks11__i == [k |-> "struct", fs |-> <<[f |-> C("a"), j |-> C("a"), t |-> T_Plain, w |-> T_Plain, px |-> "", o |-> FALSE, jm |-> <<"def", <<"rec", <<<<"int", C("0")>>, <<"str", <<>>>>, <<"int", C("0")>>>>>>>>, rm |-> <<"def", <<"rec", <<<<"int", C("0")>>, <<"str", <<>>>>, <<"int", C("0")>>>>>>>>, s |-> TRUE, sv |-> <<"rec", <<<<"int", C("0")>>, <<"str", <<>>>>, <<"int", C("0")>>>>>>, bv |-> <<"rec", <<<<"int", C("0")>>, <<"str", <<>>>>, <<"int", C("0")>>>>>>, nn |-> FALSE],
      [f |-> C("b"), j |-> C("w9"), t |-> [k |-> "seq", t |-> T_String], w |-> [k |-> "seq", t |-> T_String], px |-> "", o |-> FALSE, jm |-> <<"def", <<"seq", <<>>>>>>, rm |-> <<"def", <<"seq", <<>>>>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("cc"), j |-> C("ax"), t |-> T_u8, w |-> T_u8, px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("d_1"), j |-> C("z"), t |-> [k |-> "opt", t |-> T_String], w |-> [k |-> "opt", t |-> T_String], px |-> "", o |-> TRUE, jm |-> <<"def", <<"none">>>>, rm |-> <<"def", <<"none">>>>, s |-> TRUE, sv |-> <<"none">>, bv |-> <<"none">>, nn |-> TRUE],
      [f |-> C("e"), j |-> C("Yy"), t |-> [k |-> "opt", t |-> T_u8], w |-> [k |-> "opt", t |-> T_u8], px |-> "", o |-> TRUE, jm |-> <<"def", <<"none">>>>, rm |-> <<"def", <<"none">>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> TRUE],
      [f |-> C("u_"), j |-> C("u_"), t |-> [k |-> "seq", t |-> T_String], w |-> [k |-> "seq", t |-> T_String], px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE]>>]
T_Ks12__i == [k |-> "struct", fs |-> <<[f |-> C("a"), j |-> C("a"), t |-> T_u8, w |-> T_u8, px |-> "", o |-> FALSE, jm |-> <<"def", <<"int", C("0")>>>>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("b"), j |-> C("b"), t |-> [k |-> "set", h |-> FALSE, t |-> T_i32], w |-> [k |-> "set", h |-> FALSE, t |-> T_i32], px |-> "", o |-> FALSE, jm |-> <<"def", <<"seq", <<>>>>>>, rm |-> <<"def", <<"seq", <<>>>>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("cc"), j |-> C("z"), t |-> T_Plain, w |-> T_Plain, px |-> "", o |-> FALSE, jm |-> <<"def", <<"rec", <<<<"int", C("0")>>, <<"str", <<>>>>, <<"int", C("0")>>>>>>>>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("d_1"), j |-> C("d_1"), t |-> [k |-> "opt", t |-> T_u8], w |-> [k |-> "opt", t |-> T_u8], px |-> "", o |-> TRUE, jm |-> <<"def", <<"none">>>>, rm |-> <<"def", <<"none">>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("e"), j |-> C("e"), t |-> T_f64, w |-> T_f64, px |-> "", o |-> FALSE, jm |-> <<"def", <<"flt", C("0.0")>>>>, rm |-> <<"def", <<"flt", C("0.0")>>>>, s |-> TRUE, sv |-> <<"flt", C("0.0")>>, bv |-> <<"flt", C("0.0")>>, nn |-> FALSE]>>]
T_Ks13 == [k |-> "struct", fs |-> <<[f |-> C("a"), j |-> C("w9"), t |-> [k |-> "seq", t |-> [k |-> "opt", t |-> T_bool]], w |-> [k |-> "seq", t |-> [k |-> "opt", t |-> T_bool]], px |-> "", o |-> FALSE, jm |-> <<"def", <<"seq", <<>>>>>>, rm |-> <<"def", <<"seq", <<>>>>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("b"), j |-> C("fn_"), t |-> T_String, w |-> T_String, px |-> "", o |-> FALSE, jm |-> <<"def", <<"str", <<>>>>>>, rm |-> <<"def", <<"str", <<>>>>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("cc"), j |-> C("cc"), t |-> T_u8, w |-> T_u8, px |-> "", o |-> FALSE, jm |-> <<"def", <<"int", C("0")>>>>, rm |-> <<"def", <<"int", C("0")>>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("d_1"), j |-> C("d_1"), t |-> T_String, w |-> T_String, px |-> "", o |-> FALSE, jm |-> <<"def", <<"str", C("a b")>>>>, rm |-> <<"def", <<"str", C("a b")>>>>, s |-> TRUE, sv |-> <<"str", C("a b")>>, bv |-> <<"str", <<>>>>, nn |-> FALSE],
      [f |-> C("e"), j |-> C("e"), t |-> T_u8, w |-> T_u8, px |-> "", o |-> FALSE, jm |-> <<"def", <<"int", C("0")>>>>, rm |-> <<"def", <<"int", C("0")>>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE]>>]
T_Ks14__i == [k |-> "struct", fs |-> <<[f |-> C("a"), j |-> C("fn_"), t |-> [k |-> "tup", ts |-> <<T_u8, T_String>>], w |-> [k |-> "tup", ts |-> <<T_u8, T_String>>], px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("b"), j |-> C("fn_x"), t |-> [k |-> "tup", ts |-> <<T_u8, T_String>>], w |-> [k |-> "tup", ts |-> <<T_u8, T_String>>], px |-> "", o |-> FALSE, jm |-> <<"def", <<"tup", <<<<"int", C("0")>>, <<"str", <<>>>>>>>>>>, rm |-> <<"def", <<"tup", <<<<"int", C("0")>>, <<"str", <<>>>>>>>>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("cc"), j |-> C("cc"), t |-> [k |-> "set", h |-> FALSE, t |-> T_i32], w |-> [k |-> "set", h |-> FALSE, t |-> T_i32], px |-> "", o |-> FALSE, jm |-> <<"def", <<"seq", <<>>>>>>, rm |-> <<"def", <<"seq", <<>>>>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("d_1"), j |-> C("d_1"), t |-> T_unit, w |-> T_unit, px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("e"), j |-> C("e"), t |-> [k |-> "opt", t |-> T_u8], w |-> [k |-> "opt", t |-> T_u8], px |-> "", o |-> TRUE, jm |-> <<"def", <<"none">>>>, rm |-> <<"def", <<"none">>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> TRUE]>>]
T_Ks15 == [k |-> "struct", fs |-> <<[f |-> C("a"), j |-> C("ex"), t |-> [k |-> "opt", t |-> T_u8], w |-> [k |-> "opt", t |-> T_u8], px |-> "", o |-> TRUE, jm |-> <<"def", <<"none">>>>, rm |-> <<"def", <<"none">>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> TRUE],
      [f |-> C("b"), j |-> C("b"), t |-> [k |-> "opt", t |-> [k |-> "seq", t |-> T_u8]], w |-> [k |-> "opt", t |-> [k |-> "seq", t |-> T_u8]], px |-> "", o |-> TRUE, jm |-> <<"def", <<"none">>>>, rm |-> <<"def", <<"none">>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("cc"), j |-> C("cc"), t |-> T_i64, w |-> T_i64, px |-> "", o |-> FALSE, jm |-> <<"def", <<"int", C("-9000000000")>>>>, rm |-> <<"def", <<"int", C("-9000000000")>>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("d_1"), j |-> C("exx"), t |-> T_i32, w |-> T_i32, px |-> "", o |-> FALSE, jm |-> <<"def", <<"int", C("0")>>>>, rm |-> <<"def", <<"int", C("0")>>>>, s |-> TRUE, sv |-> <<"int", C("0")>>, bv |-> <<"int", C("0")>>, nn |-> FALSE],
      [f |-> C("e"), j |-> C("e"), t |-> T_u8, w |-> T_u8, px |-> "", o |-> FALSE, jm |-> <<"def", <<"int", C("0")>>>>, rm |-> <<"def", <<"int", C("0")>>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE]>>]
T_Ks16__i == [k |-> "struct", fs |-> <<[f |-> C("a"), j |-> C("a"), t |-> T_u16, w |-> T_i32, px |-> "scale", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("b"), j |-> C("b"), t |-> T_bool, w |-> T_bool, px |-> "", o |-> FALSE, jm |-> <<"def", <<"bool", 1>>>>, rm |-> <<"def", <<"bool", 1>>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("cc"), j |-> C("cc"), t |-> T_bool, w |-> T_bool, px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("d_1"), j |-> C("z"), t |-> [k |-> "tup", ts |-> <<T_u8, T_String>>], w |-> [k |-> "tup", ts |-> <<T_u8, T_String>>], px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("e"), j |-> C("e"), t |-> T_bool, w |-> T_bool, px |-> "", o |-> FALSE, jm |-> <<"def", <<"bool", 0>>>>, rm |-> <<"def", <<"bool", 0>>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE]>>]
T_Ks17__i == [k |-> "struct", fs |-> <<[f |-> C("a"), j |-> C("fn_"), t |-> [k |-> "opt", t |-> T_Uni], w |-> [k |-> "opt", t |-> T_Uni], px |-> "", o |-> TRUE, jm |-> <<"def", <<"none">>>>, rm |-> <<"def", <<"none">>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("b"), j |-> C("b"), t |-> T_String, w |-> T_WrapP, px |-> "wrap", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("cc"), j |-> C("e"), t |-> [k |-> "tup", ts |-> <<T_u8, T_String>>], w |-> [k |-> "tup", ts |-> <<T_u8, T_String>>], px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("d_1"), j |-> C("ex"), t |-> T_u16, w |-> T_i32, px |-> "scale", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("e"), j |-> C("Yy"), t |-> [k |-> "opt", t |-> T_u8], w |-> [k |-> "opt", t |-> T_u8], px |-> "", o |-> TRUE, jm |-> <<"def", <<"none">>>>, rm |-> <<"def", <<"none">>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> TRUE]>>]
T_Ks18 == [k |-> "struct", fs |-> <<[f |-> C("a"), j |-> C("a"), t |-> T_i64, w |-> T_i64, px |-> "", o |-> FALSE, jm |-> <<"def", <<"int", C("0")>>>>, rm |-> <<"def", <<"int", C("0")>>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("b"), j |-> C("b"), t |-> T_bool, w |-> T_bool, px |-> "", o |-> FALSE, jm |-> <<"def", <<"bool", 0>>>>, rm |-> <<"def", <<"bool", 0>>>>, s |-> TRUE, sv |-> <<"bool", 0>>, bv |-> <<"bool", 0>>, nn |-> FALSE],
      [f |-> C("cc"), j |-> C("z"), t |-> T_Plain, w |-> T_Plain, px |-> "", o |-> FALSE, jm |-> <<"def", <<"rec", <<<<"int", C("0")>>, <<"str", <<>>>>, <<"int", C("0")>>>>>>>>, rm |-> <<"def", <<"rec", <<<<"int", C("0")>>, <<"str", <<>>>>, <<"int", C("0")>>>>>>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("d_1"), j |-> C("d_1"), t |-> T_u8, w |-> T_u8, px |-> "", o |-> FALSE, jm |-> <<"def", <<"int", C("5")>>>>, rm |-> <<"def", <<"int", C("5")>>>>, s |-> TRUE, sv |-> <<"int", C("5")>>, bv |-> <<"int", C("0")>>, nn |-> FALSE],
      [f |-> C("e"), j |-> C("Yy"), t |-> [k |-> "opt", t |-> T_String], w |-> [k |-> "opt", t |-> T_String], px |-> "", o |-> TRUE, jm |-> <<"def", <<"none">>>>, rm |-> <<"def", <<"none">>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE]>>]
T_Ks19__i == [k |-> "struct", fs |-> <<[f |-> C("a"), j |-> C("a"), t |-> [k |-> "arr", n |-> 2, t |-> T_u8], w |-> [k |-> "arr", n |-> 2, t |-> T_u8], px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("b"), j |-> C("b"), t |-> [k |-> "opt", t |-> T_String], w |-> [k |-> "opt", t |-> T_String], px |-> "", o |-> TRUE, jm |-> <<"def", <<"none">>>>, rm |-> <<"def", <<"none">>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> TRUE],
      [f |-> C("cc"), j |-> C("cc"), t |-> T_f64, w |-> T_f64, px |-> "", o |-> FALSE, jm |-> <<"def", <<"flt", C("2.5")>>>>, rm |-> <<"def", <<"flt", C("2.5")>>>>, s |-> TRUE, sv |-> <<"flt", C("2.5")>>, bv |-> <<"flt", C("0.0")>>, nn |-> FALSE],
      [f |-> C("d_1"), j |-> C("d_1"), t |-> T_i64, w |-> T_i64, px |-> "", o |-> FALSE, jm |-> <<"def", <<"int", C("-9000000000")>>>>, rm |-> <<"def", <<"int", C("-9000000000")>>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE]>>]
T_Ks20__i == [k |-> "struct", fs |-> <<[f |-> C("a"), j |-> C("a"), t |-> [k |-> "opt", t |-> T_u8], w |-> [k |-> "opt", t |-> T_u8], px |-> "", o |-> TRUE, jm |-> <<"def", <<"none">>>>, rm |-> <<"def", <<"none">>>>, s |-> TRUE, sv |-> <<"none">>, bv |-> <<"none">>, nn |-> TRUE],
      [f |-> C("b"), j |-> C("ax"), t |-> T_u8, w |-> T_u8, px |-> "", o |-> FALSE, jm |-> <<"def", <<"int", C("5")>>>>, rm |-> <<"def", <<"int", C("5")>>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("cc"), j |-> C("cc"), t |-> [k |-> "opt", t |-> T_u8], w |-> [k |-> "opt", t |-> T_u8], px |-> "", o |-> TRUE, jm |-> <<"def", <<"none">>>>, rm |-> <<"def", <<"none">>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> TRUE],
      [f |-> C("d_1"), j |-> C("d_1"), t |-> T_Plain, w |-> T_Plain, px |-> "", o |-> FALSE, jm |-> <<"def", <<"rec", <<<<"int", C("0")>>, <<"str", <<>>>>, <<"int", C("0")>>>>>>>>, rm |-> <<"def", <<"rec", <<<<"int", C("0")>>, <<"str", <<>>>>, <<"int", C("0")>>>>>>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("e"), j |-> C("e"), t |-> [k |-> "map", h |-> FALSE, kt |-> T_String, vt |-> T_u8], w |-> [k |-> "map", h |-> FALSE, kt |-> T_String, vt |-> T_u8], px |-> "", o |-> FALSE, jm |-> <<"def", <<"map", <<>>>>>>, rm |-> <<"def", <<"map", <<>>>>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE]>>]
T_Ks21__i == [k |-> "struct", fs |-> <<[f |-> C("a"), j |-> C("fn_"), t |-> [k |-> "opt", t |-> T_u8], w |-> [k |-> "opt", t |-> T_u8], px |-> "", o |-> TRUE, jm |-> <<"def", <<"none">>>>, rm |-> <<"def", <<"none">>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> TRUE],
      [f |-> C("b"), j |-> C("b"), t |-> [k |-> "opt", t |-> T_bool], w |-> [k |-> "opt", t |-> T_bool], px |-> "", o |-> TRUE, jm |-> <<"def", <<"none">>>>, rm |-> <<"def", <<"none">>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> TRUE],
      [f |-> C("cc"), j |-> C("cc"), t |-> [k |-> "opt", t |-> T_u8], w |-> [k |-> "opt", t |-> T_u8], px |-> "", o |-> TRUE, jm |-> <<"def", <<"none">>>>, rm |-> <<"def", <<"none">>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("d_1"), j |-> C("ex"), t |-> [k |-> "arr", n |-> 2, t |-> T_u8], w |-> [k |-> "arr", n |-> 2, t |-> T_u8], px |-> "", o |-> FALSE, jm |-> <<"def", <<"seq", <<<<"int", C("0")>>, <<"int", C("0")>>>>>>>>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("e"), j |-> C("e"), t |-> T_String, w |-> T_String, px |-> "", o |-> FALSE, jm |-> <<"def", <<"str", C("dee")>>>>, rm |-> <<"def", <<"str", C("dee")>>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE]>>]
T_Ks22__i == [k |-> "struct", fs |-> <<[f |-> C("a"), j |-> C("a"), t |-> T_u16, w |-> T_i32, px |-> "scale", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("b"), j |-> C("b"), t |-> T_String, w |-> T_WrapP, px |-> "wrap", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("cc"), j |-> C("cc"), t |-> T_f64, w |-> T_f64, px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("d_1"), j |-> C("z"), t |-> [k |-> "opt", t |-> T_u8], w |-> [k |-> "opt", t |-> T_u8], px |-> "", o |-> TRUE, jm |-> <<"def", <<"none">>>>, rm |-> <<"def", <<"none">>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> TRUE],
      [f |-> C("e"), j |-> C("e"), t |-> T_String, w |-> T_String, px |-> "", o |-> FALSE, jm |-> <<"def", <<"str", <<>>>>>>, rm |-> <<"def", <<"str", <<>>>>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE]>>]
T_Ks23__i == [k |-> "struct", fs |-> <<[f |-> C("a"), j |-> C("Yy"), t |-> T_u8, w |-> T_u8, px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("b"), j |-> C("b"), t |-> T_u16, w |-> T_i32, px |-> "scale", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("cc"), j |-> C("ex"), t |-> T_bool, w |-> T_bool, px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("d_1"), j |-> C("z"), t |-> [k |-> "seq", t |-> T_u8], w |-> [k |-> "seq", t |-> T_u8], px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("e"), j |-> C("e"), t |-> T_String, w |-> T_String, px |-> "", o |-> FALSE, jm |-> <<"def", <<"str", C("a b")>>>>, rm |-> <<"def", <<"str", C("a b")>>>>, s |-> TRUE, sv |-> <<"str", C("a b")>>, bv |-> <<"str", <<>>>>, nn |-> FALSE]>>]
T_Ks24__i == [k |-> "struct", fs |-> <<[f |-> C("a"), j |-> C("a"), t |-> T_u8, w |-> T_u8, px |-> "", o |-> FALSE, jm |-> <<"def", <<"int", C("0")>>>>, rm |-> <<"def", <<"int", C("0")>>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("b"), j |-> C("w9"), t |-> [k |-> "opt", t |-> T_u8], w |-> [k |-> "opt", t |-> T_u8], px |-> "", o |-> TRUE, jm |-> <<"def", <<"none">>>>, rm |-> <<"def", <<"none">>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> TRUE],
      [f |-> C("cc"), j |-> C("cc"), t |-> T_i64, w |-> T_i64, px |-> "", o |-> FALSE, jm |-> <<"def", <<"int", C("-9000000000")>>>>, rm |-> <<"def", <<"int", C("-9000000000")>>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("d_1"), j |-> C("d_1"), t |-> [k |-> "opt", t |-> T_u8], w |-> [k |-> "opt", t |-> T_u8], px |-> "", o |-> TRUE, jm |-> <<"def", <<"none">>>>, rm |-> <<"def", <<"none">>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> TRUE],
      [f |-> C("e"), j |-> C("e"), t |-> [k |-> "opt", t |-> T_u8], w |-> [k |-> "opt", t |-> T_u8], px |-> "", o |-> TRUE, jm |-> <<"def", <<"none">>>>, rm |-> <<"def", <<"none">>>>, s |-> TRUE, sv |-> <<"none">>, bv |-> <<"none">>, nn |-> TRUE],
      [f |-> C("u_"), j |-> C("u_"), t |-> [k |-> "seq", t |-> T_String], w |-> [k |-> "seq", t |-> T_String], px |-> "", o |-> FALSE, jm |-> <<"def", <<"seq", <<>>>>>>, rm |-> <<"def", <<"seq", <<>>>>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE]>>]
T_Ks25 == [k |-> "struct", fs |-> <<[f |-> C("a"), j |-> C("a"), t |-> T_dur, w |-> T_dur, px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("b"), j |-> C("fn_"), t |-> T_f64, w |-> T_f64, px |-> "", o |-> FALSE, jm |-> <<"def", <<"flt", C("0.0")>>>>, rm |-> <<"def", <<"flt", C("0.0")>>>>, s |-> TRUE, sv |-> <<"flt", C("0.0")>>, bv |-> <<"flt", C("0.0")>>, nn |-> FALSE],
      [f |-> C("cc"), j |-> C("cc"), t |-> T_Uni, w |-> T_Uni, px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("d_1"), j |-> C("d_1"), t |-> [k |-> "opt", t |-> [k |-> "tup", ts |-> <<T_u8, T_bool>>]], w |-> [k |-> "opt", t |-> [k |-> "tup", ts |-> <<T_u8, T_bool>>]], px |-> "", o |-> TRUE, jm |-> <<"def", <<"none">>>>, rm |-> <<"def", <<"none">>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("e"), j |-> C("z"), t |-> T_f64, w |-> T_f64, px |-> "", o |-> FALSE, jm |-> <<"def", <<"flt", C("0.0")>>>>, rm |-> <<"def", <<"flt", C("0.0")>>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE]>>]
T_Ks26__i == [k |-> "struct", fs |-> <<[f |-> C("a"), j |-> C("fn_"), t |-> [k |-> "seq", t |-> T_String], w |-> [k |-> "seq", t |-> T_String], px |-> "", o |-> FALSE, jm |-> <<"def", <<"seq", <<>>>>>>, rm |-> <<"def", <<"seq", <<>>>>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("b"), j |-> C("b"), t |-> [k |-> "set", h |-> FALSE, t |-> T_i32], w |-> [k |-> "set", h |-> FALSE, t |-> T_i32], px |-> "", o |-> FALSE, jm |-> <<"def", <<"seq", <<>>>>>>, rm |-> <<"def", <<"seq", <<>>>>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("cc"), j |-> C("e"), t |-> [k |-> "seq", t |-> T_u8], w |-> [k |-> "seq", t |-> T_u8], px |-> "", o |-> FALSE, jm |-> <<"def", <<"seq", <<>>>>>>, rm |-> <<"def", <<"seq", <<>>>>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("d_1"), j |-> C("d_1"), t |-> [k |-> "opt", t |-> [k |-> "tup", ts |-> <<T_u8, T_bool>>]], w |-> [k |-> "opt", t |-> [k |-> "tup", ts |-> <<T_u8, T_bool>>]], px |-> "", o |-> TRUE, jm |-> <<"def", <<"none">>>>, rm |-> <<"def", <<"none">>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> TRUE],
      [f |-> C("e"), j |-> C("z"), t |-> [k |-> "arr", n |-> 2, t |-> T_u8], w |-> [k |-> "arr", n |-> 2, t |-> T_u8], px |-> "", o |-> FALSE, jm |-> <<"def", <<"seq", <<<<"int", C("0")>>, <<"int", C("0")>>>>>>>>, rm |-> <<"def", <<"seq", <<<<"int", C("0")>>, <<"int", C("0")>>>>>>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE]>>]
T_Ks27 == [k |-> "struct", fs |-> <<[f |-> C("a"), j |-> C("a"), t |-> T_Plain, w |-> T_Plain, px |-> "", o |-> FALSE, jm |-> <<"def", <<"rec", <<<<"int", C("0")>>, <<"str", <<>>>>, <<"int", C("0")>>>>>>>>, rm |-> <<"def", <<"rec", <<<<"int", C("0")>>, <<"str", <<>>>>, <<"int", C("0")>>>>>>>>, s |-> TRUE, sv |-> <<"rec", <<<<"int", C("0")>>, <<"str", <<>>>>, <<"int", C("0")>>>>>>, bv |-> <<"rec", <<<<"int", C("0")>>, <<"str", <<>>>>, <<"int", C("0")>>>>>>, nn |-> FALSE],
      [f |-> C("b"), j |-> C("b"), t |-> [k |-> "opt", t |-> T_bool], w |-> [k |-> "opt", t |-> T_bool], px |-> "", o |-> TRUE, jm |-> <<"def", <<"some", <<"bool", 1>>>>>>, rm |-> <<"def", <<"some", <<"bool", 1>>>>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("cc"), j |-> C("w9"), t |-> T_Uni, w |-> T_Uni, px |-> "", o |-> FALSE, jm |-> <<"def", <<"var", 1, <<>>>>>>, rm |-> <<"def", <<"var", 1, <<>>>>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("d_1"), j |-> C("d_1"), t |-> [k |-> "seq", t |-> T_u8], w |-> [k |-> "seq", t |-> T_u8], px |-> "", o |-> FALSE, jm |-> <<"def", <<"seq", <<>>>>>>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("e"), j |-> C("e"), t |-> [k |-> "opt", t |-> T_bool], w |-> [k |-> "opt", t |-> T_bool], px |-> "", o |-> TRUE, jm |-> <<"def", <<"some", <<"bool", 1>>>>>>, rm |-> <<"def", <<"some", <<"bool", 1>>>>>>, s |-> TRUE, sv |-> <<"some", <<"bool", 1>>>>, bv |-> <<"none">>, nn |-> FALSE]>>]
T_Ks28 == [k |-> "struct", fs |-> <<[f |-> C("a"), j |-> C("a"), t |-> T_Opts, w |-> T_Opts, px |-> "", o |-> FALSE, jm |-> <<"def", <<"rec", <<<<"none">>, <<"none">>, <<"int", C("0")>>, <<"none">>>>>>>>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("b"), j |-> C("w9"), t |-> [k |-> "opt", t |-> [k |-> "seq", t |-> T_u8]], w |-> [k |-> "opt", t |-> [k |-> "seq", t |-> T_u8]], px |-> "", o |-> TRUE, jm |-> <<"def", <<"none">>>>, rm |-> <<"def", <<"none">>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> TRUE],
      [f |-> C("cc"), j |-> C("cc"), t |-> T_String, w |-> T_String, px |-> "", o |-> FALSE, jm |-> <<"def", <<"str", <<>>>>>>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("d_1"), j |-> C("d_1"), t |-> T_String, w |-> T_String, px |-> "", o |-> FALSE, jm |-> <<"def", <<"str", <<>>>>>>, rm |-> <<"def", <<"str", <<>>>>>>, s |-> TRUE, sv |-> <<"str", <<>>>>, bv |-> <<"str", <<>>>>, nn |-> FALSE],
      [f |-> C("e"), j |-> C("e"), t |-> [k |-> "map", h |-> FALSE, kt |-> T_u8, vt |-> [k |-> "opt", t |-> T_String]], w |-> [k |-> "map", h |-> FALSE, kt |-> T_u8, vt |-> [k |-> "opt", t |-> T_String]], px |-> "", o |-> FALSE, jm |-> <<"def", <<"map", <<>>>>>>, rm |-> <<"def", <<"map", <<>>>>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE]>>]
T_Ks29__i == [k |-> "struct", fs |-> <<[f |-> C("a"), j |-> C("a"), t |-> [k |-> "opt", t |-> T_u8], w |-> [k |-> "opt", t |-> T_u8], px |-> "", o |-> TRUE, jm |-> <<"def", <<"none">>>>, rm |-> <<"def", <<"none">>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> TRUE],
      [f |-> C("b"), j |-> C("b"), t |-> T_String, w |-> T_String, px |-> "", o |-> FALSE, jm |-> <<"def", <<"str", <<>>>>>>, rm |-> <<"def", <<"str", <<>>>>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("cc"), j |-> C("w9"), t |-> [k |-> "arr", n |-> 2, t |-> T_u8], w |-> [k |-> "arr", n |-> 2, t |-> T_u8], px |-> "", o |-> FALSE, jm |-> <<"def", <<"seq", <<<<"int", C("0")>>, <<"int", C("0")>>>>>>>>, rm |-> <<"def", <<"seq", <<<<"int", C("0")>>, <<"int", C("0")>>>>>>>>, s |-> TRUE, sv |-> <<"seq", <<<<"int", C("0")>>, <<"int", C("0")>>>>>>, bv |-> <<"seq", <<<<"int", C("0")>>, <<"int", C("0")>>>>>>, nn |-> FALSE],
      [f |-> C("d_1"), j |-> C("d_1"), t |-> T_f64, w |-> T_f64, px |-> "", o |-> FALSE, jm |-> <<"def", <<"flt", C("2.5")>>>>, rm |-> <<"def", <<"flt", C("2.5")>>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE]>>]
T_Ks30 == [k |-> "struct", fs |-> <<[f |-> C("a"), j |-> C("a"), t |-> T_i64, w |-> T_i64, px |-> "", o |-> FALSE, jm |-> <<"def", <<"int", C("-9000000000")>>>>, rm |-> <<"def", <<"int", C("-9000000000")>>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("b"), j |-> C("b"), t |-> [k |-> "opt", t |-> T_bool], w |-> [k |-> "opt", t |-> T_bool], px |-> "", o |-> TRUE, jm |-> <<"def", <<"some", <<"bool", 1>>>>>>, rm |-> <<"def", <<"some", <<"bool", 1>>>>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> TRUE],
      [f |-> C("cc"), j |-> C("e"), t |-> [k |-> "opt", t |-> T_bool], w |-> [k |-> "opt", t |-> T_bool], px |-> "", o |-> TRUE, jm |-> <<"def", <<"none">>>>, rm |-> <<"def", <<"none">>>>, s |-> TRUE, sv |-> <<"none">>, bv |-> <<"none">>, nn |-> TRUE],
      [f |-> C("d_1"), j |-> C("ex"), t |-> T_String, w |-> T_String, px |-> "", o |-> FALSE, jm |-> <<"def", <<"str", <<>>>>>>, rm |-> <<"def", <<"str", <<>>>>>>, s |-> TRUE, sv |-> <<"str", <<>>>>, bv |-> <<"str", <<>>>>, nn |-> FALSE],
      [f |-> C("e"), j |-> C("ax"), t |-> [k |-> "opt", t |-> T_u8], w |-> [k |-> "opt", t |-> T_u8], px |-> "", o |-> TRUE, jm |-> <<"def", <<"none">>>>, rm |-> <<"def", <<"none">>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> TRUE]>>]
T_Ks31__i == [k |-> "struct", fs |-> <<[f |-> C("a"), j |-> C("a"), t |-> T_String, w |-> T_WrapP, px |-> "wrap", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("b"), j |-> C("e"), t |-> [k |-> "seq", t |-> [k |-> "opt", t |-> T_bool]], w |-> [k |-> "seq", t |-> [k |-> "opt", t |-> T_bool]], px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("cc"), j |-> C("ex"), t |-> [k |-> "arr", n |-> 2, t |-> T_u8], w |-> [k |-> "arr", n |-> 2, t |-> T_u8], px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("d_1"), j |-> C("exx"), t |-> T_String, w |-> T_WrapP, px |-> "wrap", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE]>>]
T_Ks32__i == [k |-> "struct", fs |-> <<[f |-> C("a"), j |-> C("fn_"), t |-> [k |-> "map", h |-> FALSE, kt |-> T_u8, vt |-> [k |-> "opt", t |-> T_String]], w |-> [k |-> "map", h |-> FALSE, kt |-> T_u8, vt |-> [k |-> "opt", t |-> T_String]], px |-> "", o |-> FALSE, jm |-> <<"def", <<"map", <<>>>>>>, rm |-> <<"def", <<"map", <<>>>>>>, s |-> TRUE, sv |-> <<"map", <<>>>>, bv |-> <<"map", <<>>>>, nn |-> FALSE],
      [f |-> C("b"), j |-> C("w9"), t |-> [k |-> "opt", t |-> T_u8], w |-> [k |-> "opt", t |-> T_u8], px |-> "", o |-> TRUE, jm |-> <<"def", <<"none">>>>, rm |-> <<"def", <<"none">>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> TRUE],
      [f |-> C("cc"), j |-> C("ex"), t |-> [k |-> "seq", t |-> T_u8], w |-> [k |-> "seq", t |-> T_u8], px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("d_1"), j |-> C("z"), t |-> T_bool, w |-> T_bool, px |-> "", o |-> FALSE, jm |-> <<"def", <<"bool", 0>>>>, rm |-> <<"def", <<"bool", 0>>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("e"), j |-> C("e"), t |-> [k |-> "tup", ts |-> <<T_u8, T_String>>], w |-> [k |-> "tup", ts |-> <<T_u8, T_String>>], px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE]>>]
T_Ks33 == [k |-> "struct", fs |-> <<[f |-> C("a"), j |-> C("a"), t |-> T_u16, w |-> T_i32, px |-> "scale", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("b"), j |-> C("b"), t |-> [k |-> "opt", t |-> T_u8], w |-> [k |-> "opt", t |-> T_u8], px |-> "", o |-> TRUE, jm |-> <<"def", <<"some", <<"int", C("8")>>>>>>, rm |-> <<"def", <<"some", <<"int", C("8")>>>>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> TRUE],
      [f |-> C("cc"), j |-> C("w9"), t |-> T_String, w |-> T_String, px |-> "", o |-> FALSE, jm |-> <<"def", <<"str", C("a b")>>>>, rm |-> <<"def", <<"str", C("a b")>>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("d_1"), j |-> C("d_1"), t |-> [k |-> "opt", t |-> T_u8], w |-> [k |-> "opt", t |-> T_u8], px |-> "", o |-> TRUE, jm |-> <<"def", <<"none">>>>, rm |-> <<"def", <<"none">>>>, s |-> TRUE, sv |-> <<"none">>, bv |-> <<"none">>, nn |-> TRUE]>>]
T_Ks34 == [k |-> "struct", fs |-> <<[f |-> C("a"), j |-> C("ex"), t |-> [k |-> "opt", t |-> T_u8], w |-> [k |-> "opt", t |-> T_u8], px |-> "", o |-> TRUE, jm |-> <<"def", <<"none">>>>, rm |-> <<"def", <<"none">>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("b"), j |-> C("fn_"), t |-> [k |-> "seq", t |-> T_u8], w |-> [k |-> "seq", t |-> T_u8], px |-> "", o |-> FALSE, jm |-> <<"def", <<"seq", <<>>>>>>, rm |-> <<"def", <<"seq", <<>>>>>>, s |-> TRUE, sv |-> <<"seq", <<>>>>, bv |-> <<"seq", <<>>>>, nn |-> FALSE],
      [f |-> C("cc"), j |-> C("cc"), t |-> T_String, w |-> T_String, px |-> "", o |-> FALSE, jm |-> <<"def", <<"str", C("dee")>>>>, rm |-> <<"def", <<"str", C("dee")>>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("d_1"), j |-> C("d_1"), t |-> T_Opts, w |-> T_Opts, px |-> "", o |-> FALSE, jm |-> <<"def", <<"rec", <<<<"none">>, <<"none">>, <<"int", C("0")>>, <<"none">>>>>>>>, rm |-> <<"def", <<"rec", <<<<"none">>, <<"none">>, <<"int", C("0")>>, <<"none">>>>>>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("e"), j |-> C("e"), t |-> [k |-> "opt", t |-> T_u8], w |-> [k |-> "opt", t |-> T_u8], px |-> "", o |-> TRUE, jm |-> <<"def", <<"none">>>>, rm |-> <<"def", <<"none">>>>, s |-> TRUE, sv |-> <<"none">>, bv |-> <<"none">>, nn |-> FALSE]>>]
T_Ks35__i == [k |-> "struct", fs |-> <<[f |-> C("a"), j |-> C("a"), t |-> [k |-> "seq", t |-> T_String], w |-> [k |-> "seq", t |-> T_String], px |-> "", o |-> FALSE, jm |-> <<"def", <<"seq", <<>>>>>>, rm |-> <<"def", <<"seq", <<>>>>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("b"), j |-> C("w9"), t |-> [k |-> "seq", t |-> T_u8], w |-> [k |-> "seq", t |-> T_u8], px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("cc"), j |-> C("w9x"), t |-> T_String, w |-> T_String, px |-> "", o |-> FALSE, jm |-> <<"def", <<"str", <<>>>>>>, rm |-> <<"def", <<"str", <<>>>>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("d_1"), j |-> C("d_1"), t |-> T_u8, w |-> T_u8, px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("e"), j |-> C("z"), t |-> T_String, w |-> T_String, px |-> "", o |-> FALSE, jm |-> <<"def", <<"str", C("a b")>>>>, rm |-> <<"def", <<"str", C("a b")>>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE]>>]
T_Ks36__i == [k |-> "struct", fs |-> <<[f |-> C("a"), j |-> C("a"), t |-> T_u8, w |-> T_u8, px |-> "", o |-> FALSE, jm |-> <<"def", <<"int", C("0")>>>>, rm |-> <<"def", <<"int", C("0")>>>>, s |-> TRUE, sv |-> <<"int", C("0")>>, bv |-> <<"int", C("0")>>, nn |-> FALSE],
      [f |-> C("b"), j |-> C("b"), t |-> [k |-> "opt", t |-> T_u8], w |-> [k |-> "opt", t |-> T_u8], px |-> "", o |-> TRUE, jm |-> <<"def", <<"none">>>>, rm |-> <<"def", <<"none">>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("cc"), j |-> C("cc"), t |-> T_String, w |-> T_String, px |-> "", o |-> FALSE, jm |-> <<"def", <<"str", <<>>>>>>, rm |-> <<"def", <<"str", <<>>>>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("d_1"), j |-> C("e"), t |-> T_String, w |-> T_String, px |-> "", o |-> FALSE, jm |-> <<"def", <<"str", <<>>>>>>, rm |-> <<"def", <<"str", <<>>>>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE]>>]
T_Ks37__i == [k |-> "struct", fs |-> <<[f |-> C("a"), j |-> C("a"), t |-> T_u8, w |-> T_u8, px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("b"), j |-> C("fn_"), t |-> T_String, w |-> T_WrapP, px |-> "wrap", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("cc"), j |-> C("e"), t |-> [k |-> "opt", t |-> T_u8], w |-> [k |-> "opt", t |-> T_u8], px |-> "", o |-> TRUE, jm |-> <<"def", <<"some", <<"int", C("3")>>>>>>, rm |-> <<"def", <<"some", <<"int", C("3")>>>>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> TRUE],
      [f |-> C("d_1"), j |-> C("z"), t |-> [k |-> "opt", t |-> [k |-> "seq", t |-> T_u8]], w |-> [k |-> "opt", t |-> [k |-> "seq", t |-> T_u8]], px |-> "", o |-> TRUE, jm |-> <<"def", <<"none">>>>, rm |-> <<"def", <<"none">>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> TRUE],
      [f |-> C("e"), j |-> C("zx"), t |-> T_i32, w |-> T_i32, px |-> "", o |-> FALSE, jm |-> <<"def", <<"int", C("0")>>>>, rm |-> <<"def", <<"int", C("0")>>>>, s |-> TRUE, sv |-> <<"int", C("0")>>, bv |-> <<"int", C("0")>>, nn |-> FALSE]>>]
T_Ks38__i == [k |-> "struct", fs |-> <<[f |-> C("a"), j |-> C("a"), t |-> [k |-> "opt", t |-> T_bool], w |-> [k |-> "opt", t |-> T_bool], px |-> "", o |-> TRUE, jm |-> <<"def", <<"some", <<"bool", 1>>>>>>, rm |-> <<"def", <<"some", <<"bool", 1>>>>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> TRUE],
      [f |-> C("b"), j |-> C("ax"), t |-> [k |-> "seq", t |-> T_String], w |-> [k |-> "seq", t |-> T_String], px |-> "", o |-> FALSE, jm |-> <<"def", <<"seq", <<>>>>>>, rm |-> <<"def", <<"seq", <<>>>>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("cc"), j |-> C("cc"), t |-> [k |-> "tup", ts |-> <<T_u8, T_String>>], w |-> [k |-> "tup", ts |-> <<T_u8, T_String>>], px |-> "", o |-> FALSE, jm |-> <<"def", <<"tup", <<<<"int", C("0")>>, <<"str", <<>>>>>>>>>>, rm |-> <<"def", <<"tup", <<<<"int", C("0")>>, <<"str", <<>>>>>>>>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("d_1"), j |-> C("z"), t |-> [k |-> "seq", t |-> T_u8], w |-> [k |-> "seq", t |-> T_u8], px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE]>>]
T_Ks39__i == [k |-> "struct", fs |-> <<[f |-> C("a"), j |-> C("a"), t |-> [k |-> "seq", t |-> T_u8], w |-> [k |-> "seq", t |-> T_u8], px |-> "", o |-> FALSE, jm |-> <<"def", <<"seq", <<>>>>>>, rm |-> <<"def", <<"seq", <<>>>>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("b"), j |-> C("b"), t |-> [k |-> "opt", t |-> T_bool], w |-> [k |-> "opt", t |-> T_bool], px |-> "", o |-> TRUE, jm |-> <<"def", <<"some", <<"bool", 1>>>>>>, rm |-> <<"def", <<"some", <<"bool", 1>>>>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> TRUE],
      [f |-> C("cc"), j |-> C("cc"), t |-> [k |-> "seq", t |-> T_u8], w |-> [k |-> "seq", t |-> T_u8], px |-> "", o |-> FALSE, jm |-> <<"def", <<"seq", <<>>>>>>, rm |-> <<"def", <<"seq", <<>>>>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("d_1"), j |-> C("z"), t |-> [k |-> "seq", t |-> T_u8], w |-> [k |-> "seq", t |-> T_u8], px |-> "", o |-> FALSE, jm |-> <<"def", <<"seq", <<>>>>>>, rm |-> <<"def", <<"seq", <<>>>>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("e"), j |-> C("e"), t |-> T_bool, w |-> T_bool, px |-> "", o |-> FALSE, jm |-> <<"def", <<"bool", 0>>>>, rm |-> <<"def", <<"bool", 0>>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("u_"), j |-> C("u_"), t |-> [k |-> "seq", t |-> T_String], w |-> [k |-> "seq", t |-> T_String], px |-> "", o |-> FALSE, jm |-> <<"def", <<"seq", <<>>>>>>, rm |-> <<"def", <<"seq", <<>>>>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE]>>]
T_Ks40__i == [k |-> "struct", fs |-> <<[f |-> C("a"), j |-> C("a"), t |-> [k |-> "arr", n |-> 2, t |-> [k |-> "opt", t |-> T_bool]], w |-> [k |-> "arr", n |-> 2, t |-> [k |-> "opt", t |-> T_bool]], px |-> "", o |-> FALSE, jm |-> <<"def", <<"seq", <<<<"none">>, <<"none">>>>>>>>, rm |-> <<"def", <<"seq", <<<<"none">>, <<"none">>>>>>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("b"), j |-> C("b"), t |-> T_u8, w |-> T_u8, px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("cc"), j |-> C("z"), t |-> [k |-> "arr", n |-> 2, t |-> [k |-> "opt", t |-> T_bool]], w |-> [k |-> "arr", n |-> 2, t |-> [k |-> "opt", t |-> T_bool]], px |-> "", o |-> FALSE, jm |-> <<"def", <<"seq", <<<<"none">>, <<"none">>>>>>>>, rm |-> <<"def", <<"seq", <<<<"none">>, <<"none">>>>>>>>, s |-> TRUE, sv |-> <<"seq", <<<<"none">>, <<"none">>>>>>, bv |-> <<"seq", <<<<"none">>, <<"none">>>>>>, nn |-> FALSE],
      [f |-> C("d_1"), j |-> C("e"), t |-> T_u16, w |-> T_i32, px |-> "scale", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE]>>]
T_Ks41__i == [k |-> "struct", fs |-> <<[f |-> C("a"), j |-> C("e"), t |-> [k |-> "opt", t |-> [k |-> "tup", ts |-> <<T_u8, T_bool>>]], w |-> [k |-> "opt", t |-> [k |-> "tup", ts |-> <<T_u8, T_bool>>]], px |-> "", o |-> TRUE, jm |-> <<"def", <<"none">>>>, rm |-> <<"def", <<"none">>>>, s |-> TRUE, sv |-> <<"none">>, bv |-> <<"none">>, nn |-> FALSE],
      [f |-> C("b"), j |-> C("w9"), t |-> T_bool, w |-> T_bool, px |-> "", o |-> FALSE, jm |-> <<"def", <<"bool", 1>>>>, rm |-> <<"def", <<"bool", 1>>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("cc"), j |-> C("ex"), t |-> [k |-> "opt", t |-> T_u8], w |-> [k |-> "opt", t |-> T_u8], px |-> "", o |-> TRUE, jm |-> <<"def", <<"none">>>>, rm |-> <<"def", <<"none">>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> TRUE],
      [f |-> C("d_1"), j |-> C("d_1"), t |-> T_u8, w |-> T_u8, px |-> "", o |-> FALSE, jm |-> <<"def", <<"int", C("0")>>>>, rm |-> <<"def", <<"int", C("0")>>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE]>>]
T_Ks42 == [k |-> "struct", fs |-> <<[f |-> C("a"), j |-> C("a"), t |-> T_f64, w |-> T_f64, px |-> "", o |-> FALSE, jm |-> <<"def", <<"flt", C("2.5")>>>>, rm |-> <<"def", <<"flt", C("2.5")>>>>, s |-> TRUE, sv |-> <<"flt", C("2.5")>>, bv |-> <<"flt", C("0.0")>>, nn |-> FALSE],
      [f |-> C("b"), j |-> C("fn_"), t |-> T_Uni, w |-> T_Uni, px |-> "", o |-> FALSE, jm |-> <<"def", <<"var", 1, <<>>>>>>, rm |-> <<"def", <<"var", 1, <<>>>>>>, s |-> TRUE, sv |-> <<"var", 1, <<>>>>, bv |-> <<"var", 1, <<>>>>, nn |-> FALSE],
      [f |-> C("cc"), j |-> C("cc"), t |-> T_u16, w |-> T_i32, px |-> "scale", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE]>>]
T_Ks43 == [k |-> "struct", fs |-> <<[f |-> C("a"), j |-> C("a"), t |-> T_String, w |-> T_String, px |-> "", o |-> FALSE, jm |-> <<"def", <<"str", <<>>>>>>, rm |-> <<"def", <<"str", <<>>>>>>, s |-> TRUE, sv |-> <<"str", <<>>>>, bv |-> <<"str", <<>>>>, nn |-> FALSE],
      [f |-> C("b"), j |-> C("b"), t |-> T_u16, w |-> T_i32, px |-> "scale", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("cc"), j |-> C("cc"), t |-> T_unit, w |-> T_unit, px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("d_1"), j |-> C("d_1"), t |-> [k |-> "seq", t |-> [k |-> "opt", t |-> T_bool]], w |-> [k |-> "seq", t |-> [k |-> "opt", t |-> T_bool]], px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("e"), j |-> C("Yy"), t |-> [k |-> "opt", t |-> T_u8], w |-> [k |-> "opt", t |-> T_u8], px |-> "", o |-> TRUE, jm |-> <<"def", <<"none">>>>, rm |-> <<"def", <<"none">>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> TRUE]>>]
T_Ks44 == [k |-> "struct", fs |-> <<[f |-> C("a"), j |-> C("a"), t |-> T_i32, w |-> T_i32, px |-> "", o |-> FALSE, jm |-> <<"def", <<"int", C("-7")>>>>, rm |-> <<"def", <<"int", C("-7")>>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("b"), j |-> C("b"), t |-> [k |-> "seq", t |-> T_String], w |-> [k |-> "seq", t |-> T_String], px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("cc"), j |-> C("w9"), t |-> T_String, w |-> T_WrapP, px |-> "wrap", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("d_1"), j |-> C("d_1"), t |-> [k |-> "seq", t |-> T_String], w |-> [k |-> "seq", t |-> T_String], px |-> "", o |-> FALSE, jm |-> <<"def", <<"seq", <<>>>>>>, rm |-> <<"def", <<"seq", <<>>>>>>, s |-> TRUE, sv |-> <<"seq", <<>>>>, bv |-> <<"seq", <<>>>>, nn |-> FALSE],
      [f |-> C("e"), j |-> C("z"), t |-> [k |-> "set", h |-> FALSE, t |-> T_i32], w |-> [k |-> "set", h |-> FALSE, t |-> T_i32], px |-> "", o |-> FALSE, jm |-> <<"def", <<"seq", <<>>>>>>, rm |-> <<"def", <<"seq", <<>>>>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE]>>]
T_Ks45__i == [k |-> "struct", fs |-> <<[f |-> C("a"), j |-> C("a"), t |-> T_dur, w |-> T_dur, px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("b"), j |-> C("b"), t |-> T_Uni, w |-> T_Uni, px |-> "", o |-> FALSE, jm |-> <<"def", <<"var", 1, <<>>>>>>, rm |-> <<"def", <<"var", 1, <<>>>>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("cc"), j |-> C("cc"), t |-> T_u8, w |-> T_u8, px |-> "", o |-> FALSE, jm |-> <<"def", <<"int", C("211")>>>>, rm |-> <<"def", <<"int", C("211")>>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("d_1"), j |-> C("d_1"), t |-> [k |-> "tup", ts |-> <<T_u8, T_String>>], w |-> [k |-> "tup", ts |-> <<T_u8, T_String>>], px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("e"), j |-> C("Yy"), t |-> [k |-> "opt", t |-> T_Uni], w |-> [k |-> "opt", t |-> T_Uni], px |-> "", o |-> TRUE, jm |-> <<"def", <<"none">>>>, rm |-> <<"def", <<"none">>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> TRUE]>>]
T_Ks46__i == [k |-> "struct", fs |-> <<[f |-> C("a"), j |-> C("b2"), t |-> T_u8, w |-> T_u8, px |-> "", o |-> FALSE, jm |-> <<"def", <<"int", C("0")>>>>, rm |-> <<"def", <<"int", C("0")>>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("b"), j |-> C("b"), t |-> [k |-> "arr", n |-> 2, t |-> [k |-> "opt", t |-> T_bool]], w |-> [k |-> "arr", n |-> 2, t |-> [k |-> "opt", t |-> T_bool]], px |-> "", o |-> FALSE, jm |-> <<"def", <<"seq", <<<<"none">>, <<"none">>>>>>>>, rm |-> <<"def", <<"seq", <<<<"none">>, <<"none">>>>>>>>, s |-> TRUE, sv |-> <<"seq", <<<<"none">>, <<"none">>>>>>, bv |-> <<"seq", <<<<"none">>, <<"none">>>>>>, nn |-> FALSE],
      [f |-> C("cc"), j |-> C("cc"), t |-> T_u8, w |-> T_u8, px |-> "", o |-> FALSE, jm |-> <<"def", <<"int", C("0")>>>>, rm |-> <<"def", <<"int", C("0")>>>>, s |-> TRUE, sv |-> <<"int", C("0")>>, bv |-> <<"int", C("0")>>, nn |-> FALSE],
      [f |-> C("d_1"), j |-> C("d_1"), t |-> T_u8, w |-> T_u8, px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE]>>]
T_Ks47 == [k |-> "struct", fs |-> <<[f |-> C("a"), j |-> C("a"), t |-> [k |-> "set", h |-> FALSE, t |-> T_i32], w |-> [k |-> "set", h |-> FALSE, t |-> T_i32], px |-> "", o |-> FALSE, jm |-> <<"def", <<"seq", <<>>>>>>, rm |-> <<"def", <<"seq", <<>>>>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("b"), j |-> C("b"), t |-> T_u16, w |-> T_i32, px |-> "scale", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("cc"), j |-> C("w9"), t |-> T_String, w |-> T_String, px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("d_1"), j |-> C("d_1"), t |-> [k |-> "seq", t |-> T_String], w |-> [k |-> "seq", t |-> T_String], px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("e"), j |-> C("e"), t |-> [k |-> "opt", t |-> T_String], w |-> [k |-> "opt", t |-> T_String], px |-> "", o |-> TRUE, jm |-> <<"def", <<"none">>>>, rm |-> <<"def", <<"none">>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> TRUE]>>]
T_Ks48__i == [k |-> "struct", fs |-> <<[f |-> C("a"), j |-> C("a"), t |-> [k |-> "opt", t |-> T_u8], w |-> [k |-> "opt", t |-> T_u8], px |-> "", o |-> TRUE, jm |-> <<"def", <<"none">>>>, rm |-> <<"def", <<"none">>>>, s |-> TRUE, sv |-> <<"none">>, bv |-> <<"none">>, nn |-> FALSE],
      [f |-> C("b"), j |-> C("b"), t |-> T_String, w |-> T_String, px |-> "", o |-> FALSE, jm |-> <<"def", <<"str", C("a b")>>>>, rm |-> <<"def", <<"str", C("a b")>>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("cc"), j |-> C("cc"), t |-> [k |-> "opt", t |-> T_bool], w |-> [k |-> "opt", t |-> T_bool], px |-> "", o |-> TRUE, jm |-> <<"def", <<"some", <<"bool", 1>>>>>>, rm |-> <<"def", <<"some", <<"bool", 1>>>>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("d_1"), j |-> C("d_1"), t |-> [k |-> "opt", t |-> T_bool], w |-> [k |-> "opt", t |-> T_bool], px |-> "", o |-> TRUE, jm |-> <<"def", <<"none">>>>, rm |-> <<"def", <<"none">>>>, s |-> TRUE, sv |-> <<"none">>, bv |-> <<"none">>, nn |-> FALSE],
      [f |-> C("e"), j |-> C("e"), t |-> [k |-> "arr", n |-> 2, t |-> T_u8], w |-> [k |-> "arr", n |-> 2, t |-> T_u8], px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE]>>]
T_Ks49__i == [k |-> "struct", fs |-> <<[f |-> C("a"), j |-> C("a"), t |-> T_i32, w |-> T_i32, px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("b"), j |-> C("w9"), t |-> [k |-> "opt", t |-> [k |-> "seq", t |-> T_u8]], w |-> [k |-> "opt", t |-> [k |-> "seq", t |-> T_u8]], px |-> "", o |-> TRUE, jm |-> <<"def", <<"none">>>>, rm |-> <<"def", <<"none">>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> TRUE],
      [f |-> C("cc"), j |-> C("cc"), t |-> [k |-> "arr", n |-> 2, t |-> T_u8], w |-> [k |-> "arr", n |-> 2, t |-> T_u8], px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("d_1"), j |-> C("d_1"), t |-> [k |-> "seq", t |-> T_u8], w |-> [k |-> "seq", t |-> T_u8], px |-> "", o |-> FALSE, jm |-> <<"def", <<"seq", <<<<"int", C("7")>>, <<"int", C("9")>>>>>>>>, rm |-> <<"def", <<"seq", <<<<"int", C("7")>>, <<"int", C("9")>>>>>>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE]>>]
T_Ks50 == [k |-> "struct", fs |-> <<[f |-> C("a"), j |-> C("a"), t |-> T_Uni, w |-> T_Uni, px |-> "", o |-> FALSE, jm |-> <<"def", <<"var", 1, <<>>>>>>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("b"), j |-> C("w9"), t |-> [k |-> "seq", t |-> T_String], w |-> [k |-> "seq", t |-> T_String], px |-> "", o |-> FALSE, jm |-> <<"def", <<"seq", <<>>>>>>, rm |-> <<"def", <<"seq", <<>>>>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("cc"), j |-> C("e"), t |-> [k |-> "opt", t |-> T_Uni], w |-> [k |-> "opt", t |-> T_Uni], px |-> "", o |-> TRUE, jm |-> <<"def", <<"none">>>>, rm |-> <<"def", <<"none">>>>, s |-> TRUE, sv |-> <<"none">>, bv |-> <<"none">>, nn |-> FALSE],
      [f |-> C("d_1"), j |-> C("d_1"), t |-> T_bool, w |-> T_bool, px |-> "", o |-> FALSE, jm |-> <<"def", <<"bool", 1>>>>, rm |-> <<"def", <<"bool", 1>>>>, s |-> TRUE, sv |-> <<"bool", 1>>, bv |-> <<"bool", 0>>, nn |-> FALSE]>>]
T_Ks51__i == [k |-> "struct", fs |-> <<[f |-> C("a"), j |-> C("a"), t |-> T_String, w |-> T_String, px |-> "", o |-> FALSE, jm |-> <<"def", <<"str", <<>>>>>>, rm |-> <<"def", <<"str", <<>>>>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("b"), j |-> C("b"), t |-> [k |-> "opt", t |-> T_u8], w |-> [k |-> "opt", t |-> T_u8], px |-> "", o |-> TRUE, jm |-> <<"def", <<"none">>>>, rm |-> <<"def", <<"none">>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> TRUE],
      [f |-> C("cc"), j |-> C("cc"), t |-> [k |-> "map", h |-> FALSE, kt |-> T_u8, vt |-> [k |-> "opt", t |-> T_String]], w |-> [k |-> "map", h |-> FALSE, kt |-> T_u8, vt |-> [k |-> "opt", t |-> T_String]], px |-> "", o |-> FALSE, jm |-> <<"def", <<"map", <<>>>>>>, rm |-> <<"def", <<"map", <<>>>>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("d_1"), j |-> C("d_1"), t |-> [k |-> "opt", t |-> T_u8], w |-> [k |-> "opt", t |-> T_u8], px |-> "", o |-> TRUE, jm |-> <<"def", <<"some", <<"int", C("8")>>>>>>, rm |-> <<"def", <<"some", <<"int", C("8")>>>>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> TRUE],
      [f |-> C("e"), j |-> C("e"), t |-> [k |-> "opt", t |-> T_u8], w |-> [k |-> "opt", t |-> T_u8], px |-> "", o |-> TRUE, jm |-> <<"def", <<"none">>>>, rm |-> <<"def", <<"none">>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> TRUE]>>]
T_Ks52 == [k |-> "struct", fs |-> <<[f |-> C("a"), j |-> C("a"), t |-> [k |-> "map", h |-> FALSE, kt |-> T_u8, vt |-> [k |-> "opt", t |-> T_String]], w |-> [k |-> "map", h |-> FALSE, kt |-> T_u8, vt |-> [k |-> "opt", t |-> T_String]], px |-> "", o |-> FALSE, jm |-> <<"def", <<"map", <<>>>>>>, rm |-> <<"def", <<"map", <<>>>>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("b"), j |-> C("b"), t |-> [k |-> "map", h |-> FALSE, kt |-> T_u8, vt |-> [k |-> "opt", t |-> T_String]], w |-> [k |-> "map", h |-> FALSE, kt |-> T_u8, vt |-> [k |-> "opt", t |-> T_String]], px |-> "", o |-> FALSE, jm |-> <<"def", <<"map", <<>>>>>>, rm |-> <<"def", <<"map", <<>>>>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("cc"), j |-> C("cc"), t |-> T_String, w |-> T_String, px |-> "", o |-> FALSE, jm |-> <<"def", <<"str", C("a b")>>>>, rm |-> <<"def", <<"str", C("a b")>>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("d_1"), j |-> C("d_1"), t |-> [k |-> "opt", t |-> T_u8], w |-> [k |-> "opt", t |-> T_u8], px |-> "", o |-> TRUE, jm |-> <<"def", <<"none">>>>, rm |-> <<"def", <<"none">>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> TRUE],
      [f |-> C("e"), j |-> C("e"), t |-> T_u8, w |-> T_u8, px |-> "", o |-> FALSE, jm |-> <<"def", <<"int", C("5")>>>>, rm |-> <<"def", <<"int", C("5")>>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE]>>]
T_Ks53__i == [k |-> "struct", fs |-> <<[f |-> C("a"), j |-> C("a"), t |-> T_String, w |-> T_String, px |-> "", o |-> FALSE, jm |-> <<"def", <<"str", C("a b")>>>>, rm |-> <<"def", <<"str", C("a b")>>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("b"), j |-> C("fn_"), t |-> [k |-> "set", h |-> FALSE, t |-> T_i32], w |-> [k |-> "set", h |-> FALSE, t |-> T_i32], px |-> "", o |-> FALSE, jm |-> <<"def", <<"seq", <<>>>>>>, rm |-> <<"def", <<"seq", <<>>>>>>, s |-> TRUE, sv |-> <<"seq", <<>>>>, bv |-> <<"seq", <<>>>>, nn |-> FALSE],
      [f |-> C("cc"), j |-> C("ex"), t |-> [k |-> "opt", t |-> T_u8], w |-> [k |-> "opt", t |-> T_u8], px |-> "", o |-> TRUE, jm |-> <<"def", <<"none">>>>, rm |-> <<"def", <<"none">>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> TRUE],
      [f |-> C("d_1"), j |-> C("z"), t |-> [k |-> "opt", t |-> T_String], w |-> [k |-> "opt", t |-> T_String], px |-> "", o |-> TRUE, jm |-> <<"def", <<"none">>>>, rm |-> <<"def", <<"none">>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("e"), j |-> C("e"), t |-> [k |-> "seq", t |-> T_u8], w |-> [k |-> "seq", t |-> T_u8], px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("u_"), j |-> C("u_"), t |-> [k |-> "seq", t |-> T_String], w |-> [k |-> "seq", t |-> T_String], px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE]>>]
T_Ks54__i == [k |-> "struct", fs |-> <<[f |-> C("a"), j |-> C("fn_"), t |-> [k |-> "seq", t |-> T_u8], w |-> [k |-> "seq", t |-> T_u8], px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("b"), j |-> C("b"), t |-> [k |-> "set", h |-> FALSE, t |-> T_i32], w |-> [k |-> "set", h |-> FALSE, t |-> T_i32], px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("cc"), j |-> C("cc"), t |-> T_u16, w |-> T_i32, px |-> "scale", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("d_1"), j |-> C("d_1"), t |-> [k |-> "seq", t |-> T_u8], w |-> [k |-> "seq", t |-> T_u8], px |-> "", o |-> FALSE, jm |-> <<"def", <<"seq", <<>>>>>>, rm |-> <<"def", <<"seq", <<>>>>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("e"), j |-> C("Yy"), t |-> [k |-> "opt", t |-> T_u8], w |-> [k |-> "opt", t |-> T_u8], px |-> "", o |-> TRUE, jm |-> <<"def", <<"none">>>>, rm |-> <<"def", <<"none">>>>, s |-> TRUE, sv |-> <<"none">>, bv |-> <<"none">>, nn |-> FALSE]>>]
T_Ks55__i == [k |-> "struct", fs |-> <<[f |-> C("a"), j |-> C("fn_"), t |-> [k |-> "map", h |-> FALSE, kt |-> T_u8, vt |-> [k |-> "opt", t |-> T_String]], w |-> [k |-> "map", h |-> FALSE, kt |-> T_u8, vt |-> [k |-> "opt", t |-> T_String]], px |-> "", o |-> FALSE, jm |-> <<"def", <<"map", <<>>>>>>, rm |-> <<"def", <<"map", <<>>>>>>, s |-> TRUE, sv |-> <<"map", <<>>>>, bv |-> <<"map", <<>>>>, nn |-> FALSE],
      [f |-> C("b"), j |-> C("b"), t |-> [k |-> "opt", t |-> T_u8], w |-> [k |-> "opt", t |-> T_u8], px |-> "", o |-> TRUE, jm |-> <<"def", <<"none">>>>, rm |-> <<"def", <<"none">>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("cc"), j |-> C("cc"), t |-> T_u8, w |-> T_u8, px |-> "", o |-> FALSE, jm |-> <<"def", <<"int", C("0")>>>>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("d_1"), j |-> C("d_1"), t |-> [k |-> "map", h |-> FALSE, kt |-> T_u8, vt |-> [k |-> "opt", t |-> T_String]], w |-> [k |-> "map", h |-> FALSE, kt |-> T_u8, vt |-> [k |-> "opt", t |-> T_String]], px |-> "", o |-> FALSE, jm |-> <<"def", <<"map", <<>>>>>>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("e"), j |-> C("z"), t |-> T_Uni, w |-> T_Uni, px |-> "", o |-> FALSE, jm |-> <<"def", <<"var", 1, <<>>>>>>, rm |-> <<"def", <<"var", 1, <<>>>>>>, s |-> TRUE, sv |-> <<"var", 1, <<>>>>, bv |-> <<"var", 1, <<>>>>, nn |-> FALSE]>>]
T_Ks56__i == [k |-> "struct", fs |-> <<[f |-> C("a"), j |-> C("a"), t |-> T_i64, w |-> T_i64, px |-> "", o |-> FALSE, jm |-> <<"def", <<"int", C("-9000000000")>>>>, rm |-> <<"def", <<"int", C("-9000000000")>>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("b"), j |-> C("b"), t |-> [k |-> "opt", t |-> T_String], w |-> [k |-> "opt", t |-> T_String], px |-> "", o |-> TRUE, jm |-> <<"def", <<"none">>>>, rm |-> <<"def", <<"none">>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("cc"), j |-> C("w9"), t |-> [k |-> "tup", ts |-> <<T_u8, T_String>>], w |-> [k |-> "tup", ts |-> <<T_u8, T_String>>], px |-> "", o |-> FALSE, jm |-> <<"def", <<"tup", <<<<"int", C("0")>>, <<"str", <<>>>>>>>>>>, rm |-> <<"def", <<"tup", <<<<"int", C("0")>>, <<"str", <<>>>>>>>>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("d_1"), j |-> C("d_1"), t |-> [k |-> "opt", t |-> T_u8], w |-> [k |-> "opt", t |-> T_u8], px |-> "", o |-> TRUE, jm |-> <<"def", <<"none">>>>, rm |-> <<"def", <<"none">>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> TRUE]>>]
T_Ks57__i == [k |-> "struct", fs |-> <<[f |-> C("a"), j |-> C("a"), t |-> T_Opts, w |-> T_Opts, px |-> "", o |-> FALSE, jm |-> <<"def", <<"rec", <<<<"none">>, <<"none">>, <<"int", C("0")>>, <<"none">>>>>>>>, rm |-> <<"def", <<"rec", <<<<"none">>, <<"none">>, <<"int", C("0")>>, <<"none">>>>>>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("b"), j |-> C("b"), t |-> [k |-> "opt", t |-> T_u8], w |-> [k |-> "opt", t |-> T_u8], px |-> "", o |-> TRUE, jm |-> <<"def", <<"none">>>>, rm |-> <<"def", <<"none">>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> TRUE],
      [f |-> C("cc"), j |-> C("cc"), t |-> [k |-> "opt", t |-> T_bool], w |-> [k |-> "opt", t |-> T_bool], px |-> "", o |-> TRUE, jm |-> <<"def", <<"some", <<"bool", 1>>>>>>, rm |-> <<"def", <<"some", <<"bool", 1>>>>>>, s |-> TRUE, sv |-> <<"some", <<"bool", 1>>>>, bv |-> <<"none">>, nn |-> TRUE],
      [f |-> C("d_1"), j |-> C("Yy"), t |-> T_Opts, w |-> T_Opts, px |-> "", o |-> FALSE, jm |-> <<"def", <<"rec", <<<<"none">>, <<"none">>, <<"int", C("0")>>, <<"none">>>>>>>>, rm |-> <<"def", <<"rec", <<<<"none">>, <<"none">>, <<"int", C("0")>>, <<"none">>>>>>>>, s |-> TRUE, sv |-> <<"rec", <<<<"none">>, <<"none">>, <<"int", C("0")>>, <<"none">>>>>>, bv |-> <<"rec", <<<<"none">>, <<"none">>, <<"int", C("0")>>, <<"none">>>>>>, nn |-> FALSE],
      [f |-> C("e"), j |-> C("Yyx"), t |-> [k |-> "seq", t |-> T_String], w |-> [k |-> "seq", t |-> T_String], px |-> "", o |-> FALSE, jm |-> <<"def", <<"seq", <<>>>>>>, rm |-> <<"def", <<"seq", <<>>>>>>, s |-> TRUE, sv |-> <<"seq", <<>>>>, bv |-> <<"seq", <<>>>>, nn |-> FALSE],
      [f |-> C("u_"), j |-> C("u_"), t |-> [k |-> "seq", t |-> T_String], w |-> [k |-> "seq", t |-> T_String], px |-> "", o |-> FALSE, jm |-> <<"def", <<"seq", <<>>>>>>, rm |-> <<"def", <<"seq", <<>>>>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE]>>]
T_Ks58__i == [k |-> "struct", fs |-> <<[f |-> C("a"), j |-> C("a"), t |-> T_f64, w |-> T_f64, px |-> "", o |-> FALSE, jm |-> <<"def", <<"flt", C("0.0")>>>>, rm |-> <<"def", <<"flt", C("0.0")>>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("b"), j |-> C("b"), t |-> [k |-> "map", h |-> FALSE, kt |-> T_String, vt |-> T_u8], w |-> [k |-> "map", h |-> FALSE, kt |-> T_String, vt |-> T_u8], px |-> "", o |-> FALSE, jm |-> <<"def", <<"map", <<>>>>>>, rm |-> <<"def", <<"map", <<>>>>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("cc"), j |-> C("e"), t |-> [k |-> "opt", t |-> T_u8], w |-> [k |-> "opt", t |-> T_u8], px |-> "", o |-> TRUE, jm |-> <<"def", <<"none">>>>, rm |-> <<"def", <<"none">>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("d_1"), j |-> C("d_1"), t |-> [k |-> "seq", t |-> [k |-> "opt", t |-> T_bool]], w |-> [k |-> "seq", t |-> [k |-> "opt", t |-> T_bool]], px |-> "", o |-> FALSE, jm |-> <<"def", <<"seq", <<>>>>>>, rm |-> <<"def", <<"seq", <<>>>>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("e"), j |-> C("ax"), t |-> [k |-> "opt", t |-> [k |-> "tup", ts |-> <<T_u8, T_bool>>]], w |-> [k |-> "opt", t |-> [k |-> "tup", ts |-> <<T_u8, T_bool>>]], px |-> "", o |-> TRUE, jm |-> <<"def", <<"none">>>>, rm |-> <<"def", <<"none">>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE]>>]
T_Ks59__i == [k |-> "struct", fs |-> <<[f |-> C("a"), j |-> C("a"), t |-> [k |-> "opt", t |-> T_u8], w |-> [k |-> "opt", t |-> T_u8], px |-> "", o |-> TRUE, jm |-> <<"def", <<"none">>>>, rm |-> <<"def", <<"none">>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("b"), j |-> C("b"), t |-> [k |-> "opt", t |-> T_u8], w |-> [k |-> "opt", t |-> T_u8], px |-> "", o |-> TRUE, jm |-> <<"def", <<"some", <<"int", C("8")>>>>>>, rm |-> <<"def", <<"some", <<"int", C("8")>>>>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("cc"), j |-> C("fn_"), t |-> T_u8, w |-> T_u8, px |-> "", o |-> FALSE, jm |-> <<"def", <<"int", C("0")>>>>, rm |-> <<"def", <<"int", C("0")>>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("d_1"), j |-> C("d_1"), t |-> [k |-> "opt", t |-> T_Plain], w |-> [k |-> "opt", t |-> T_Plain], px |-> "", o |-> TRUE, jm |-> <<"def", <<"none">>>>, rm |-> <<"def", <<"none">>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("u_"), j |-> C("u_"), t |-> [k |-> "seq", t |-> T_String], w |-> [k |-> "seq", t |-> T_String], px |-> "", o |-> FALSE, jm |-> <<"def", <<"seq", <<>>>>>>, rm |-> <<"def", <<"seq", <<>>>>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE]>>]
T_Ks60__i == [k |-> "struct", fs |-> <<[f |-> C("a"), j |-> C("a"), t |-> T_f64, w |-> T_f64, px |-> "", o |-> FALSE, jm |-> <<"def", <<"flt", C("2.5")>>>>, rm |-> <<"def", <<"flt", C("2.5")>>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("b"), j |-> C("w9"), t |-> [k |-> "opt", t |-> T_u8], w |-> [k |-> "opt", t |-> T_u8], px |-> "", o |-> TRUE, jm |-> <<"def", <<"some", <<"int", C("3")>>>>>>, rm |-> <<"def", <<"some", <<"int", C("3")>>>>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> TRUE],
      [f |-> C("cc"), j |-> C("cc"), t |-> [k |-> "opt", t |-> T_u8], w |-> [k |-> "opt", t |-> T_u8], px |-> "", o |-> TRUE, jm |-> <<"def", <<"none">>>>, rm |-> <<"def", <<"none">>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> TRUE],
      [f |-> C("u_"), j |-> C("u_"), t |-> [k |-> "seq", t |-> T_String], w |-> [k |-> "seq", t |-> T_String], px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE]>>]
T_Ks61__i == [k |-> "struct", fs |-> <<[f |-> C("a"), j |-> C("a"), t |-> T_u8, w |-> T_u8, px |-> "", o |-> FALSE, jm |-> <<"def", <<"int", C("211")>>>>, rm |-> <<"def", <<"int", C("211")>>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("b"), j |-> C("b"), t |-> T_String, w |-> T_String, px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("cc"), j |-> C("cc"), t |-> [k |-> "arr", n |-> 2, t |-> T_u8], w |-> [k |-> "arr", n |-> 2, t |-> T_u8], px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("d_1"), j |-> C("z"), t |-> [k |-> "arr", n |-> 2, t |-> T_u8], w |-> [k |-> "arr", n |-> 2, t |-> T_u8], px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("e"), j |-> C("Yy"), t |-> [k |-> "arr", n |-> 2, t |-> T_u8], w |-> [k |-> "arr", n |-> 2, t |-> T_u8], px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE]>>]
T_Ks62 == [k |-> "struct", fs |-> <<[f |-> C("a"), j |-> C("a"), t |-> T_String, w |-> T_WrapP, px |-> "wrap", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("b"), j |-> C("b"), t |-> [k |-> "opt", t |-> T_bool], w |-> [k |-> "opt", t |-> T_bool], px |-> "", o |-> TRUE, jm |-> <<"def", <<"some", <<"bool", 1>>>>>>, rm |-> <<"def", <<"some", <<"bool", 1>>>>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> TRUE],
      [f |-> C("cc"), j |-> C("cc"), t |-> [k |-> "seq", t |-> [k |-> "opt", t |-> T_bool]], w |-> [k |-> "seq", t |-> [k |-> "opt", t |-> T_bool]], px |-> "", o |-> FALSE, jm |-> <<"def", <<"seq", <<>>>>>>, rm |-> <<"def", <<"seq", <<>>>>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("d_1"), j |-> C("d_1"), t |-> T_i32, w |-> T_i32, px |-> "", o |-> FALSE, jm |-> <<"def", <<"int", C("-7")>>>>, rm |-> <<"def", <<"int", C("-7")>>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("e"), j |-> C("z"), t |-> T_String, w |-> T_String, px |-> "", o |-> FALSE, jm |-> <<"def", <<"str", C("a b")>>>>, rm |-> <<"def", <<"str", C("a b")>>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE]>>]
T_Ks63__i == [k |-> "struct", fs |-> <<[f |-> C("a"), j |-> C("a"), t |-> T_u16, w |-> T_i32, px |-> "scale", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("b"), j |-> C("b"), t |-> [k |-> "opt", t |-> T_u8], w |-> [k |-> "opt", t |-> T_u8], px |-> "", o |-> TRUE, jm |-> <<"def", <<"none">>>>, rm |-> <<"def", <<"none">>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> TRUE],
      [f |-> C("cc"), j |-> C("cc"), t |-> [k |-> "tup", ts |-> <<T_u8, T_String>>], w |-> [k |-> "tup", ts |-> <<T_u8, T_String>>], px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("d_1"), j |-> C("d_1"), t |-> [k |-> "seq", t |-> T_u8], w |-> [k |-> "seq", t |-> T_u8], px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE],
      [f |-> C("e"), j |-> C("w9"), t |-> T_u8, w |-> T_u8, px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE]>>]
T_Ke0__i == [k |-> "enum", vs |-> <<[n |-> C("A"), j |-> C("r0"), k |-> "tup", fs |-> <<[k |-> "tup", ts |-> <<T_u8, T_String>>], T_String, T_u8, T_Uni, [k |-> "opt", t |-> T_bool], T_Plain>>],
      [n |-> C("Bb"), j |-> C("Bb"), k |-> "tup", fs |-> <<T_Uni, [k |-> "map", h |-> FALSE, kt |-> T_String, vt |-> T_u8], [k |-> "seq", t |-> T_u8], T_String>>],
      [n |-> C("C_"), j |-> <<233, 50>>, k |-> "tup", fs |-> <<T_New, T_String, T_Plain, [k |-> "seq", t |-> T_u8], [k |-> "opt", t |-> T_bool]>>],
      [n |-> C("D1"), j |-> C("D1"), k |-> "tup", fs |-> <<T_unit, [k |-> "opt", t |-> [k |-> "tup", ts |-> <<T_u8, T_bool>>]], [k |-> "opt", t |-> T_String], T_Plain, [k |-> "seq", t |-> T_u8], [k |-> "seq", t |-> T_u8]>>],
      [n |-> C("Ee"), j |-> C("Ee"), k |-> "rec", fs |-> <<[f |-> C("av4"), j |-> C("fn_"), t |-> [k |-> "opt", t |-> T_u8], w |-> [k |-> "opt", t |-> T_u8], px |-> "", o |-> TRUE, jm |-> <<"def", <<"none">>>>, rm |-> <<"def", <<"none">>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE], [f |-> C("bv4"), j |-> C("bv4"), t |-> [k |-> "map", h |-> FALSE, kt |-> T_u8, vt |-> [k |-> "opt", t |-> T_String]], w |-> [k |-> "map", h |-> FALSE, kt |-> T_u8, vt |-> [k |-> "opt", t |-> T_String]], px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE], [f |-> C("ccv4"), j |-> C("fn_x"), t |-> T_u8, w |-> T_u8, px |-> "", o |-> FALSE, jm |-> <<"def", <<"int", C("0")>>>>, rm |-> <<"def", <<"int", C("0")>>>>, s |-> TRUE, sv |-> <<"int", C("0")>>, bv |-> <<"int", C("0")>>, nn |-> FALSE], [f |-> C("d_1v4"), j |-> C("d_1v4"), t |-> T_u8, w |-> T_u8, px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE]>>]>>]
T_Ke1 == [k |-> "enum", vs |-> <<[n |-> C("A"), j |-> C("r0"), k |-> "rec", fs |-> <<[f |-> C("av0"), j |-> C("a"), t |-> T_String, w |-> T_String, px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE], [f |-> C("bv0"), j |-> C("bv0"), t |-> [k |-> "opt", t |-> [k |-> "seq", t |-> T_u8]], w |-> [k |-> "opt", t |-> [k |-> "seq", t |-> T_u8]], px |-> "", o |-> TRUE, jm |-> <<"def", <<"none">>>>, rm |-> <<"def", <<"none">>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE], [f |-> C("ccv0"), j |-> C("e"), t |-> [k |-> "seq", t |-> T_String], w |-> [k |-> "seq", t |-> T_String], px |-> "", o |-> FALSE, jm |-> <<"def", <<"seq", <<>>>>>>, rm |-> <<"def", <<"seq", <<>>>>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE], [f |-> C("d_1v0"), j |-> C("z"), t |-> [k |-> "opt", t |-> [k |-> "seq", t |-> T_u8]], w |-> [k |-> "opt", t |-> [k |-> "seq", t |-> T_u8]], px |-> "", o |-> TRUE, jm |-> <<"def", <<"none">>>>, rm |-> <<"def", <<"none">>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE]>>],
      [n |-> C("Bb"), j |-> C("Bb"), k |-> "tup", fs |-> <<[k |-> "tup", ts |-> <<T_u8, T_String>>], [k |-> "opt", t |-> T_u8], T_f64, T_String, [k |-> "seq", t |-> T_u8]>>],
      [n |-> C("C_"), j |-> <<233, 50>>, k |-> "tup", fs |-> <<T_Uni>>],
      [n |-> C("D1"), j |-> C("D1"), k |-> "rec", fs |-> <<[f |-> C("av3"), j |-> C("av3"), t |-> [k |-> "opt", t |-> [k |-> "seq", t |-> T_u8]], w |-> [k |-> "opt", t |-> [k |-> "seq", t |-> T_u8]], px |-> "", o |-> TRUE, jm |-> <<"def", <<"none">>>>, rm |-> <<"def", <<"none">>>>, s |-> TRUE, sv |-> <<"none">>, bv |-> <<"none">>, nn |-> FALSE]>>],
      [n |-> C("Ee"), j |-> C("A_"), k |-> "tup", fs |-> <<T_bool, T_unit, [k |-> "seq", t |-> [k |-> "opt", t |-> T_bool]], [k |-> "opt", t |-> [k |-> "tup", ts |-> <<T_u8, T_bool>>]]>>]>>]
T_Ke2__i == [k |-> "enum", vs |-> <<[n |-> C("A"), j |-> C("A"), k |-> "rec", fs |-> <<[f |-> C("av0"), j |-> C("fn_"), t |-> [k |-> "opt", t |-> T_Plain], w |-> [k |-> "opt", t |-> T_Plain], px |-> "", o |-> TRUE, jm |-> <<"def", <<"none">>>>, rm |-> <<"def", <<"none">>>>, s |-> TRUE, sv |-> <<"none">>, bv |-> <<"none">>, nn |-> FALSE], [f |-> C("bv0"), j |-> C("fn_x"), t |-> T_i32, w |-> T_i32, px |-> "", o |-> FALSE, jm |-> <<"def", <<"int", C("0")>>>>, rm |-> <<"def", <<"int", C("0")>>>>, s |-> TRUE, sv |-> <<"int", C("0")>>, bv |-> <<"int", C("0")>>, nn |-> FALSE], [f |-> C("ccv0"), j |-> C("e"), t |-> [k |-> "seq", t |-> T_u8], w |-> [k |-> "seq", t |-> T_u8], px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE]>>],
      [n |-> C("Bb"), j |-> C("C__"), k |-> "rec", fs |-> <<[f |-> C("av1"), j |-> C("av1"), t |-> [k |-> "seq", t |-> T_u8], w |-> [k |-> "seq", t |-> T_u8], px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE], [f |-> C("bv1"), j |-> C("bv1"), t |-> T_Uni, w |-> T_Uni, px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE]>>],
      [n |-> C("C_"), j |-> C("C_"), k |-> "rec", fs |-> <<[f |-> C("av2"), j |-> C("fn_"), t |-> [k |-> "seq", t |-> T_u8], w |-> [k |-> "seq", t |-> T_u8], px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE], [f |-> C("bv2"), j |-> C("bv2"), t |-> T_u8, w |-> T_u8, px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE], [f |-> C("ccv2"), j |-> C("ccv2"), t |-> [k |-> "tup", ts |-> <<T_u8, T_String>>], w |-> [k |-> "tup", ts |-> <<T_u8, T_String>>], px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE], [f |-> C("d_1v2"), j |-> C("z"), t |-> [k |-> "tup", ts |-> <<T_u8, T_String>>], w |-> [k |-> "tup", ts |-> <<T_u8, T_String>>], px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE]>>],
      [n |-> C("D1"), j |-> C("D1"), k |-> "rec", fs |-> <<[f |-> C("av3"), j |-> C("av3"), t |-> [k |-> "seq", t |-> T_u8], w |-> [k |-> "seq", t |-> T_u8], px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE]>>],
      [n |-> C("Ee"), j |-> C("A_"), k |-> "tup", fs |-> <<T_dur, T_u8, T_bool, T_u8, [k |-> "opt", t |-> [k |-> "tup", ts |-> <<T_u8, T_bool>>]], [k |-> "arr", n |-> 2, t |-> T_u8]>>]>>]
T_Ke3__i == [k |-> "enum", vs |-> <<[n |-> C("A"), j |-> C("A"), k |-> "tup", fs |-> <<[k |-> "arr", n |-> 2, t |-> T_u8], T_f64, [k |-> "opt", t |-> [k |-> "tup", ts |-> <<T_u8, T_bool>>]], T_dur, T_i64>>],
      [n |-> C("Bb"), j |-> C("Bb"), k |-> "tup", fs |-> <<T_u8, [k |-> "opt", t |-> T_u8]>>],
      [n |-> C("C_"), j |-> C("C_"), k |-> "rec", fs |-> <<[f |-> C("av2"), j |-> C("av2"), t |-> [k |-> "seq", t |-> T_u8], w |-> [k |-> "seq", t |-> T_u8], px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE], [f |-> C("bv2"), j |-> C("bv2"), t |-> T_i64, w |-> T_i64, px |-> "", o |-> FALSE, jm |-> <<"def", <<"int", C("0")>>>>, rm |-> <<"def", <<"int", C("0")>>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE], [f |-> C("ccv2"), j |-> C("e"), t |-> [k |-> "seq", t |-> T_String], w |-> [k |-> "seq", t |-> T_String], px |-> "", o |-> FALSE, jm |-> <<"def", <<"seq", <<>>>>>>, rm |-> <<"def", <<"seq", <<>>>>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE], [f |-> C("d_1v2"), j |-> C("b2"), t |-> [k |-> "opt", t |-> [k |-> "tup", ts |-> <<T_u8, T_bool>>]], w |-> [k |-> "opt", t |-> [k |-> "tup", ts |-> <<T_u8, T_bool>>]], px |-> "", o |-> TRUE, jm |-> <<"def", <<"none">>>>, rm |-> <<"def", <<"none">>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE]>>],
      [n |-> C("D1"), j |-> C("D1"), k |-> "rec", fs |-> <<[f |-> C("av3"), j |-> C("e"), t |-> [k |-> "opt", t |-> T_u8], w |-> [k |-> "opt", t |-> T_u8], px |-> "", o |-> TRUE, jm |-> <<"def", <<"none">>>>, rm |-> <<"def", <<"none">>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE]>>],
      [n |-> C("Ee"), j |-> C("Ee"), k |-> "rec", fs |-> <<[f |-> C("av4"), j |-> C("fn_"), t |-> [k |-> "tup", ts |-> <<T_u8, T_String>>], w |-> [k |-> "tup", ts |-> <<T_u8, T_String>>], px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE], [f |-> C("bv4"), j |-> C("bv4"), t |-> [k |-> "opt", t |-> T_u8], w |-> [k |-> "opt", t |-> T_u8], px |-> "", o |-> TRUE, jm |-> <<"def", <<"none">>>>, rm |-> <<"def", <<"none">>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE], [f |-> C("ccv4"), j |-> C("ccv4"), t |-> [k |-> "seq", t |-> T_String], w |-> [k |-> "seq", t |-> T_String], px |-> "", o |-> FALSE, jm |-> <<"def", <<"seq", <<>>>>>>, rm |-> <<"def", <<"seq", <<>>>>>>, s |-> TRUE, sv |-> <<"seq", <<>>>>, bv |-> <<"seq", <<>>>>, nn |-> FALSE], [f |-> C("d_1v4"), j |-> C("d_1v4"), t |-> [k |-> "opt", t |-> T_Plain], w |-> [k |-> "opt", t |-> T_Plain], px |-> "", o |-> TRUE, jm |-> <<"def", <<"none">>>>, rm |-> <<"def", <<"none">>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE]>>]>>]
T_Ke4__i == [k |-> "enum", vs |-> <<[n |-> C("A"), j |-> C("A"), k |-> "unit", fs |-> <<>>],
      [n |-> C("Bb"), j |-> C("Bb"), k |-> "rec", fs |-> <<[f |-> C("av1"), j |-> C("av1"), t |-> T_String, w |-> T_String, px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE], [f |-> C("bv1"), j |-> C("bv1"), t |-> [k |-> "seq", t |-> T_String], w |-> [k |-> "seq", t |-> T_String], px |-> "", o |-> FALSE, jm |-> <<"def", <<"seq", <<>>>>>>, rm |-> <<"def", <<"seq", <<>>>>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE], [f |-> C("ccv1"), j |-> C("ccv1"), t |-> [k |-> "opt", t |-> T_u8], w |-> [k |-> "opt", t |-> T_u8], px |-> "", o |-> TRUE, jm |-> <<"def", <<"none">>>>, rm |-> <<"def", <<"none">>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE]>>],
      [n |-> C("C_"), j |-> C("C_"), k |-> "tup", fs |-> <<[k |-> "arr", n |-> 2, t |-> T_u8], T_unit, [k |-> "seq", t |-> T_u8], [k |-> "seq", t |-> [k |-> "opt", t |-> T_bool]], [k |-> "opt", t |-> T_String]>>],
      [n |-> C("D1"), j |-> C("D1"), k |-> "unit", fs |-> <<>>],
      [n |-> C("Ee"), j |-> C("Ee"), k |-> "tup", fs |-> <<T_u8>>]>>]
T_Ke5__i == [k |-> "enum", vs |-> <<[n |-> C("A"), j |-> C("A"), k |-> "tup", fs |-> <<[k |-> "seq", t |-> T_u8], T_i64, T_New>>],
      [n |-> C("Bb"), j |-> C("Bb"), k |-> "rec", fs |-> <<[f |-> C("av1"), j |-> C("fn_"), t |-> [k |-> "map", h |-> FALSE, kt |-> T_u8, vt |-> [k |-> "opt", t |-> T_String]], w |-> [k |-> "map", h |-> FALSE, kt |-> T_u8, vt |-> [k |-> "opt", t |-> T_String]], px |-> "", o |-> FALSE, jm |-> <<"def", <<"map", <<>>>>>>, rm |-> <<"def", <<"map", <<>>>>>>, s |-> TRUE, sv |-> <<"map", <<>>>>, bv |-> <<"map", <<>>>>, nn |-> FALSE], [f |-> C("bv1"), j |-> C("w9"), t |-> [k |-> "opt", t |-> T_bool], w |-> [k |-> "opt", t |-> T_bool], px |-> "", o |-> TRUE, jm |-> <<"def", <<"none">>>>, rm |-> <<"def", <<"none">>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE], [f |-> C("ccv1"), j |-> C("ccv1"), t |-> [k |-> "opt", t |-> T_bool], w |-> [k |-> "opt", t |-> T_bool], px |-> "", o |-> TRUE, jm |-> <<"def", <<"some", <<"bool", 1>>>>>>, rm |-> <<"def", <<"some", <<"bool", 1>>>>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE]>>],
      [n |-> C("C_"), j |-> C("C_"), k |-> "tup", fs |-> <<T_u8>>],
      [n |-> C("D1"), j |-> C("D1"), k |-> "tup", fs |-> <<[k |-> "opt", t |-> T_String], T_unit, T_String, T_Uni, T_unit, [k |-> "seq", t |-> [k |-> "opt", t |-> T_bool]]>>],
      [n |-> C("Ee"), j |-> C("Ee"), k |-> "unit", fs |-> <<>>]>>]
T_Ke6__i == [k |-> "enum", vs |-> <<[n |-> C("A"), j |-> C("r0"), k |-> "rec", fs |-> <<[f |-> C("av0"), j |-> C("av0"), t |-> [k |-> "seq", t |-> T_String], w |-> [k |-> "seq", t |-> T_String], px |-> "", o |-> FALSE, jm |-> <<"def", <<"seq", <<>>>>>>, rm |-> <<"def", <<"seq", <<>>>>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE]>>],
      [n |-> C("Bb"), j |-> C("C__"), k |-> "tup", fs |-> <<T_u8, T_String, [k |-> "opt", t |-> T_bool], T_New>>],
      [n |-> C("C_"), j |-> <<233, 50>>, k |-> "tup", fs |-> <<[k |-> "opt", t |-> T_u8], T_unit, [k |-> "map", h |-> FALSE, kt |-> T_String, vt |-> T_u8], [k |-> "opt", t |-> T_bool], T_String, T_Uni>>],
      [n |-> C("D1"), j |-> C("D1"), k |-> "rec", fs |-> <<[f |-> C("av3"), j |-> C("w9"), t |-> [k |-> "seq", t |-> [k |-> "opt", t |-> T_bool]], w |-> [k |-> "seq", t |-> [k |-> "opt", t |-> T_bool]], px |-> "", o |-> FALSE, jm |-> <<"def", <<"seq", <<>>>>>>, rm |-> <<"def", <<"seq", <<>>>>>>, s |-> TRUE, sv |-> <<"seq", <<>>>>, bv |-> <<"seq", <<>>>>, nn |-> FALSE], [f |-> C("bv3"), j |-> C("fn_"), t |-> T_i64, w |-> T_i64, px |-> "", o |-> FALSE, jm |-> <<"def", <<"int", C("0")>>>>, rm |-> <<"def", <<"int", C("0")>>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE], [f |-> C("ccv3"), j |-> C("ccv3"), t |-> [k |-> "opt", t |-> T_u8], w |-> [k |-> "opt", t |-> T_u8], px |-> "", o |-> TRUE, jm |-> <<"def", <<"none">>>>, rm |-> <<"def", <<"none">>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE]>>],
      [n |-> C("Ee"), j |-> C("Ee"), k |-> "rec", fs |-> <<[f |-> C("av4"), j |-> C("a"), t |-> [k |-> "seq", t |-> T_u8], w |-> [k |-> "seq", t |-> T_u8], px |-> "", o |-> FALSE, jm |-> <<"def", <<"seq", <<>>>>>>, rm |-> <<"def", <<"seq", <<>>>>>>, s |-> TRUE, sv |-> <<"seq", <<>>>>, bv |-> <<"seq", <<>>>>, nn |-> FALSE], [f |-> C("bv4"), j |-> C("bv4"), t |-> T_bool, w |-> T_bool, px |-> "", o |-> FALSE, jm |-> <<"def", <<"bool", 0>>>>, rm |-> <<"def", <<"bool", 0>>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE], [f |-> C("ccv4"), j |-> C("ax"), t |-> T_u8, w |-> T_u8, px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE], [f |-> C("d_1v4"), j |-> C("z"), t |-> [k |-> "opt", t |-> T_u8], w |-> [k |-> "opt", t |-> T_u8], px |-> "", o |-> TRUE, jm |-> <<"def", <<"none">>>>, rm |-> <<"def", <<"none">>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE]>>]>>]
T_Ke7__i == [k |-> "enum", vs |-> <<[n |-> C("A"), j |-> C("r0"), k |-> "tup", fs |-> <<T_f64, T_New, [k |-> "opt", t |-> [k |-> "tup", ts |-> <<T_u8, T_bool>>]], T_Plain, [k |-> "map", h |-> FALSE, kt |-> T_String, vt |-> T_u8]>>],
      [n |-> C("Bb"), j |-> C("Bb"), k |-> "rec", fs |-> <<[f |-> C("av1"), j |-> C("av1"), t |-> [k |-> "opt", t |-> [k |-> "seq", t |-> T_u8]], w |-> [k |-> "opt", t |-> [k |-> "seq", t |-> T_u8]], px |-> "", o |-> TRUE, jm |-> <<"def", <<"none">>>>, rm |-> <<"def", <<"none">>>>, s |-> TRUE, sv |-> <<"none">>, bv |-> <<"none">>, nn |-> FALSE], [f |-> C("bv1"), j |-> C("bv1"), t |-> T_f64, w |-> T_f64, px |-> "", o |-> FALSE, jm |-> <<"def", <<"flt", C("2.5")>>>>, rm |-> <<"def", <<"flt", C("2.5")>>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE], [f |-> C("ccv1"), j |-> C("e"), t |-> [k |-> "opt", t |-> T_u8], w |-> [k |-> "opt", t |-> T_u8], px |-> "", o |-> TRUE, jm |-> <<"def", <<"none">>>>, rm |-> <<"def", <<"none">>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE]>>],
      [n |-> C("C_"), j |-> <<233, 50>>, k |-> "unit", fs |-> <<>>],
      [n |-> C("D1"), j |-> C("D1"), k |-> "rec", fs |-> <<[f |-> C("av3"), j |-> C("av3"), t |-> T_i32, w |-> T_i32, px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE], [f |-> C("bv3"), j |-> C("w9"), t |-> [k |-> "seq", t |-> T_u8], w |-> [k |-> "seq", t |-> T_u8], px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE], [f |-> C("ccv3"), j |-> C("ccv3"), t |-> T_f64, w |-> T_f64, px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE]>>],
      [n |-> C("Ee"), j |-> C("Ee"), k |-> "rec", fs |-> <<[f |-> C("av4"), j |-> C("av4"), t |-> T_New, w |-> T_New, px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE], [f |-> C("bv4"), j |-> C("e"), t |-> [k |-> "seq", t |-> [k |-> "opt", t |-> T_bool]], w |-> [k |-> "seq", t |-> [k |-> "opt", t |-> T_bool]], px |-> "", o |-> FALSE, jm |-> <<"def", <<"seq", <<>>>>>>, rm |-> <<"def", <<"seq", <<>>>>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE]>>]>>]
T_Ke8 == [k |-> "enum", vs |-> <<[n |-> C("A"), j |-> C("A"), k |-> "rec", fs |-> <<[f |-> C("av0"), j |-> C("av0"), t |-> [k |-> "opt", t |-> T_Plain], w |-> [k |-> "opt", t |-> T_Plain], px |-> "", o |-> TRUE, jm |-> <<"def", <<"none">>>>, rm |-> <<"def", <<"none">>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE], [f |-> C("bv0"), j |-> C("bv0"), t |-> [k |-> "opt", t |-> [k |-> "seq", t |-> T_u8]], w |-> [k |-> "opt", t |-> [k |-> "seq", t |-> T_u8]], px |-> "", o |-> TRUE, jm |-> <<"def", <<"none">>>>, rm |-> <<"def", <<"none">>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE], [f |-> C("ccv0"), j |-> C("ccv0"), t |-> T_bool, w |-> T_bool, px |-> "", o |-> FALSE, jm |-> <<"def", <<"bool", 0>>>>, rm |-> <<"def", <<"bool", 0>>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE], [f |-> C("d_1v0"), j |-> C("z"), t |-> [k |-> "opt", t |-> T_Plain], w |-> [k |-> "opt", t |-> T_Plain], px |-> "", o |-> TRUE, jm |-> <<"def", <<"none">>>>, rm |-> <<"def", <<"none">>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE]>>],
      [n |-> C("Bb"), j |-> C("Bb"), k |-> "rec", fs |-> <<[f |-> C("av1"), j |-> C("av1"), t |-> T_Uni, w |-> T_Uni, px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE]>>],
      [n |-> C("C_"), j |-> C("C_"), k |-> "rec", fs |-> <<[f |-> C("av2"), j |-> C("av2"), t |-> [k |-> "opt", t |-> T_bool], w |-> [k |-> "opt", t |-> T_bool], px |-> "", o |-> TRUE, jm |-> <<"def", <<"none">>>>, rm |-> <<"def", <<"none">>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE], [f |-> C("bv2"), j |-> C("bv2"), t |-> [k |-> "opt", t |-> T_u8], w |-> [k |-> "opt", t |-> T_u8], px |-> "", o |-> TRUE, jm |-> <<"def", <<"some", <<"int", C("3")>>>>>>, rm |-> <<"def", <<"some", <<"int", C("3")>>>>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE], [f |-> C("ccv2"), j |-> C("ccv2"), t |-> [k |-> "set", h |-> FALSE, t |-> T_i32], w |-> [k |-> "set", h |-> FALSE, t |-> T_i32], px |-> "", o |-> FALSE, jm |-> <<"def", <<"seq", <<>>>>>>, rm |-> <<"def", <<"seq", <<>>>>>>, s |-> TRUE, sv |-> <<"seq", <<>>>>, bv |-> <<"seq", <<>>>>, nn |-> FALSE], [f |-> C("d_1v2"), j |-> C("d_1v2"), t |-> [k |-> "opt", t |-> T_u8], w |-> [k |-> "opt", t |-> T_u8], px |-> "", o |-> TRUE, jm |-> <<"def", <<"none">>>>, rm |-> <<"def", <<"none">>>>, s |-> TRUE, sv |-> <<"none">>, bv |-> <<"none">>, nn |-> FALSE]>>],
      [n |-> C("D1"), j |-> C("D1"), k |-> "rec", fs |-> <<[f |-> C("av3"), j |-> C("av3"), t |-> [k |-> "seq", t |-> T_u8], w |-> [k |-> "seq", t |-> T_u8], px |-> "", o |-> FALSE, jm |-> <<"def", <<"seq", <<>>>>>>, rm |-> <<"def", <<"seq", <<>>>>>>, s |-> TRUE, sv |-> <<"seq", <<>>>>, bv |-> <<"seq", <<>>>>, nn |-> FALSE], [f |-> C("bv3"), j |-> C("ax"), t |-> [k |-> "seq", t |-> T_String], w |-> [k |-> "seq", t |-> T_String], px |-> "", o |-> FALSE, jm |-> <<"def", <<"seq", <<>>>>>>, rm |-> <<"def", <<"seq", <<>>>>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE], [f |-> C("ccv3"), j |-> C("w9"), t |-> T_String, w |-> T_String, px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE]>>],
      [n |-> C("Ee"), j |-> C("Ee"), k |-> "tup", fs |-> <<T_String, [k |-> "opt", t |-> T_u8], [k |-> "tup", ts |-> <<T_u8, T_String>>]>>]>>]
T_Ke9 == [k |-> "enum", vs |-> <<[n |-> C("A"), j |-> C("A"), k |-> "tup", fs |-> <<[k |-> "tup", ts |-> <<T_u8, T_String>>], [k |-> "seq", t |-> [k |-> "opt", t |-> T_bool]], [k |-> "opt", t |-> [k |-> "tup", ts |-> <<T_u8, T_bool>>]], [k |-> "opt", t |-> T_String]>>],
      [n |-> C("Bb"), j |-> C("Bb"), k |-> "unit", fs |-> <<>>],
      [n |-> C("C_"), j |-> C("C_"), k |-> "rec", fs |-> <<[f |-> C("av2"), j |-> C("a"), t |-> T_i32, w |-> T_i32, px |-> "", o |-> FALSE, jm |-> <<"def", <<"int", C("-7")>>>>, rm |-> <<"def", <<"int", C("-7")>>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE], [f |-> C("bv2"), j |-> C("fn_"), t |-> T_Uni, w |-> T_Uni, px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE], [f |-> C("ccv2"), j |-> C("w9"), t |-> T_dur, w |-> T_dur, px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE], [f |-> C("d_1v2"), j |-> C("d_1v2"), t |-> T_f64, w |-> T_f64, px |-> "", o |-> FALSE, jm |-> <<"def", <<"flt", C("0.0")>>>>, rm |-> <<"def", <<"flt", C("0.0")>>>>, s |-> TRUE, sv |-> <<"flt", C("0.0")>>, bv |-> <<"flt", C("0.0")>>, nn |-> FALSE]>>],
      [n |-> C("D1"), j |-> C("D1"), k |-> "rec", fs |-> <<[f |-> C("av3"), j |-> C("av3"), t |-> T_i64, w |-> T_i64, px |-> "", o |-> FALSE, jm |-> <<"def", <<"int", C("0")>>>>, rm |-> <<"def", <<"int", C("0")>>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE], [f |-> C("bv3"), j |-> C("e"), t |-> T_Plain, w |-> T_Plain, px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE], [f |-> C("ccv3"), j |-> C("ccv3"), t |-> [k |-> "opt", t |-> T_String], w |-> [k |-> "opt", t |-> T_String], px |-> "", o |-> TRUE, jm |-> <<"def", <<"none">>>>, rm |-> <<"def", <<"none">>>>, s |-> TRUE, sv |-> <<"none">>, bv |-> <<"none">>, nn |-> FALSE], [f |-> C("d_1v3"), j |-> C("ex"), t |-> T_New, w |-> T_New, px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE]>>],
      [n |-> C("Ee"), j |-> C("Ee"), k |-> "tup", fs |-> <<[k |-> "map", h |-> FALSE, kt |-> T_String, vt |-> T_u8]>>]>>]
T_Ke10__i == [k |-> "enum", vs |-> <<[n |-> C("A"), j |-> C("A"), k |-> "rec", fs |-> <<[f |-> C("av0"), j |-> C("av0"), t |-> [k |-> "map", h |-> FALSE, kt |-> T_u8, vt |-> [k |-> "opt", t |-> T_String]], w |-> [k |-> "map", h |-> FALSE, kt |-> T_u8, vt |-> [k |-> "opt", t |-> T_String]], px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE], [f |-> C("bv0"), j |-> C("bv0"), t |-> [k |-> "tup", ts |-> <<T_u8, T_String>>], w |-> [k |-> "tup", ts |-> <<T_u8, T_String>>], px |-> "", o |-> FALSE, jm |-> <<"def", <<"tup", <<<<"int", C("0")>>, <<"str", <<>>>>>>>>>>, rm |-> <<"def", <<"tup", <<<<"int", C("0")>>, <<"str", <<>>>>>>>>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE], [f |-> C("ccv0"), j |-> C("e"), t |-> [k |-> "opt", t |-> T_u8], w |-> [k |-> "opt", t |-> T_u8], px |-> "", o |-> TRUE, jm |-> <<"def", <<"none">>>>, rm |-> <<"def", <<"none">>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE], [f |-> C("d_1v0"), j |-> C("z"), t |-> T_bool, w |-> T_bool, px |-> "", o |-> FALSE, jm |-> <<"def", <<"bool", 0>>>>, rm |-> <<"def", <<"bool", 0>>>>, s |-> TRUE, sv |-> <<"bool", 0>>, bv |-> <<"bool", 0>>, nn |-> FALSE]>>],
      [n |-> C("Bb"), j |-> C("Bb"), k |-> "rec", fs |-> <<[f |-> C("av1"), j |-> C("av1"), t |-> T_u8, w |-> T_u8, px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE], [f |-> C("bv1"), j |-> C("w9"), t |-> [k |-> "seq", t |-> T_String], w |-> [k |-> "seq", t |-> T_String], px |-> "", o |-> FALSE, jm |-> <<"def", <<"seq", <<>>>>>>, rm |-> <<"def", <<"seq", <<>>>>>>, s |-> TRUE, sv |-> <<"seq", <<>>>>, bv |-> <<"seq", <<>>>>, nn |-> FALSE], [f |-> C("ccv1"), j |-> C("ccv1"), t |-> T_u8, w |-> T_u8, px |-> "", o |-> FALSE, jm |-> <<"def", <<"int", C("0")>>>>, rm |-> <<"def", <<"int", C("0")>>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE], [f |-> C("d_1v1"), j |-> C("e"), t |-> T_i64, w |-> T_i64, px |-> "", o |-> FALSE, jm |-> <<"def", <<"int", C("0")>>>>, rm |-> <<"def", <<"int", C("0")>>>>, s |-> TRUE, sv |-> <<"int", C("0")>>, bv |-> <<"int", C("0")>>, nn |-> FALSE]>>],
      [n |-> C("C_"), j |-> C("C_"), k |-> "tup", fs |-> <<T_u8, T_String>>],
      [n |-> C("D1"), j |-> C("D1"), k |-> "tup", fs |-> <<[k |-> "seq", t |-> T_u8], [k |-> "opt", t |-> T_u8], [k |-> "seq", t |-> T_u8], T_Uni, [k |-> "opt", t |-> [k |-> "tup", ts |-> <<T_u8, T_bool>>]]>>]>>]
T_Ke11 == [k |-> "enum", vs |-> <<[n |-> C("A"), j |-> C("A"), k |-> "tup", fs |-> <<T_Plain, [k |-> "map", h |-> FALSE, kt |-> T_String, vt |-> T_u8]>>],
      [n |-> C("Bb"), j |-> C("C__"), k |-> "tup", fs |-> <<T_New, [k |-> "seq", t |-> [k |-> "opt", t |-> T_bool]]>>],
      [n |-> C("C_"), j |-> C("C_"), k |-> "rec", fs |-> <<[f |-> C("av2"), j |-> C("fn_"), t |-> T_bool, w |-> T_bool, px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE], [f |-> C("bv2"), j |-> C("w9"), t |-> [k |-> "opt", t |-> T_u8], w |-> [k |-> "opt", t |-> T_u8], px |-> "", o |-> TRUE, jm |-> <<"def", <<"none">>>>, rm |-> <<"def", <<"none">>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE], [f |-> C("ccv2"), j |-> C("w9x"), t |-> [k |-> "seq", t |-> T_u8], w |-> [k |-> "seq", t |-> T_u8], px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE]>>],
      [n |-> C("D1"), j |-> C("r3"), k |-> "rec", fs |-> <<[f |-> C("av3"), j |-> C("av3"), t |-> T_unit, w |-> T_unit, px |-> "", o |-> FALSE, jm |-> <<"def", <<"unit">>>>, rm |-> <<"def", <<"unit">>>>, s |-> TRUE, sv |-> <<"unit">>, bv |-> <<"unit">>, nn |-> FALSE], [f |-> C("bv3"), j |-> C("fn_"), t |-> T_String, w |-> T_String, px |-> "", o |-> FALSE, jm |-> <<"def", <<"str", <<>>>>>>, rm |-> <<"def", <<"str", <<>>>>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE]>>],
      [n |-> C("Ee"), j |-> C("Ee"), k |-> "rec", fs |-> <<[f |-> C("av4"), j |-> C("av4"), t |-> [k |-> "opt", t |-> T_String], w |-> [k |-> "opt", t |-> T_String], px |-> "", o |-> TRUE, jm |-> <<"def", <<"none">>>>, rm |-> <<"def", <<"none">>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE], [f |-> C("bv4"), j |-> C("w9"), t |-> T_bool, w |-> T_bool, px |-> "", o |-> FALSE, jm |-> <<"def", <<"bool", 1>>>>, rm |-> <<"def", <<"bool", 1>>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE], [f |-> C("ccv4"), j |-> C("ccv4"), t |-> [k |-> "seq", t |-> T_String], w |-> [k |-> "seq", t |-> T_String], px |-> "", o |-> FALSE, jm |-> <<"def", <<"seq", <<>>>>>>, rm |-> <<"def", <<"seq", <<>>>>>>, s |-> TRUE, sv |-> <<"seq", <<>>>>, bv |-> <<"seq", <<>>>>, nn |-> FALSE]>>]>>]
T_Ke12__i == [k |-> "enum", vs |-> <<[n |-> C("A"), j |-> C("A"), k |-> "rec", fs |-> <<[f |-> C("av0"), j |-> C("a"), t |-> T_Uni, w |-> T_Uni, px |-> "", o |-> FALSE, jm |-> <<"def", <<"var", 1, <<>>>>>>, rm |-> <<"def", <<"var", 1, <<>>>>>>, s |-> TRUE, sv |-> <<"var", 1, <<>>>>, bv |-> <<"var", 1, <<>>>>, nn |-> FALSE], [f |-> C("bv0"), j |-> C("bv0"), t |-> [k |-> "tup", ts |-> <<T_u8, T_String>>], w |-> [k |-> "tup", ts |-> <<T_u8, T_String>>], px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE]>>],
      [n |-> C("Bb"), j |-> C("C__"), k |-> "tup", fs |-> <<T_u8, [k |-> "opt", t |-> T_bool], [k |-> "seq", t |-> [k |-> "opt", t |-> T_bool]]>>],
      [n |-> C("C_"), j |-> <<233, 50>>, k |-> "tup", fs |-> <<[k |-> "opt", t |-> [k |-> "tup", ts |-> <<T_u8, T_bool>>]], T_String, [k |-> "opt", t |-> T_u8], [k |-> "arr", n |-> 2, t |-> T_u8]>>]>>]
T_Ke13 == [k |-> "enum", vs |-> <<[n |-> C("A"), j |-> C("A"), k |-> "rec", fs |-> <<[f |-> C("av0"), j |-> C("av0"), t |-> [k |-> "seq", t |-> [k |-> "opt", t |-> T_bool]], w |-> [k |-> "seq", t |-> [k |-> "opt", t |-> T_bool]], px |-> "", o |-> FALSE, jm |-> <<"def", <<"seq", <<>>>>>>, rm |-> <<"def", <<"seq", <<>>>>>>, s |-> TRUE, sv |-> <<"seq", <<>>>>, bv |-> <<"seq", <<>>>>, nn |-> FALSE], [f |-> C("bv0"), j |-> C("fn_"), t |-> [k |-> "tup", ts |-> <<T_u8, T_String>>], w |-> [k |-> "tup", ts |-> <<T_u8, T_String>>], px |-> "", o |-> FALSE, jm |-> <<"def", <<"tup", <<<<"int", C("0")>>, <<"str", <<>>>>>>>>>>, rm |-> <<"def", <<"tup", <<<<"int", C("0")>>, <<"str", <<>>>>>>>>>>, s |-> TRUE, sv |-> <<"tup", <<<<"int", C("0")>>, <<"str", <<>>>>>>>>, bv |-> <<"tup", <<<<"int", C("0")>>, <<"str", <<>>>>>>>>, nn |-> FALSE], [f |-> C("ccv0"), j |-> C("ccv0"), t |-> T_i64, w |-> T_i64, px |-> "", o |-> FALSE, jm |-> <<"def", <<"int", C("-9000000000")>>>>, rm |-> <<"def", <<"int", C("-9000000000")>>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE]>>],
      [n |-> C("Bb"), j |-> C("Bb"), k |-> "rec", fs |-> <<[f |-> C("av1"), j |-> C("a"), t |-> [k |-> "arr", n |-> 2, t |-> T_u8], w |-> [k |-> "arr", n |-> 2, t |-> T_u8], px |-> "", o |-> FALSE, jm |-> <<"def", <<"seq", <<<<"int", C("0")>>, <<"int", C("0")>>>>>>>>, rm |-> <<"def", <<"seq", <<<<"int", C("0")>>, <<"int", C("0")>>>>>>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE], [f |-> C("bv1"), j |-> C("ax"), t |-> [k |-> "seq", t |-> T_String], w |-> [k |-> "seq", t |-> T_String], px |-> "", o |-> FALSE, jm |-> <<"def", <<"seq", <<>>>>>>, rm |-> <<"def", <<"seq", <<>>>>>>, s |-> TRUE, sv |-> <<"seq", <<>>>>, bv |-> <<"seq", <<>>>>, nn |-> FALSE], [f |-> C("ccv1"), j |-> C("ccv1"), t |-> [k |-> "arr", n |-> 2, t |-> T_u8], w |-> [k |-> "arr", n |-> 2, t |-> T_u8], px |-> "", o |-> FALSE, jm |-> <<"def", <<"seq", <<<<"int", C("0")>>, <<"int", C("0")>>>>>>>>, rm |-> <<"def", <<"seq", <<<<"int", C("0")>>, <<"int", C("0")>>>>>>>>, s |-> TRUE, sv |-> <<"seq", <<<<"int", C("0")>>, <<"int", C("0")>>>>>>, bv |-> <<"seq", <<<<"int", C("0")>>, <<"int", C("0")>>>>>>, nn |-> FALSE], [f |-> C("d_1v1"), j |-> C("d_1v1"), t |-> [k |-> "set", h |-> FALSE, t |-> T_i32], w |-> [k |-> "set", h |-> FALSE, t |-> T_i32], px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE]>>],
      [n |-> C("C_"), j |-> C("C_"), k |-> "rec", fs |-> <<[f |-> C("av2"), j |-> C("fn_"), t |-> [k |-> "opt", t |-> T_bool], w |-> [k |-> "opt", t |-> T_bool], px |-> "", o |-> TRUE, jm |-> <<"def", <<"none">>>>, rm |-> <<"def", <<"none">>>>, s |-> TRUE, sv |-> <<"none">>, bv |-> <<"none">>, nn |-> FALSE]>>],
      [n |-> C("D1"), j |-> C("D1"), k |-> "unit", fs |-> <<>>],
      [n |-> C("Ee"), j |-> C("Ee"), k |-> "unit", fs |-> <<>>]>>]
T_Ke14 == [k |-> "enum", vs |-> <<[n |-> C("A"), j |-> C("A"), k |-> "tup", fs |-> <<[k |-> "opt", t |-> T_u8]>>],
      [n |-> C("Bb"), j |-> C("Bb"), k |-> "rec", fs |-> <<[f |-> C("av1"), j |-> C("a"), t |-> [k |-> "set", h |-> FALSE, t |-> T_i32], w |-> [k |-> "set", h |-> FALSE, t |-> T_i32], px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE], [f |-> C("bv1"), j |-> C("bv1"), t |-> [k |-> "seq", t |-> T_String], w |-> [k |-> "seq", t |-> T_String], px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE]>>],
      [n |-> C("C_"), j |-> C("C_"), k |-> "rec", fs |-> <<[f |-> C("av2"), j |-> C("av2"), t |-> [k |-> "opt", t |-> [k |-> "seq", t |-> T_u8]], w |-> [k |-> "opt", t |-> [k |-> "seq", t |-> T_u8]], px |-> "", o |-> TRUE, jm |-> <<"def", <<"none">>>>, rm |-> <<"def", <<"none">>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE], [f |-> C("bv2"), j |-> C("fn_"), t |-> T_String, w |-> T_String, px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE], [f |-> C("ccv2"), j |-> C("w9"), t |-> T_String, w |-> T_String, px |-> "", o |-> FALSE, jm |-> <<"def", <<"str", <<>>>>>>, rm |-> <<"def", <<"str", <<>>>>>>, s |-> TRUE, sv |-> <<"str", <<>>>>, bv |-> <<"str", <<>>>>, nn |-> FALSE]>>],
      [n |-> C("D1"), j |-> C("D1"), k |-> "tup", fs |-> <<T_dur, T_i64>>],
      [n |-> C("Ee"), j |-> C("Ee"), k |-> "rec", fs |-> <<[f |-> C("av4"), j |-> C("av4"), t |-> [k |-> "seq", t |-> T_u8], w |-> [k |-> "seq", t |-> T_u8], px |-> "", o |-> FALSE, jm |-> <<"def", <<"seq", <<>>>>>>, rm |-> <<"def", <<"seq", <<>>>>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE], [f |-> C("bv4"), j |-> C("w9"), t |-> [k |-> "seq", t |-> T_String], w |-> [k |-> "seq", t |-> T_String], px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE], [f |-> C("ccv4"), j |-> C("ccv4"), t |-> T_Uni, w |-> T_Uni, px |-> "", o |-> FALSE, jm |-> <<"def", <<"var", 1, <<>>>>>>, rm |-> <<"def", <<"var", 1, <<>>>>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE]>>]>>]
T_Ke15 == [k |-> "enum", vs |-> <<[n |-> C("A"), j |-> C("A"), k |-> "rec", fs |-> <<[f |-> C("av0"), j |-> C("av0"), t |-> [k |-> "set", h |-> FALSE, t |-> T_i32], w |-> [k |-> "set", h |-> FALSE, t |-> T_i32], px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE], [f |-> C("bv0"), j |-> C("bv0"), t |-> [k |-> "map", h |-> FALSE, kt |-> T_String, vt |-> T_u8], w |-> [k |-> "map", h |-> FALSE, kt |-> T_String, vt |-> T_u8], px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE], [f |-> C("ccv0"), j |-> C("ccv0"), t |-> T_unit, w |-> T_unit, px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE], [f |-> C("d_1v0"), j |-> C("d_1v0"), t |-> T_Uni, w |-> T_Uni, px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE]>>],
      [n |-> C("Bb"), j |-> C("Bb"), k |-> "rec", fs |-> <<[f |-> C("av1"), j |-> C("av1"), t |-> T_u8, w |-> T_u8, px |-> "", o |-> FALSE, jm |-> <<"def", <<"int", C("0")>>>>, rm |-> <<"def", <<"int", C("0")>>>>, s |-> TRUE, sv |-> <<"int", C("0")>>, bv |-> <<"int", C("0")>>, nn |-> FALSE], [f |-> C("bv1"), j |-> C("bv1"), t |-> T_New, w |-> T_New, px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE], [f |-> C("ccv1"), j |-> C("e"), t |-> [k |-> "seq", t |-> T_String], w |-> [k |-> "seq", t |-> T_String], px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE], [f |-> C("d_1v1"), j |-> C("Yy"), t |-> T_Opts, w |-> T_Opts, px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE]>>],
      [n |-> C("C_"), j |-> C("C_"), k |-> "tup", fs |-> <<T_i64, T_dur, T_u8, T_dur>>],
      [n |-> C("D1"), j |-> C("D1"), k |-> "rec", fs |-> <<[f |-> C("av3"), j |-> C("av3"), t |-> T_bool, w |-> T_bool, px |-> "", o |-> FALSE, jm |-> <<"def", <<"bool", 1>>>>, rm |-> <<"def", <<"bool", 1>>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE], [f |-> C("bv3"), j |-> C("fn_"), t |-> T_i32, w |-> T_i32, px |-> "", o |-> FALSE, jm |-> <<"def", <<"int", C("0")>>>>, rm |-> <<"def", <<"int", C("0")>>>>, s |-> TRUE, sv |-> <<"int", C("0")>>, bv |-> <<"int", C("0")>>, nn |-> FALSE], [f |-> C("ccv3"), j |-> C("w9"), t |-> T_i32, w |-> T_i32, px |-> "", o |-> FALSE, jm |-> <<"def", <<"int", C("0")>>>>, rm |-> <<"def", <<"int", C("0")>>>>, s |-> TRUE, sv |-> <<"int", C("0")>>, bv |-> <<"int", C("0")>>, nn |-> FALSE], [f |-> C("d_1v3"), j |-> C("d_1v3"), t |-> T_String, w |-> T_String, px |-> "", o |-> FALSE, jm |-> <<"def", <<"str", <<>>>>>>, rm |-> <<"def", <<"str", <<>>>>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE]>>],
      [n |-> C("Ee"), j |-> C("Ee"), k |-> "tup", fs |-> <<[k |-> "opt", t |-> T_bool]>>]>>]
T_Ke16 == [k |-> "enum", vs |-> <<[n |-> C("A"), j |-> C("A"), k |-> "rec", fs |-> <<[f |-> C("av0"), j |-> C("a"), t |-> T_Uni, w |-> T_Uni, px |-> "", o |-> FALSE, jm |-> <<"def", <<"var", 1, <<>>>>>>, rm |-> <<"def", <<"var", 1, <<>>>>>>, s |-> TRUE, sv |-> <<"var", 1, <<>>>>, bv |-> <<"var", 1, <<>>>>, nn |-> FALSE], [f |-> C("bv0"), j |-> C("w9"), t |-> [k |-> "opt", t |-> T_Plain], w |-> [k |-> "opt", t |-> T_Plain], px |-> "", o |-> TRUE, jm |-> <<"def", <<"none">>>>, rm |-> <<"def", <<"none">>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE], [f |-> C("ccv0"), j |-> C("e"), t |-> [k |-> "opt", t |-> [k |-> "seq", t |-> T_u8]], w |-> [k |-> "opt", t |-> [k |-> "seq", t |-> T_u8]], px |-> "", o |-> TRUE, jm |-> <<"def", <<"none">>>>, rm |-> <<"def", <<"none">>>>, s |-> TRUE, sv |-> <<"none">>, bv |-> <<"none">>, nn |-> FALSE], [f |-> C("d_1v0"), j |-> C("d_1v0"), t |-> T_u8, w |-> T_u8, px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE]>>],
      [n |-> C("Bb"), j |-> C("C__"), k |-> "rec", fs |-> <<[f |-> C("av1"), j |-> C("fn_"), t |-> [k |-> "opt", t |-> T_Uni], w |-> [k |-> "opt", t |-> T_Uni], px |-> "", o |-> TRUE, jm |-> <<"def", <<"none">>>>, rm |-> <<"def", <<"none">>>>, s |-> TRUE, sv |-> <<"none">>, bv |-> <<"none">>, nn |-> FALSE], [f |-> C("bv1"), j |-> C("bv1"), t |-> T_unit, w |-> T_unit, px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE], [f |-> C("ccv1"), j |-> C("ccv1"), t |-> T_i32, w |-> T_i32, px |-> "", o |-> FALSE, jm |-> <<"def", <<"int", C("0")>>>>, rm |-> <<"def", <<"int", C("0")>>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE], [f |-> C("d_1v1"), j |-> C("z"), t |-> [k |-> "opt", t |-> T_String], w |-> [k |-> "opt", t |-> T_String], px |-> "", o |-> TRUE, jm |-> <<"def", <<"none">>>>, rm |-> <<"def", <<"none">>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE]>>],
      [n |-> C("C_"), j |-> <<233, 50>>, k |-> "tup", fs |-> <<T_Uni, T_i64, T_unit, [k |-> "tup", ts |-> <<T_u8, T_String>>]>>],
      [n |-> C("D1"), j |-> C("r3"), k |-> "rec", fs |-> <<[f |-> C("av3"), j |-> C("a"), t |-> T_String, w |-> T_String, px |-> "", o |-> FALSE, jm |-> <<"def", <<"str", <<>>>>>>, rm |-> <<"def", <<"str", <<>>>>>>, s |-> TRUE, sv |-> <<"str", <<>>>>, bv |-> <<"str", <<>>>>, nn |-> FALSE], [f |-> C("bv3"), j |-> C("bv3"), t |-> [k |-> "tup", ts |-> <<T_u8, T_String>>], w |-> [k |-> "tup", ts |-> <<T_u8, T_String>>], px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE], [f |-> C("ccv3"), j |-> C("e"), t |-> [k |-> "opt", t |-> T_u8], w |-> [k |-> "opt", t |-> T_u8], px |-> "", o |-> TRUE, jm |-> <<"def", <<"some", <<"int", C("3")>>>>>>, rm |-> <<"def", <<"some", <<"int", C("3")>>>>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE]>>]>>]
T_Ke17 == [k |-> "enum", vs |-> <<[n |-> C("A"), j |-> C("A"), k |-> "tup", fs |-> <<[k |-> "seq", t |-> T_u8]>>],
      [n |-> C("Bb"), j |-> C("Bb"), k |-> "rec", fs |-> <<[f |-> C("av1"), j |-> C("a"), t |-> T_dur, w |-> T_dur, px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE], [f |-> C("bv1"), j |-> C("bv1"), t |-> T_i64, w |-> T_i64, px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE], [f |-> C("ccv1"), j |-> C("Yy"), t |-> [k |-> "opt", t |-> [k |-> "tup", ts |-> <<T_u8, T_bool>>]], w |-> [k |-> "opt", t |-> [k |-> "tup", ts |-> <<T_u8, T_bool>>]], px |-> "", o |-> TRUE, jm |-> <<"def", <<"none">>>>, rm |-> <<"def", <<"none">>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE]>>],
      [n |-> C("C_"), j |-> C("C_"), k |-> "rec", fs |-> <<[f |-> C("av2"), j |-> C("a"), t |-> T_String, w |-> T_String, px |-> "", o |-> FALSE, jm |-> <<"def", <<"str", C("a b")>>>>, rm |-> <<"def", <<"str", C("a b")>>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE], [f |-> C("bv2"), j |-> C("bv2"), t |-> T_i32, w |-> T_i32, px |-> "", o |-> FALSE, jm |-> <<"def", <<"int", C("-7")>>>>, rm |-> <<"def", <<"int", C("-7")>>>>, s |-> TRUE, sv |-> <<"int", C("-7")>>, bv |-> <<"int", C("0")>>, nn |-> FALSE], [f |-> C("ccv2"), j |-> C("w9"), t |-> T_f64, w |-> T_f64, px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE]>>]>>]
T_Ke18__i == [k |-> "enum", vs |-> <<[n |-> C("A"), j |-> C("A"), k |-> "rec", fs |-> <<[f |-> C("av0"), j |-> C("av0"), t |-> [k |-> "opt", t |-> T_u8], w |-> [k |-> "opt", t |-> T_u8], px |-> "", o |-> TRUE, jm |-> <<"def", <<"none">>>>, rm |-> <<"def", <<"none">>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE], [f |-> C("bv0"), j |-> C("bv0"), t |-> T_i64, w |-> T_i64, px |-> "", o |-> FALSE, jm |-> <<"def", <<"int", C("0")>>>>, rm |-> <<"def", <<"int", C("0")>>>>, s |-> TRUE, sv |-> <<"int", C("0")>>, bv |-> <<"int", C("0")>>, nn |-> FALSE], [f |-> C("ccv0"), j |-> C("e"), t |-> T_unit, w |-> T_unit, px |-> "", o |-> FALSE, jm |-> <<"def", <<"unit">>>>, rm |-> <<"def", <<"unit">>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE]>>],
      [n |-> C("Bb"), j |-> C("Bb"), k |-> "rec", fs |-> <<[f |-> C("av1"), j |-> C("Yy"), t |-> T_u8, w |-> T_u8, px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE], [f |-> C("bv1"), j |-> C("bv1"), t |-> T_New, w |-> T_New, px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE], [f |-> C("ccv1"), j |-> C("ccv1"), t |-> [k |-> "opt", t |-> T_u8], w |-> [k |-> "opt", t |-> T_u8], px |-> "", o |-> TRUE, jm |-> <<"def", <<"none">>>>, rm |-> <<"def", <<"none">>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE], [f |-> C("d_1v1"), j |-> C("d_1v1"), t |-> T_f64, w |-> T_f64, px |-> "", o |-> FALSE, jm |-> <<"def", <<"flt", C("2.5")>>>>, rm |-> <<"def", <<"flt", C("2.5")>>>>, s |-> TRUE, sv |-> <<"flt", C("2.5")>>, bv |-> <<"flt", C("0.0")>>, nn |-> FALSE]>>],
      [n |-> C("C_"), j |-> C("C_"), k |-> "tup", fs |-> <<T_Uni, T_String, T_u8, T_New, [k |-> "tup", ts |-> <<T_u8, T_String>>], [k |-> "seq", t |-> T_u8]>>],
      [n |-> C("D1"), j |-> C("D1"), k |-> "tup", fs |-> <<[k |-> "seq", t |-> T_u8], T_f64, [k |-> "arr", n |-> 2, t |-> T_u8], T_u8, [k |-> "map", h |-> FALSE, kt |-> T_String, vt |-> T_u8]>>]>>]
T_Ke19__i == [k |-> "enum", vs |-> <<[n |-> C("A"), j |-> C("A"), k |-> "tup", fs |-> <<T_unit, [k |-> "map", h |-> FALSE, kt |-> T_String, vt |-> T_u8]>>],
      [n |-> C("Bb"), j |-> C("Bb"), k |-> "rec", fs |-> <<[f |-> C("av1"), j |-> C("a"), t |-> T_i32, w |-> T_i32, px |-> "", o |-> FALSE, jm |-> <<"def", <<"int", C("0")>>>>, rm |-> <<"def", <<"int", C("0")>>>>, s |-> TRUE, sv |-> <<"int", C("0")>>, bv |-> <<"int", C("0")>>, nn |-> FALSE], [f |-> C("bv1"), j |-> C("w9"), t |-> T_bool, w |-> T_bool, px |-> "", o |-> FALSE, jm |-> <<"def", <<"bool", 1>>>>, rm |-> <<"def", <<"bool", 1>>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE]>>],
      [n |-> C("C_"), j |-> C("C_"), k |-> "tup", fs |-> <<T_u8, T_unit, T_bool>>],
      [n |-> C("D1"), j |-> C("D1"), k |-> "tup", fs |-> <<T_Plain, [k |-> "seq", t |-> T_u8], T_i64, [k |-> "opt", t |-> [k |-> "tup", ts |-> <<T_u8, T_bool>>]]>>],
      [n |-> C("Ee"), j |-> C("Ee"), k |-> "rec", fs |-> <<[f |-> C("av4"), j |-> C("a"), t |-> [k |-> "tup", ts |-> <<T_u8, T_String>>], w |-> [k |-> "tup", ts |-> <<T_u8, T_String>>], px |-> "", o |-> FALSE, jm |-> <<"def", <<"tup", <<<<"int", C("0")>>, <<"str", <<>>>>>>>>>>, rm |-> <<"def", <<"tup", <<<<"int", C("0")>>, <<"str", <<>>>>>>>>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE], [f |-> C("bv4"), j |-> C("bv4"), t |-> [k |-> "seq", t |-> T_u8], w |-> [k |-> "seq", t |-> T_u8], px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE]>>]>>]
T_Ke20__i == [k |-> "enum", vs |-> <<[n |-> C("A"), j |-> C("A"), k |-> "rec", fs |-> <<[f |-> C("av0"), j |-> C("av0"), t |-> [k |-> "map", h |-> FALSE, kt |-> T_u8, vt |-> [k |-> "opt", t |-> T_String]], w |-> [k |-> "map", h |-> FALSE, kt |-> T_u8, vt |-> [k |-> "opt", t |-> T_String]], px |-> "", o |-> FALSE, jm |-> <<"def", <<"map", <<>>>>>>, rm |-> <<"def", <<"map", <<>>>>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE]>>],
      [n |-> C("Bb"), j |-> C("Bb"), k |-> "rec", fs |-> <<[f |-> C("av1"), j |-> C("w9"), t |-> [k |-> "seq", t |-> [k |-> "opt", t |-> T_bool]], w |-> [k |-> "seq", t |-> [k |-> "opt", t |-> T_bool]], px |-> "", o |-> FALSE, jm |-> <<"def", <<"seq", <<>>>>>>, rm |-> <<"def", <<"seq", <<>>>>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE], [f |-> C("bv1"), j |-> C("bv1"), t |-> [k |-> "opt", t |-> T_Uni], w |-> [k |-> "opt", t |-> T_Uni], px |-> "", o |-> TRUE, jm |-> <<"def", <<"none">>>>, rm |-> <<"def", <<"none">>>>, s |-> TRUE, sv |-> <<"none">>, bv |-> <<"none">>, nn |-> FALSE], [f |-> C("ccv1"), j |-> C("e"), t |-> [k |-> "seq", t |-> T_u8], w |-> [k |-> "seq", t |-> T_u8], px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE], [f |-> C("d_1v1"), j |-> C("d_1v1"), t |-> T_Opts, w |-> T_Opts, px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE]>>],
      [n |-> C("C_"), j |-> C("C_"), k |-> "rec", fs |-> <<[f |-> C("av2"), j |-> C("av2"), t |-> T_String, w |-> T_String, px |-> "", o |-> FALSE, jm |-> <<"def", <<"str", <<>>>>>>, rm |-> <<"def", <<"str", <<>>>>>>, s |-> TRUE, sv |-> <<"str", <<>>>>, bv |-> <<"str", <<>>>>, nn |-> FALSE], [f |-> C("bv2"), j |-> C("fn_"), t |-> T_i64, w |-> T_i64, px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE]>>],
      [n |-> C("D1"), j |-> C("D1"), k |-> "tup", fs |-> <<T_Uni, [k |-> "seq", t |-> T_u8]>>],
      [n |-> C("Ee"), j |-> C("Ee"), k |-> "rec", fs |-> <<[f |-> C("av4"), j |-> C("fn_"), t |-> [k |-> "tup", ts |-> <<T_u8, T_String>>], w |-> [k |-> "tup", ts |-> <<T_u8, T_String>>], px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE], [f |-> C("bv4"), j |-> C("bv4"), t |-> [k |-> "opt", t |-> T_u8], w |-> [k |-> "opt", t |-> T_u8], px |-> "", o |-> TRUE, jm |-> <<"def", <<"none">>>>, rm |-> <<"def", <<"none">>>>, s |-> TRUE, sv |-> <<"none">>, bv |-> <<"none">>, nn |-> FALSE]>>]>>]
T_Ke21__i == [k |-> "enum", vs |-> <<[n |-> C("A"), j |-> C("A"), k |-> "tup", fs |-> <<[k |-> "opt", t |-> T_bool], T_unit, [k |-> "opt", t |-> T_u8]>>],
      [n |-> C("Bb"), j |-> C("Bb"), k |-> "rec", fs |-> <<[f |-> C("av1"), j |-> C("av1"), t |-> [k |-> "tup", ts |-> <<T_u8, T_String>>], w |-> [k |-> "tup", ts |-> <<T_u8, T_String>>], px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE], [f |-> C("bv1"), j |-> C("w9"), t |-> [k |-> "tup", ts |-> <<T_u8, T_String>>], w |-> [k |-> "tup", ts |-> <<T_u8, T_String>>], px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE], [f |-> C("ccv1"), j |-> C("ax"), t |-> T_u8, w |-> T_u8, px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE]>>],
      [n |-> C("C_"), j |-> C("C_"), k |-> "tup", fs |-> <<[k |-> "arr", n |-> 2, t |-> T_u8], [k |-> "opt", t |-> [k |-> "tup", ts |-> <<T_u8, T_bool>>]], [k |-> "seq", t |-> T_u8], T_u8, T_Plain, [k |-> "opt", t |-> T_String]>>],
      [n |-> C("D1"), j |-> C("D1"), k |-> "rec", fs |-> <<[f |-> C("av3"), j |-> C("av3"), t |-> T_i64, w |-> T_i64, px |-> "", o |-> FALSE, jm |-> <<"def", <<"int", C("-9000000000")>>>>, rm |-> <<"def", <<"int", C("-9000000000")>>>>, s |-> TRUE, sv |-> <<"int", C("-9000000000")>>, bv |-> <<"int", C("0")>>, nn |-> FALSE], [f |-> C("bv3"), j |-> C("fn_"), t |-> [k |-> "set", h |-> FALSE, t |-> T_i32], w |-> [k |-> "set", h |-> FALSE, t |-> T_i32], px |-> "", o |-> FALSE, jm |-> <<"def", <<"seq", <<>>>>>>, rm |-> <<"def", <<"seq", <<>>>>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE], [f |-> C("ccv3"), j |-> C("ccv3"), t |-> [k |-> "set", h |-> FALSE, t |-> T_i32], w |-> [k |-> "set", h |-> FALSE, t |-> T_i32], px |-> "", o |-> FALSE, jm |-> <<"def", <<"seq", <<>>>>>>, rm |-> <<"def", <<"seq", <<>>>>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE], [f |-> C("d_1v3"), j |-> C("d_1v3"), t |-> [k |-> "arr", n |-> 2, t |-> T_u8], w |-> [k |-> "arr", n |-> 2, t |-> T_u8], px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE]>>]>>]
T_Ke22 == [k |-> "enum", vs |-> <<[n |-> C("A"), j |-> C("A"), k |-> "unit", fs |-> <<>>],
      [n |-> C("Bb"), j |-> C("Bb"), k |-> "rec", fs |-> <<[f |-> C("av1"), j |-> C("av1"), t |-> [k |-> "opt", t |-> T_u8], w |-> [k |-> "opt", t |-> T_u8], px |-> "", o |-> TRUE, jm |-> <<"def", <<"none">>>>, rm |-> <<"def", <<"none">>>>, s |-> TRUE, sv |-> <<"none">>, bv |-> <<"none">>, nn |-> FALSE], [f |-> C("bv1"), j |-> C("bv1"), t |-> T_String, w |-> T_String, px |-> "", o |-> FALSE, jm |-> <<"def", <<"str", <<>>>>>>, rm |-> <<"def", <<"str", <<>>>>>>, s |-> TRUE, sv |-> <<"str", <<>>>>, bv |-> <<"str", <<>>>>, nn |-> FALSE], [f |-> C("ccv1"), j |-> C("ccv1"), t |-> T_u8, w |-> T_u8, px |-> "", o |-> FALSE, jm |-> <<"def", <<"int", C("211")>>>>, rm |-> <<"def", <<"int", C("211")>>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE]>>],
      [n |-> C("C_"), j |-> C("C_"), k |-> "tup", fs |-> <<[k |-> "tup", ts |-> <<T_u8, T_String>>]>>],
      [n |-> C("D1"), j |-> C("D1"), k |-> "unit", fs |-> <<>>],
      [n |-> C("Ee"), j |-> C("A_"), k |-> "rec", fs |-> <<[f |-> C("av4"), j |-> C("av4"), t |-> T_New, w |-> T_New, px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE], [f |-> C("bv4"), j |-> C("bv4"), t |-> T_u8, w |-> T_u8, px |-> "", o |-> FALSE, jm |-> <<"def", <<"int", C("0")>>>>, rm |-> <<"def", <<"int", C("0")>>>>, s |-> TRUE, sv |-> <<"int", C("0")>>, bv |-> <<"int", C("0")>>, nn |-> FALSE], [f |-> C("ccv4"), j |-> C("w9"), t |-> [k |-> "seq", t |-> T_u8], w |-> [k |-> "seq", t |-> T_u8], px |-> "", o |-> FALSE, jm |-> <<"def", <<"seq", <<>>>>>>, rm |-> <<"def", <<"seq", <<>>>>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE], [f |-> C("d_1v4"), j |-> C("w9x"), t |-> [k |-> "seq", t |-> T_String], w |-> [k |-> "seq", t |-> T_String], px |-> "", o |-> FALSE, jm |-> <<"def", <<"seq", <<>>>>>>, rm |-> <<"def", <<"seq", <<>>>>>>, s |-> TRUE, sv |-> <<"seq", <<>>>>, bv |-> <<"seq", <<>>>>, nn |-> FALSE]>>]>>]
T_Ke23 == [k |-> "enum", vs |-> <<[n |-> C("A"), j |-> C("r0"), k |-> "unit", fs |-> <<>>],
      [n |-> C("Bb"), j |-> C("C__"), k |-> "tup", fs |-> <<[k |-> "opt", t |-> T_u8], T_bool>>],
      [n |-> C("C_"), j |-> <<233, 50>>, k |-> "rec", fs |-> <<[f |-> C("av2"), j |-> C("fn_"), t |-> [k |-> "opt", t |-> T_String], w |-> [k |-> "opt", t |-> T_String], px |-> "", o |-> TRUE, jm |-> <<"def", <<"none">>>>, rm |-> <<"def", <<"none">>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE], [f |-> C("bv2"), j |-> C("bv2"), t |-> [k |-> "opt", t |-> T_bool], w |-> [k |-> "opt", t |-> T_bool], px |-> "", o |-> TRUE, jm |-> <<"def", <<"some", <<"bool", 1>>>>>>, rm |-> <<"def", <<"some", <<"bool", 1>>>>>>, s |-> TRUE, sv |-> <<"some", <<"bool", 1>>>>, bv |-> <<"none">>, nn |-> FALSE], [f |-> C("ccv2"), j |-> C("ccv2"), t |-> [k |-> "opt", t |-> [k |-> "tup", ts |-> <<T_u8, T_bool>>]], w |-> [k |-> "opt", t |-> [k |-> "tup", ts |-> <<T_u8, T_bool>>]], px |-> "", o |-> TRUE, jm |-> <<"def", <<"none">>>>, rm |-> <<"def", <<"none">>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE], [f |-> C("d_1v2"), j |-> C("d_1v2"), t |-> T_Uni, w |-> T_Uni, px |-> "", o |-> FALSE, jm |-> <<"def", <<"var", 1, <<>>>>>>, rm |-> <<"def", <<"var", 1, <<>>>>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE]>>],
      [n |-> C("D1"), j |-> C("D1"), k |-> "rec", fs |-> <<[f |-> C("av3"), j |-> C("av3"), t |-> T_Opts, w |-> T_Opts, px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE]>>],
      [n |-> C("Ee"), j |-> C("A_"), k |-> "tup", fs |-> <<[k |-> "seq", t |-> T_u8], T_dur>>]>>]
T_Ke24__i == [k |-> "enum", vs |-> <<[n |-> C("A"), j |-> C("A"), k |-> "rec", fs |-> <<[f |-> C("av0"), j |-> C("a"), t |-> [k |-> "set", h |-> FALSE, t |-> T_i32], w |-> [k |-> "set", h |-> FALSE, t |-> T_i32], px |-> "", o |-> FALSE, jm |-> <<"def", <<"seq", <<>>>>>>, rm |-> <<"def", <<"seq", <<>>>>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE], [f |-> C("bv0"), j |-> C("fn_"), t |-> [k |-> "set", h |-> FALSE, t |-> T_i32], w |-> [k |-> "set", h |-> FALSE, t |-> T_i32], px |-> "", o |-> FALSE, jm |-> <<"def", <<"seq", <<>>>>>>, rm |-> <<"def", <<"seq", <<>>>>>>, s |-> TRUE, sv |-> <<"seq", <<>>>>, bv |-> <<"seq", <<>>>>, nn |-> FALSE], [f |-> C("ccv0"), j |-> C("ccv0"), t |-> T_u8, w |-> T_u8, px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE], [f |-> C("d_1v0"), j |-> C("d_1v0"), t |-> [k |-> "tup", ts |-> <<T_u8, T_String>>], w |-> [k |-> "tup", ts |-> <<T_u8, T_String>>], px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE]>>],
      [n |-> C("Bb"), j |-> C("Bb"), k |-> "rec", fs |-> <<[f |-> C("av1"), j |-> C("a"), t |-> [k |-> "arr", n |-> 2, t |-> T_u8], w |-> [k |-> "arr", n |-> 2, t |-> T_u8], px |-> "", o |-> FALSE, jm |-> <<"def", <<"seq", <<<<"int", C("0")>>, <<"int", C("0")>>>>>>>>, rm |-> <<"def", <<"seq", <<<<"int", C("0")>>, <<"int", C("0")>>>>>>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE], [f |-> C("bv1"), j |-> C("bv1"), t |-> T_String, w |-> T_String, px |-> "", o |-> FALSE, jm |-> <<"def", <<"str", <<>>>>>>, rm |-> <<"def", <<"str", <<>>>>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE], [f |-> C("ccv1"), j |-> C("ccv1"), t |-> [k |-> "seq", t |-> T_u8], w |-> [k |-> "seq", t |-> T_u8], px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE]>>],
      [n |-> C("C_"), j |-> C("C_"), k |-> "tup", fs |-> <<T_String, T_f64>>],
      [n |-> C("D1"), j |-> C("D1"), k |-> "tup", fs |-> <<T_dur>>],
      [n |-> C("Ee"), j |-> C("Ee"), k |-> "rec", fs |-> <<[f |-> C("av4"), j |-> C("av4"), t |-> T_f64, w |-> T_f64, px |-> "", o |-> FALSE, jm |-> <<"def", <<"flt", C("0.0")>>>>, rm |-> <<"def", <<"flt", C("0.0")>>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE], [f |-> C("bv4"), j |-> C("bv4"), t |-> [k |-> "tup", ts |-> <<T_u8, T_String>>], w |-> [k |-> "tup", ts |-> <<T_u8, T_String>>], px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE], [f |-> C("ccv4"), j |-> C("Yy"), t |-> [k |-> "opt", t |-> [k |-> "tup", ts |-> <<T_u8, T_bool>>]], w |-> [k |-> "opt", t |-> [k |-> "tup", ts |-> <<T_u8, T_bool>>]], px |-> "", o |-> TRUE, jm |-> <<"def", <<"none">>>>, rm |-> <<"def", <<"none">>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE], [f |-> C("d_1v4"), j |-> C("d_1v4"), t |-> [k |-> "arr", n |-> 2, t |-> T_u8], w |-> [k |-> "arr", n |-> 2, t |-> T_u8], px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE]>>]>>]
T_Ke25 == [k |-> "enum", vs |-> <<[n |-> C("A"), j |-> C("A"), k |-> "rec", fs |-> <<[f |-> C("av0"), j |-> C("av0"), t |-> [k |-> "opt", t |-> [k |-> "tup", ts |-> <<T_u8, T_bool>>]], w |-> [k |-> "opt", t |-> [k |-> "tup", ts |-> <<T_u8, T_bool>>]], px |-> "", o |-> TRUE, jm |-> <<"def", <<"none">>>>, rm |-> <<"def", <<"none">>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE], [f |-> C("bv0"), j |-> C("e"), t |-> T_Plain, w |-> T_Plain, px |-> "", o |-> FALSE, jm |-> <<"def", <<"rec", <<<<"int", C("0")>>, <<"str", <<>>>>, <<"int", C("0")>>>>>>>>, rm |-> <<"def", <<"rec", <<<<"int", C("0")>>, <<"str", <<>>>>, <<"int", C("0")>>>>>>>>, s |-> TRUE, sv |-> <<"rec", <<<<"int", C("0")>>, <<"str", <<>>>>, <<"int", C("0")>>>>>>, bv |-> <<"rec", <<<<"int", C("0")>>, <<"str", <<>>>>, <<"int", C("0")>>>>>>, nn |-> FALSE], [f |-> C("ccv0"), j |-> C("ccv0"), t |-> [k |-> "tup", ts |-> <<T_u8, T_String>>], w |-> [k |-> "tup", ts |-> <<T_u8, T_String>>], px |-> "", o |-> FALSE, jm |-> <<"def", <<"tup", <<<<"int", C("0")>>, <<"str", <<>>>>>>>>>>, rm |-> <<"def", <<"tup", <<<<"int", C("0")>>, <<"str", <<>>>>>>>>>>, s |-> TRUE, sv |-> <<"tup", <<<<"int", C("0")>>, <<"str", <<>>>>>>>>, bv |-> <<"tup", <<<<"int", C("0")>>, <<"str", <<>>>>>>>>, nn |-> FALSE]>>],
      [n |-> C("Bb"), j |-> C("Bb"), k |-> "tup", fs |-> <<[k |-> "seq", t |-> T_u8]>>],
      [n |-> C("C_"), j |-> C("C_"), k |-> "rec", fs |-> <<[f |-> C("av2"), j |-> C("fn_"), t |-> [k |-> "opt", t |-> T_Uni], w |-> [k |-> "opt", t |-> T_Uni], px |-> "", o |-> TRUE, jm |-> <<"def", <<"none">>>>, rm |-> <<"def", <<"none">>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE], [f |-> C("bv2"), j |-> C("bv2"), t |-> T_String, w |-> T_String, px |-> "", o |-> FALSE, jm |-> <<"def", <<"str", C("a b")>>>>, rm |-> <<"def", <<"str", C("a b")>>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE], [f |-> C("ccv2"), j |-> C("z"), t |-> [k |-> "arr", n |-> 2, t |-> [k |-> "opt", t |-> T_bool]], w |-> [k |-> "arr", n |-> 2, t |-> [k |-> "opt", t |-> T_bool]], px |-> "", o |-> FALSE, jm |-> <<"def", <<"seq", <<<<"none">>, <<"none">>>>>>>>, rm |-> <<"def", <<"seq", <<<<"none">>, <<"none">>>>>>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE], [f |-> C("d_1v2"), j |-> C("zx"), t |-> [k |-> "opt", t |-> T_bool], w |-> [k |-> "opt", t |-> T_bool], px |-> "", o |-> TRUE, jm |-> <<"def", <<"none">>>>, rm |-> <<"def", <<"none">>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE]>>],
      [n |-> C("D1"), j |-> C("D1"), k |-> "tup", fs |-> <<[k |-> "opt", t |-> T_bool], [k |-> "tup", ts |-> <<T_u8, T_String>>]>>]>>]
T_Ke26 == [k |-> "enum", vs |-> <<[n |-> C("A"), j |-> C("r0"), k |-> "tup", fs |-> <<[k |-> "map", h |-> FALSE, kt |-> T_String, vt |-> T_u8], [k |-> "arr", n |-> 2, t |-> T_u8], T_f64>>],
      [n |-> C("Bb"), j |-> C("Bb"), k |-> "tup", fs |-> <<T_unit, [k |-> "arr", n |-> 2, t |-> T_u8], T_String, T_String>>],
      [n |-> C("C_"), j |-> C("C_"), k |-> "unit", fs |-> <<>>],
      [n |-> C("D1"), j |-> C("r3"), k |-> "tup", fs |-> <<T_Uni, T_bool, [k |-> "seq", t |-> T_u8], T_dur, [k |-> "opt", t |-> [k |-> "tup", ts |-> <<T_u8, T_bool>>]], [k |-> "opt", t |-> T_bool]>>],
      [n |-> C("Ee"), j |-> C("Ee"), k |-> "rec", fs |-> <<[f |-> C("av4"), j |-> C("a"), t |-> T_String, w |-> T_String, px |-> "", o |-> FALSE, jm |-> <<"def", <<"str", <<>>>>>>, rm |-> <<"def", <<"str", <<>>>>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE], [f |-> C("bv4"), j |-> C("fn_"), t |-> T_New, w |-> T_New, px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE], [f |-> C("ccv4"), j |-> C("ccv4"), t |-> [k |-> "arr", n |-> 2, t |-> T_u8], w |-> [k |-> "arr", n |-> 2, t |-> T_u8], px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE], [f |-> C("d_1v4"), j |-> C("d_1v4"), t |-> T_Plain, w |-> T_Plain, px |-> "", o |-> FALSE, jm |-> <<"def", <<"rec", <<<<"int", C("0")>>, <<"str", <<>>>>, <<"int", C("0")>>>>>>>>, rm |-> <<"def", <<"rec", <<<<"int", C("0")>>, <<"str", <<>>>>, <<"int", C("0")>>>>>>>>, s |-> TRUE, sv |-> <<"rec", <<<<"int", C("0")>>, <<"str", <<>>>>, <<"int", C("0")>>>>>>, bv |-> <<"rec", <<<<"int", C("0")>>, <<"str", <<>>>>, <<"int", C("0")>>>>>>, nn |-> FALSE]>>]>>]
T_Ke27 == [k |-> "enum", vs |-> <<[n |-> C("A"), j |-> C("A"), k |-> "rec", fs |-> <<[f |-> C("av0"), j |-> C("av0"), t |-> T_Plain, w |-> T_Plain, px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE], [f |-> C("bv0"), j |-> C("w9"), t |-> [k |-> "opt", t |-> [k |-> "seq", t |-> T_u8]], w |-> [k |-> "opt", t |-> [k |-> "seq", t |-> T_u8]], px |-> "", o |-> TRUE, jm |-> <<"def", <<"none">>>>, rm |-> <<"def", <<"none">>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE], [f |-> C("ccv0"), j |-> C("ccv0"), t |-> [k |-> "opt", t |-> T_u8], w |-> [k |-> "opt", t |-> T_u8], px |-> "", o |-> TRUE, jm |-> <<"def", <<"none">>>>, rm |-> <<"def", <<"none">>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE], [f |-> C("d_1v0"), j |-> C("d_1v0"), t |-> T_u8, w |-> T_u8, px |-> "", o |-> FALSE, jm |-> <<"def", <<"int", C("0")>>>>, rm |-> <<"def", <<"int", C("0")>>>>, s |-> TRUE, sv |-> <<"int", C("0")>>, bv |-> <<"int", C("0")>>, nn |-> FALSE]>>],
      [n |-> C("Bb"), j |-> C("Bb"), k |-> "rec", fs |-> <<[f |-> C("av1"), j |-> C("fn_"), t |-> [k |-> "opt", t |-> [k |-> "seq", t |-> T_u8]], w |-> [k |-> "opt", t |-> [k |-> "seq", t |-> T_u8]], px |-> "", o |-> TRUE, jm |-> <<"def", <<"none">>>>, rm |-> <<"def", <<"none">>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE], [f |-> C("bv1"), j |-> C("e"), t |-> [k |-> "seq", t |-> [k |-> "opt", t |-> T_bool]], w |-> [k |-> "seq", t |-> [k |-> "opt", t |-> T_bool]], px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE], [f |-> C("ccv1"), j |-> C("Yy"), t |-> [k |-> "opt", t |-> T_u8], w |-> [k |-> "opt", t |-> T_u8], px |-> "", o |-> TRUE, jm |-> <<"def", <<"none">>>>, rm |-> <<"def", <<"none">>>>, s |-> TRUE, sv |-> <<"none">>, bv |-> <<"none">>, nn |-> FALSE], [f |-> C("d_1v1"), j |-> C("ex"), t |-> [k |-> "map", h |-> FALSE, kt |-> T_String, vt |-> T_u8], w |-> [k |-> "map", h |-> FALSE, kt |-> T_String, vt |-> T_u8], px |-> "", o |-> FALSE, jm |-> <<"def", <<"map", <<>>>>>>, rm |-> <<"def", <<"map", <<>>>>>>, s |-> TRUE, sv |-> <<"map", <<>>>>, bv |-> <<"map", <<>>>>, nn |-> FALSE]>>],
      [n |-> C("C_"), j |-> C("C_"), k |-> "rec", fs |-> <<[f |-> C("av2"), j |-> C("av2"), t |-> [k |-> "seq", t |-> T_String], w |-> [k |-> "seq", t |-> T_String], px |-> "", o |-> FALSE, jm |-> <<"def", <<"seq", <<>>>>>>, rm |-> <<"def", <<"seq", <<>>>>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE], [f |-> C("bv2"), j |-> C("bv2"), t |-> [k |-> "opt", t |-> T_Plain], w |-> [k |-> "opt", t |-> T_Plain], px |-> "", o |-> TRUE, jm |-> <<"def", <<"none">>>>, rm |-> <<"def", <<"none">>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE]>>],
      [n |-> C("D1"), j |-> C("D1"), k |-> "rec", fs |-> <<[f |-> C("av3"), j |-> C("av3"), t |-> T_String, w |-> T_String, px |-> "", o |-> FALSE, jm |-> <<"def", <<"str", C("dee")>>>>, rm |-> <<"def", <<"str", C("dee")>>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE], [f |-> C("bv3"), j |-> C("w9"), t |-> [k |-> "map", h |-> FALSE, kt |-> T_u8, vt |-> [k |-> "opt", t |-> T_String]], w |-> [k |-> "map", h |-> FALSE, kt |-> T_u8, vt |-> [k |-> "opt", t |-> T_String]], px |-> "", o |-> FALSE, jm |-> <<"def", <<"map", <<>>>>>>, rm |-> <<"def", <<"map", <<>>>>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE], [f |-> C("ccv3"), j |-> C("ccv3"), t |-> [k |-> "map", h |-> FALSE, kt |-> T_String, vt |-> T_u8], w |-> [k |-> "map", h |-> FALSE, kt |-> T_String, vt |-> T_u8], px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE], [f |-> C("d_1v3"), j |-> C("z"), t |-> [k |-> "opt", t |-> [k |-> "seq", t |-> T_u8]], w |-> [k |-> "opt", t |-> [k |-> "seq", t |-> T_u8]], px |-> "", o |-> TRUE, jm |-> <<"def", <<"none">>>>, rm |-> <<"def", <<"none">>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE]>>]>>]
T_Ke28 == [k |-> "enum", vs |-> <<[n |-> C("A"), j |-> C("r0"), k |-> "tup", fs |-> <<[k |-> "seq", t |-> [k |-> "opt", t |-> T_bool]]>>],
      [n |-> C("Bb"), j |-> C("Bb"), k |-> "unit", fs |-> <<>>],
      [n |-> C("C_"), j |-> C("C_"), k |-> "rec", fs |-> <<[f |-> C("av2"), j |-> C("av2"), t |-> T_String, w |-> T_String, px |-> "", o |-> FALSE, jm |-> <<"def", <<"str", C("dee")>>>>, rm |-> <<"def", <<"str", C("dee")>>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE], [f |-> C("bv2"), j |-> C("bv2"), t |-> T_i64, w |-> T_i64, px |-> "", o |-> FALSE, jm |-> <<"def", <<"int", C("-9000000000")>>>>, rm |-> <<"def", <<"int", C("-9000000000")>>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE], [f |-> C("ccv2"), j |-> C("ccv2"), t |-> [k |-> "opt", t |-> T_u8], w |-> [k |-> "opt", t |-> T_u8], px |-> "", o |-> TRUE, jm |-> <<"def", <<"none">>>>, rm |-> <<"def", <<"none">>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE], [f |-> C("d_1v2"), j |-> C("d_1v2"), t |-> [k |-> "arr", n |-> 2, t |-> [k |-> "opt", t |-> T_bool]], w |-> [k |-> "arr", n |-> 2, t |-> [k |-> "opt", t |-> T_bool]], px |-> "", o |-> FALSE, jm |-> <<"def", <<"seq", <<<<"none">>, <<"none">>>>>>>>, rm |-> <<"def", <<"seq", <<<<"none">>, <<"none">>>>>>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE]>>],
      [n |-> C("D1"), j |-> C("r3"), k |-> "unit", fs |-> <<>>],
      [n |-> C("Ee"), j |-> C("A_"), k |-> "tup", fs |-> <<[k |-> "opt", t |-> [k |-> "tup", ts |-> <<T_u8, T_bool>>]]>>]>>]
T_Ke29 == [k |-> "enum", vs |-> <<[n |-> C("A"), j |-> C("A"), k |-> "rec", fs |-> <<[f |-> C("av0"), j |-> C("w9"), t |-> T_Plain, w |-> T_Plain, px |-> "", o |-> FALSE, jm |-> <<"def", <<"rec", <<<<"int", C("0")>>, <<"str", <<>>>>, <<"int", C("0")>>>>>>>>, rm |-> <<"def", <<"rec", <<<<"int", C("0")>>, <<"str", <<>>>>, <<"int", C("0")>>>>>>>>, s |-> TRUE, sv |-> <<"rec", <<<<"int", C("0")>>, <<"str", <<>>>>, <<"int", C("0")>>>>>>, bv |-> <<"rec", <<<<"int", C("0")>>, <<"str", <<>>>>, <<"int", C("0")>>>>>>, nn |-> FALSE], [f |-> C("bv0"), j |-> C("bv0"), t |-> [k |-> "arr", n |-> 2, t |-> [k |-> "opt", t |-> T_bool]], w |-> [k |-> "arr", n |-> 2, t |-> [k |-> "opt", t |-> T_bool]], px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE], [f |-> C("ccv0"), j |-> C("w9x"), t |-> T_Uni, w |-> T_Uni, px |-> "", o |-> FALSE, jm |-> <<"def", <<"var", 1, <<>>>>>>, rm |-> <<"def", <<"var", 1, <<>>>>>>, s |-> TRUE, sv |-> <<"var", 1, <<>>>>, bv |-> <<"var", 1, <<>>>>, nn |-> FALSE], [f |-> C("d_1v0"), j |-> C("d_1v0"), t |-> [k |-> "seq", t |-> [k |-> "opt", t |-> T_bool]], w |-> [k |-> "seq", t |-> [k |-> "opt", t |-> T_bool]], px |-> "", o |-> FALSE, jm |-> <<"def", <<"seq", <<>>>>>>, rm |-> <<"def", <<"seq", <<>>>>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE]>>],
      [n |-> C("Bb"), j |-> C("Bb"), k |-> "unit", fs |-> <<>>],
      [n |-> C("C_"), j |-> C("C_"), k |-> "rec", fs |-> <<[f |-> C("av2"), j |-> C("w9"), t |-> T_Plain, w |-> T_Plain, px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE], [f |-> C("bv2"), j |-> C("fn_"), t |-> T_String, w |-> T_String, px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE], [f |-> C("ccv2"), j |-> C("z"), t |-> [k |-> "seq", t |-> [k |-> "opt", t |-> T_bool]], w |-> [k |-> "seq", t |-> [k |-> "opt", t |-> T_bool]], px |-> "", o |-> FALSE, jm |-> <<"def", <<"seq", <<>>>>>>, rm |-> <<"def", <<"seq", <<>>>>>>, s |-> TRUE, sv |-> <<"seq", <<>>>>, bv |-> <<"seq", <<>>>>, nn |-> FALSE], [f |-> C("d_1v2"), j |-> C("d_1v2"), t |-> T_unit, w |-> T_unit, px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE]>>],
      [n |-> C("D1"), j |-> C("D1"), k |-> "rec", fs |-> <<[f |-> C("av3"), j |-> C("fn_"), t |-> T_bool, w |-> T_bool, px |-> "", o |-> FALSE, jm |-> <<"def", <<"bool", 0>>>>, rm |-> <<"def", <<"bool", 0>>>>, s |-> TRUE, sv |-> <<"bool", 0>>, bv |-> <<"bool", 0>>, nn |-> FALSE], [f |-> C("bv3"), j |-> C("fn_x"), t |-> [k |-> "arr", n |-> 2, t |-> T_u8], w |-> [k |-> "arr", n |-> 2, t |-> T_u8], px |-> "", o |-> FALSE, jm |-> <<"def", <<"seq", <<<<"int", C("0")>>, <<"int", C("0")>>>>>>>>, rm |-> <<"def", <<"seq", <<<<"int", C("0")>>, <<"int", C("0")>>>>>>>>, s |-> TRUE, sv |-> <<"seq", <<<<"int", C("0")>>, <<"int", C("0")>>>>>>, bv |-> <<"seq", <<<<"int", C("0")>>, <<"int", C("0")>>>>>>, nn |-> FALSE], [f |-> C("ccv3"), j |-> C("e"), t |-> [k |-> "opt", t |-> T_String], w |-> [k |-> "opt", t |-> T_String], px |-> "", o |-> TRUE, jm |-> <<"def", <<"none">>>>, rm |-> <<"def", <<"none">>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE]>>],
      [n |-> C("Ee"), j |-> C("Ee"), k |-> "tup", fs |-> <<T_unit>>]>>]
T_Ke30 == [k |-> "enum", vs |-> <<[n |-> C("A"), j |-> C("A"), k |-> "rec", fs |-> <<[f |-> C("av0"), j |-> C("fn_"), t |-> T_bool, w |-> T_bool, px |-> "", o |-> FALSE, jm |-> <<"def", <<"bool", 0>>>>, rm |-> <<"def", <<"bool", 0>>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE], [f |-> C("bv0"), j |-> C("bv0"), t |-> T_Uni, w |-> T_Uni, px |-> "", o |-> FALSE, jm |-> <<"def", <<"var", 1, <<>>>>>>, rm |-> <<"def", <<"var", 1, <<>>>>>>, s |-> TRUE, sv |-> <<"var", 1, <<>>>>, bv |-> <<"var", 1, <<>>>>, nn |-> FALSE], [f |-> C("ccv0"), j |-> C("e"), t |-> [k |-> "opt", t |-> T_String], w |-> [k |-> "opt", t |-> T_String], px |-> "", o |-> TRUE, jm |-> <<"def", <<"none">>>>, rm |-> <<"def", <<"none">>>>, s |-> TRUE, sv |-> <<"none">>, bv |-> <<"none">>, nn |-> FALSE]>>]>>]
T_Ke31 == [k |-> "enum", vs |-> <<[n |-> C("A"), j |-> C("A"), k |-> "tup", fs |-> <<[k |-> "arr", n |-> 2, t |-> T_u8]>>],
      [n |-> C("Bb"), j |-> C("Bb"), k |-> "rec", fs |-> <<[f |-> C("av1"), j |-> C("a"), t |-> T_i32, w |-> T_i32, px |-> "", o |-> FALSE, jm |-> <<"def", <<"int", C("-7")>>>>, rm |-> <<"def", <<"int", C("-7")>>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE], [f |-> C("bv1"), j |-> C("bv1"), t |-> [k |-> "seq", t |-> T_String], w |-> [k |-> "seq", t |-> T_String], px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE]>>],
      [n |-> C("C_"), j |-> C("C_"), k |-> "rec", fs |-> <<[f |-> C("av2"), j |-> C("a"), t |-> [k |-> "map", h |-> FALSE, kt |-> T_String, vt |-> T_u8], w |-> [k |-> "map", h |-> FALSE, kt |-> T_String, vt |-> T_u8], px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE]>>],
      [n |-> C("D1"), j |-> C("D1"), k |-> "rec", fs |-> <<[f |-> C("av3"), j |-> C("av3"), t |-> T_String, w |-> T_String, px |-> "", o |-> FALSE, jm |-> <<"def", <<"str", C("a b")>>>>, rm |-> <<"def", <<"str", C("a b")>>>>, s |-> TRUE, sv |-> <<"str", C("a b")>>, bv |-> <<"str", <<>>>>, nn |-> FALSE]>>],
      [n |-> C("Ee"), j |-> C("Ee"), k |-> "rec", fs |-> <<[f |-> C("av4"), j |-> C("w9"), t |-> [k |-> "seq", t |-> [k |-> "opt", t |-> T_bool]], w |-> [k |-> "seq", t |-> [k |-> "opt", t |-> T_bool]], px |-> "", o |-> FALSE, jm |-> <<"def", <<"seq", <<>>>>>>, rm |-> <<"def", <<"seq", <<>>>>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE]>>]>>]
T_Ke32 == [k |-> "enum", vs |-> <<[n |-> C("A"), j |-> C("A"), k |-> "rec", fs |-> <<[f |-> C("av0"), j |-> C("fn_"), t |-> [k |-> "opt", t |-> T_u8], w |-> [k |-> "opt", t |-> T_u8], px |-> "", o |-> TRUE, jm |-> <<"def", <<"none">>>>, rm |-> <<"def", <<"none">>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE], [f |-> C("bv0"), j |-> C("bv0"), t |-> T_bool, w |-> T_bool, px |-> "", o |-> FALSE, jm |-> <<"def", <<"bool", 1>>>>, rm |-> <<"def", <<"bool", 1>>>>, s |-> TRUE, sv |-> <<"bool", 1>>, bv |-> <<"bool", 0>>, nn |-> FALSE]>>],
      [n |-> C("Bb"), j |-> C("Bb"), k |-> "rec", fs |-> <<[f |-> C("av1"), j |-> C("av1"), t |-> T_i32, w |-> T_i32, px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE]>>],
      [n |-> C("C_"), j |-> C("C_"), k |-> "rec", fs |-> <<[f |-> C("av2"), j |-> C("a"), t |-> T_String, w |-> T_String, px |-> "", o |-> FALSE, jm |-> <<"def", <<"str", <<>>>>>>, rm |-> <<"def", <<"str", <<>>>>>>, s |-> TRUE, sv |-> <<"str", <<>>>>, bv |-> <<"str", <<>>>>, nn |-> FALSE], [f |-> C("bv2"), j |-> C("w9"), t |-> [k |-> "opt", t |-> [k |-> "seq", t |-> T_u8]], w |-> [k |-> "opt", t |-> [k |-> "seq", t |-> T_u8]], px |-> "", o |-> TRUE, jm |-> <<"def", <<"none">>>>, rm |-> <<"def", <<"none">>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE], [f |-> C("ccv2"), j |-> C("w9x"), t |-> T_i64, w |-> T_i64, px |-> "", o |-> FALSE, jm |-> <<"def", <<"int", C("-9000000000")>>>>, rm |-> <<"def", <<"int", C("-9000000000")>>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE]>>],
      [n |-> C("D1"), j |-> C("D1"), k |-> "unit", fs |-> <<>>],
      [n |-> C("Ee"), j |-> C("Ee"), k |-> "rec", fs |-> <<[f |-> C("av4"), j |-> C("av4"), t |-> [k |-> "arr", n |-> 2, t |-> [k |-> "opt", t |-> T_bool]], w |-> [k |-> "arr", n |-> 2, t |-> [k |-> "opt", t |-> T_bool]], px |-> "", o |-> FALSE, jm |-> <<"def", <<"seq", <<<<"none">>, <<"none">>>>>>>>, rm |-> <<"def", <<"seq", <<<<"none">>, <<"none">>>>>>>>, s |-> TRUE, sv |-> <<"seq", <<<<"none">>, <<"none">>>>>>, bv |-> <<"seq", <<<<"none">>, <<"none">>>>>>, nn |-> FALSE], [f |-> C("bv4"), j |-> C("e"), t |-> T_Plain, w |-> T_Plain, px |-> "", o |-> FALSE, jm |-> <<"def", <<"rec", <<<<"int", C("0")>>, <<"str", <<>>>>, <<"int", C("0")>>>>>>>>, rm |-> <<"def", <<"rec", <<<<"int", C("0")>>, <<"str", <<>>>>, <<"int", C("0")>>>>>>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE], [f |-> C("ccv4"), j |-> C("ex"), t |-> [k |-> "opt", t |-> T_bool], w |-> [k |-> "opt", t |-> T_bool], px |-> "", o |-> TRUE, jm |-> <<"def", <<"none">>>>, rm |-> <<"def", <<"none">>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE], [f |-> C("d_1v4"), j |-> C("exx"), t |-> T_i32, w |-> T_i32, px |-> "", o |-> FALSE, jm |-> <<"def", <<"int", C("0")>>>>, rm |-> <<"def", <<"int", C("0")>>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE]>>]>>]
T_Ke33 == [k |-> "enum", vs |-> <<[n |-> C("A"), j |-> C("A"), k |-> "tup", fs |-> <<T_unit, [k |-> "opt", t |-> T_String]>>],
      [n |-> C("Bb"), j |-> C("Bb"), k |-> "rec", fs |-> <<[f |-> C("av1"), j |-> C("fn_"), t |-> [k |-> "opt", t |-> T_String], w |-> [k |-> "opt", t |-> T_String], px |-> "", o |-> TRUE, jm |-> <<"def", <<"none">>>>, rm |-> <<"def", <<"none">>>>, s |-> TRUE, sv |-> <<"none">>, bv |-> <<"none">>, nn |-> FALSE], [f |-> C("bv1"), j |-> C("bv1"), t |-> T_Uni, w |-> T_Uni, px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE]>>],
      [n |-> C("C_"), j |-> C("C_"), k |-> "unit", fs |-> <<>>],
      [n |-> C("D1"), j |-> C("D1"), k |-> "rec", fs |-> <<[f |-> C("av3"), j |-> C("fn_"), t |-> [k |-> "opt", t |-> T_String], w |-> [k |-> "opt", t |-> T_String], px |-> "", o |-> TRUE, jm |-> <<"def", <<"none">>>>, rm |-> <<"def", <<"none">>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE], [f |-> C("bv3"), j |-> C("bv3"), t |-> T_i32, w |-> T_i32, px |-> "", o |-> FALSE, jm |-> <<"def", <<"int", C("-7")>>>>, rm |-> <<"def", <<"int", C("-7")>>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE]>>],
      [n |-> C("Ee"), j |-> C("Ee"), k |-> "tup", fs |-> <<T_String>>]>>]
T_Ke34__i == [k |-> "enum", vs |-> <<[n |-> C("A"), j |-> C("A"), k |-> "tup", fs |-> <<T_dur, [k |-> "opt", t |-> T_u8], [k |-> "opt", t |-> [k |-> "tup", ts |-> <<T_u8, T_bool>>]]>>],
      [n |-> C("Bb"), j |-> C("Bb"), k |-> "rec", fs |-> <<[f |-> C("av1"), j |-> C("av1"), t |-> [k |-> "opt", t |-> T_u8], w |-> [k |-> "opt", t |-> T_u8], px |-> "", o |-> TRUE, jm |-> <<"def", <<"none">>>>, rm |-> <<"def", <<"none">>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE], [f |-> C("bv1"), j |-> C("w9"), t |-> [k |-> "opt", t |-> [k |-> "seq", t |-> T_u8]], w |-> [k |-> "opt", t |-> [k |-> "seq", t |-> T_u8]], px |-> "", o |-> TRUE, jm |-> <<"def", <<"none">>>>, rm |-> <<"def", <<"none">>>>, s |-> TRUE, sv |-> <<"none">>, bv |-> <<"none">>, nn |-> FALSE], [f |-> C("ccv1"), j |-> C("e"), t |-> [k |-> "tup", ts |-> <<T_u8, T_String>>], w |-> [k |-> "tup", ts |-> <<T_u8, T_String>>], px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE], [f |-> C("d_1v1"), j |-> C("z"), t |-> [k |-> "opt", t |-> T_Uni], w |-> [k |-> "opt", t |-> T_Uni], px |-> "", o |-> TRUE, jm |-> <<"def", <<"none">>>>, rm |-> <<"def", <<"none">>>>, s |-> TRUE, sv |-> <<"none">>, bv |-> <<"none">>, nn |-> FALSE]>>],
      [n |-> C("C_"), j |-> C("C_"), k |-> "tup", fs |-> <<[k |-> "tup", ts |-> <<T_u8, T_String>>], T_bool, T_u8, [k |-> "tup", ts |-> <<T_u8, T_String>>]>>],
      [n |-> C("D1"), j |-> C("D1"), k |-> "tup", fs |-> <<T_f64, [k |-> "map", h |-> FALSE, kt |-> T_String, vt |-> T_u8], T_i64, [k |-> "seq", t |-> [k |-> "opt", t |-> T_bool]], [k |-> "map", h |-> FALSE, kt |-> T_String, vt |-> T_u8], [k |-> "seq", t |-> T_u8]>>]>>]
T_Ke35 == [k |-> "enum", vs |-> <<[n |-> C("A"), j |-> C("r0"), k |-> "tup", fs |-> <<[k |-> "arr", n |-> 2, t |-> T_u8], T_String>>],
      [n |-> C("Bb"), j |-> C("C__"), k |-> "rec", fs |-> <<[f |-> C("av1"), j |-> C("b2"), t |-> [k |-> "seq", t |-> T_String], w |-> [k |-> "seq", t |-> T_String], px |-> "", o |-> FALSE, jm |-> <<"def", <<"seq", <<>>>>>>, rm |-> <<"def", <<"seq", <<>>>>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE], [f |-> C("bv1"), j |-> C("bv1"), t |-> [k |-> "seq", t |-> T_u8], w |-> [k |-> "seq", t |-> T_u8], px |-> "", o |-> FALSE, jm |-> <<"def", <<"seq", <<>>>>>>, rm |-> <<"def", <<"seq", <<>>>>>>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE], [f |-> C("ccv1"), j |-> C("z"), t |-> [k |-> "arr", n |-> 2, t |-> [k |-> "opt", t |-> T_bool]], w |-> [k |-> "arr", n |-> 2, t |-> [k |-> "opt", t |-> T_bool]], px |-> "", o |-> FALSE, jm |-> <<"req">>, rm |-> <<"req">>, s |-> FALSE, sv |-> <<>>, bv |-> <<>>, nn |-> FALSE], [f |-> C("d_1v1"), j |-> C("zx"), t |-> T_unit, w |-> T_unit, px |-> "", o |-> FALSE, jm |-> <<"def", <<"unit">>>>, rm |-> <<"def", <<"unit">>>>, s |-> TRUE, sv |-> <<"unit">>, bv |-> <<"unit">>, nn |-> FALSE]>>],
      [n |-> C("C_"), j |-> <<233, 50>>, k |-> "tup", fs |-> <<T_unit, T_Plain, T_Uni>>]>>]
T_Kt0__i == [k |-> "tstruct", tr |-> FALSE, ts |-> <<T_New, [k |-> "map", h |-> FALSE, kt |-> T_String, vt |-> T_u8], T_unit, T_u8, [k |-> "arr", n |-> 2, t |-> T_u8], T_String, [k |-> "opt", t |-> T_bool]>>, ws |-> <<T_New, [k |-> "map", h |-> FALSE, kt |-> T_String, vt |-> T_u8], T_unit, T_u8, [k |-> "arr", n |-> 2, t |-> T_u8], T_String, [k |-> "opt", t |-> T_bool]>>, px |-> <<"", "", "", "", "", "", "">>]
T_Kt1 == [k |-> "tstruct", tr |-> FALSE, ts |-> <<[k |-> "map", h |-> FALSE, kt |-> T_String, vt |-> T_u8], [k |-> "opt", t |-> T_String], T_i64, T_New, T_dur, T_String, [k |-> "opt", t |-> T_u8]>>, ws |-> <<[k |-> "map", h |-> FALSE, kt |-> T_String, vt |-> T_u8], [k |-> "opt", t |-> T_String], T_i64, T_New, T_dur, T_WrapP, [k |-> "opt", t |-> T_u8]>>, px |-> <<"", "", "", "", "", "wrap", "">>]
T_Kt2__i == [k |-> "tstruct", tr |-> FALSE, ts |-> <<T_String, [k |-> "opt", t |-> [k |-> "tup", ts |-> <<T_u8, T_bool>>]], [k |-> "seq", t |-> T_u8], [k |-> "seq", t |-> [k |-> "opt", t |-> T_bool]], [k |-> "seq", t |-> T_u8], T_u8>>, ws |-> <<T_String, [k |-> "opt", t |-> [k |-> "tup", ts |-> <<T_u8, T_bool>>]], [k |-> "seq", t |-> T_u8], [k |-> "seq", t |-> [k |-> "opt", t |-> T_bool]], [k |-> "seq", t |-> T_u8], T_u8>>, px |-> <<"", "", "", "", "", "">>]
T_Kt3 == [k |-> "tstruct", tr |-> FALSE, ts |-> <<T_String, T_Uni, T_u8, T_u16, T_String, [k |-> "opt", t |-> T_String], [k |-> "seq", t |-> [k |-> "opt", t |-> T_bool]]>>, ws |-> <<T_String, T_Uni, T_u8, T_i32, T_String, [k |-> "opt", t |-> T_String], [k |-> "seq", t |-> [k |-> "opt", t |-> T_bool]]>>, px |-> <<"", "", "", "scale", "", "", "">>]
T_Kt4 == [k |-> "tstruct", tr |-> FALSE, ts |-> <<[k |-> "opt", t |-> T_u8], T_String, T_Plain, T_bool, T_f64>>, ws |-> <<[k |-> "opt", t |-> T_u8], T_String, T_Plain, T_bool, T_f64>>, px |-> <<"", "", "", "", "">>]
T_Kt5 == [k |-> "tstruct", tr |-> FALSE, ts |-> <<[k |-> "seq", t |-> [k |-> "opt", t |-> T_bool]], T_String, [k |-> "opt", t |-> T_bool], T_New, T_u16, T_String>>, ws |-> <<[k |-> "seq", t |-> [k |-> "opt", t |-> T_bool]], T_String, [k |-> "opt", t |-> T_bool], T_New, T_i32, T_String>>, px |-> <<"", "", "", "", "scale", "">>]
T_Kt6__i == [k |-> "tstruct", tr |-> FALSE, ts |-> <<T_u8, T_dur, T_i64, [k |-> "opt", t |-> T_u8], [k |-> "opt", t |-> T_u8], T_String>>, ws |-> <<T_u8, T_dur, T_i64, [k |-> "opt", t |-> T_u8], [k |-> "opt", t |-> T_u8], T_WrapP>>, px |-> <<"", "", "", "", "", "wrap">>]
T_Kt7__i == [k |-> "tstruct", tr |-> FALSE, ts |-> <<T_String, T_f64, T_u16, [k |-> "seq", t |-> [k |-> "opt", t |-> T_bool]], T_u8>>, ws |-> <<T_String, T_f64, T_i32, [k |-> "seq", t |-> [k |-> "opt", t |-> T_bool]], T_u8>>, px |-> <<"", "", "scale", "", "">>]
T_Kt8 == [k |-> "tstruct", tr |-> FALSE, ts |-> <<T_unit, T_u8, [k |-> "map", h |-> FALSE, kt |-> T_String, vt |-> T_u8], [k |-> "arr", n |-> 2, t |-> T_u8]>>, ws |-> <<T_unit, T_u8, [k |-> "map", h |-> FALSE, kt |-> T_String, vt |-> T_u8], [k |-> "arr", n |-> 2, t |-> T_u8]>>, px |-> <<"", "", "", "">>]
T_Kt9__i == [k |-> "tstruct", tr |-> FALSE, ts |-> <<T_u8, T_u16, [k |-> "opt", t |-> T_String]>>, ws |-> <<T_u8, T_i32, [k |-> "opt", t |-> T_String]>>, px |-> <<"", "scale", "">>]
T_Kt10__i == [k |-> "tstruct", tr |-> FALSE, ts |-> <<T_Plain, T_u8, T_bool, T_String, [k |-> "opt", t |-> [k |-> "tup", ts |-> <<T_u8, T_bool>>]], [k |-> "tup", ts |-> <<T_u8, T_String>>], T_i64>>, ws |-> <<T_Plain, T_u8, T_bool, T_String, [k |-> "opt", t |-> [k |-> "tup", ts |-> <<T_u8, T_bool>>]], [k |-> "tup", ts |-> <<T_u8, T_String>>], T_i64>>, px |-> <<"", "", "", "", "", "", "">>]
T_Kt11__i == [k |-> "tstruct", tr |-> FALSE, ts |-> <<T_u16, [k |-> "opt", t |-> T_u8], [k |-> "opt", t |-> T_u8], T_f64, [k |-> "opt", t |-> T_bool], T_Uni, [k |-> "opt", t |-> T_u8]>>, ws |-> <<T_i32, [k |-> "opt", t |-> T_u8], [k |-> "opt", t |-> T_u8], T_f64, [k |-> "opt", t |-> T_bool], T_Uni, [k |-> "opt", t |-> T_u8]>>, px |-> <<"scale", "", "", "", "", "", "">>]
T_Kt12 == [k |-> "tstruct", tr |-> FALSE, ts |-> <<T_u8, [k |-> "tup", ts |-> <<T_u8, T_String>>], [k |-> "map", h |-> FALSE, kt |-> T_String, vt |-> T_u8]>>, ws |-> <<T_u8, [k |-> "tup", ts |-> <<T_u8, T_String>>], [k |-> "map", h |-> FALSE, kt |-> T_String, vt |-> T_u8]>>, px |-> <<"", "", "">>]
T_Kt13__i == [k |-> "tstruct", tr |-> FALSE, ts |-> <<T_bool, [k |-> "seq", t |-> T_u8], T_New, T_u16>>, ws |-> <<T_bool, [k |-> "seq", t |-> T_u8], T_New, T_i32>>, px |-> <<"", "", "", "scale">>]
T_Kt14 == [k |-> "tstruct", tr |-> FALSE, ts |-> <<[k |-> "opt", t |-> [k |-> "tup", ts |-> <<T_u8, T_bool>>]], T_u16, T_dur, T_New>>, ws |-> <<[k |-> "opt", t |-> [k |-> "tup", ts |-> <<T_u8, T_bool>>]], T_i32, T_dur, T_New>>, px |-> <<"", "scale", "", "">>]
T_Kt15 == [k |-> "tstruct", tr |-> FALSE, ts |-> <<T_String, [k |-> "arr", n |-> 2, t |-> T_u8]>>, ws |-> <<T_WrapP, [k |-> "arr", n |-> 2, t |-> T_u8]>>, px |-> <<"wrap", "">>]
T_Kt16__i == [k |-> "tstruct", tr |-> FALSE, ts |-> <<[k |-> "opt", t |-> T_u8], T_u8>>, ws |-> <<[k |-> "opt", t |-> T_u8], T_u8>>, px |-> <<"", "">>]
T_Kt17__i == [k |-> "tstruct", tr |-> FALSE, ts |-> <<T_u16, T_String, [k |-> "seq", t |-> T_u8]>>, ws |-> <<T_i32, T_String, [k |-> "seq", t |-> T_u8]>>, px |-> <<"scale", "", "">>]
T_Kt18__i == [k |-> "tstruct", tr |-> FALSE, ts |-> <<T_dur, T_i64, [k |-> "map", h |-> FALSE, kt |-> T_String, vt |-> T_u8], T_String, [k |-> "seq", t |-> T_u8], [k |-> "seq", t |-> T_u8], [k |-> "opt", t |-> T_u8]>>, ws |-> <<T_dur, T_i64, [k |-> "map", h |-> FALSE, kt |-> T_String, vt |-> T_u8], T_WrapP, [k |-> "seq", t |-> T_u8], [k |-> "seq", t |-> T_u8], [k |-> "opt", t |-> T_u8]>>, px |-> <<"", "", "", "wrap", "", "", "">>]
T_Kt19__i == [k |-> "tstruct", tr |-> FALSE, ts |-> <<[k |-> "seq", t |-> T_u8], [k |-> "opt", t |-> T_u8], [k |-> "opt", t |-> T_bool]>>, ws |-> <<[k |-> "seq", t |-> T_u8], [k |-> "opt", t |-> T_u8], [k |-> "opt", t |-> T_bool]>>, px |-> <<"", "", "">>]
T_Kt20__i == [k |-> "tstruct", tr |-> FALSE, ts |-> <<[k |-> "opt", t |-> T_u8], [k |-> "seq", t |-> T_u8], T_String, [k |-> "opt", t |-> T_String], T_String>>, ws |-> <<[k |-> "opt", t |-> T_u8], [k |-> "seq", t |-> T_u8], T_String, [k |-> "opt", t |-> T_String], T_WrapP>>, px |-> <<"", "", "", "", "wrap">>]
T_Kt21__i == [k |-> "tstruct", tr |-> FALSE, ts |-> <<[k |-> "arr", n |-> 2, t |-> T_u8], [k |-> "opt", t |-> T_u8], T_unit, [k |-> "opt", t |-> T_u8], [k |-> "map", h |-> FALSE, kt |-> T_String, vt |-> T_u8], [k |-> "seq", t |-> [k |-> "opt", t |-> T_bool]], T_u16>>, ws |-> <<[k |-> "arr", n |-> 2, t |-> T_u8], [k |-> "opt", t |-> T_u8], T_unit, [k |-> "opt", t |-> T_u8], [k |-> "map", h |-> FALSE, kt |-> T_String, vt |-> T_u8], [k |-> "seq", t |-> [k |-> "opt", t |-> T_bool]], T_i32>>, px |-> <<"", "", "", "", "", "", "scale">>]
T_Kt22__i == [k |-> "tstruct", tr |-> FALSE, ts |-> <<T_u8, [k |-> "seq", t |-> T_u8], T_u8, [k |-> "opt", t |-> T_u8], [k |-> "seq", t |-> T_u8]>>, ws |-> <<T_u8, [k |-> "seq", t |-> T_u8], T_u8, [k |-> "opt", t |-> T_u8], [k |-> "seq", t |-> T_u8]>>, px |-> <<"", "", "", "", "">>]
T_Kt23 == [k |-> "tstruct", tr |-> FALSE, ts |-> <<T_Plain, T_String, [k |-> "seq", t |-> [k |-> "opt", t |-> T_bool]]>>, ws |-> <<T_Plain, T_WrapP, [k |-> "seq", t |-> [k |-> "opt", t |-> T_bool]]>>, px |-> <<"", "wrap", "">>]
T_Kt24__i == [k |-> "tstruct", tr |-> FALSE, ts |-> <<T_String, T_u8, [k |-> "map", h |-> FALSE, kt |-> T_String, vt |-> T_u8]>>, ws |-> <<T_String, T_u8, [k |-> "map", h |-> FALSE, kt |-> T_String, vt |-> T_u8]>>, px |-> <<"", "", "">>]
T_Kt25 == [k |-> "tstruct", tr |-> FALSE, ts |-> <<T_u16, T_String>>, ws |-> <<T_i32, T_String>>, px |-> <<"scale", "">>]
T_Kt26 == [k |-> "tstruct", tr |-> FALSE, ts |-> <<T_u16, [k |-> "seq", t |-> T_u8], [k |-> "arr", n |-> 2, t |-> T_u8], T_Uni, [k |-> "opt", t |-> T_String]>>, ws |-> <<T_i32, [k |-> "seq", t |-> T_u8], [k |-> "arr", n |-> 2, t |-> T_u8], T_Uni, [k |-> "opt", t |-> T_String]>>, px |-> <<"scale", "", "", "", "">>]
T_Kt27__i == [k |-> "tstruct", tr |-> FALSE, ts |-> <<[k |-> "seq", t |-> T_u8], [k |-> "opt", t |-> T_u8], T_u16, T_Uni, T_String, [k |-> "opt", t |-> T_u8], [k |-> "opt", t |-> T_u8]>>, ws |-> <<[k |-> "seq", t |-> T_u8], [k |-> "opt", t |-> T_u8], T_i32, T_Uni, T_String, [k |-> "opt", t |-> T_u8], [k |-> "opt", t |-> T_u8]>>, px |-> <<"", "", "scale", "", "", "", "">>]

RefT(n) == CASE n = "Tree" -> T_Tree [] n = "Chain" -> T_Chain [] n = "Deep" -> T_Deep

\* n: Rust name, t: type, f: formats, g: tags
Roots == <<
  [n |-> "u8", t |-> T_u8, f |-> {"b", "j", "r"}, g |-> {"int", "prim"}],
  [n |-> "u16", t |-> T_u16, f |-> {"b", "j", "r"}, g |-> {"int", "prim"}],
  [n |-> "u32", t |-> T_u32, f |-> {"b", "j", "r"}, g |-> {"int", "prim"}],
  [n |-> "u64", t |-> T_u64, f |-> {"b", "j", "r"}, g |-> {"int", "prim"}],
  [n |-> "usize", t |-> T_usize, f |-> {"b", "j", "r"}, g |-> {"int", "prim"}],
  [n |-> "i8", t |-> T_i8, f |-> {"b", "j", "r"}, g |-> {"int", "prim"}],
  [n |-> "i16", t |-> T_i16, f |-> {"b", "j", "r"}, g |-> {"int", "prim"}],
  [n |-> "i32", t |-> T_i32, f |-> {"b", "j", "r"}, g |-> {"int", "prim"}],
  [n |-> "i64", t |-> T_i64, f |-> {"b", "j", "r"}, g |-> {"int", "prim"}],
  [n |-> "u128", t |-> T_u128, f |-> {"b"}, g |-> {"int", "prim"}],
  [n |-> "i128", t |-> T_i128, f |-> {"b"}, g |-> {"int", "prim"}],
  [n |-> "f32", t |-> T_f32, f |-> {"b", "j", "r"}, g |-> {"flt", "prim"}],
  [n |-> "f64", t |-> T_f64, f |-> {"b", "j", "r"}, g |-> {"flt", "prim"}],
  [n |-> "bool", t |-> T_bool, f |-> {"b", "j", "r"}, g |-> {"prim"}],
  [n |-> "String", t |-> T_String, f |-> {"b", "j", "r"}, g |-> {"prim", "str"}],
  [n |-> "()", t |-> T_unit, f |-> {"b", "j", "r"}, g |-> {"prim"}],
  [n |-> "Duration", t |-> T_dur, f |-> {"b", "j", "r"}, g |-> {"time"}],
  [n |-> "SystemTime", t |-> T_sys, f |-> {"b", "j", "r"}, g |-> {"std", "time"}],
  [n |-> "Option<u8>", t |-> [k |-> "opt", t |-> T_u8], f |-> {"b", "j", "r"}, g |-> {"coll", "opt"}],
  [n |-> "Option<String>", t |-> [k |-> "opt", t |-> T_String], f |-> {"b", "j", "r"}, g |-> {"coll", "opt"}],
  [n |-> "Option<Vec<u8>>", t |-> [k |-> "opt", t |-> [k |-> "seq", t |-> T_u8]], f |-> {"b", "j", "r"}, g |-> {"coll", "opt"}],
  [n |-> "Vec<Option<u8>>", t |-> [k |-> "seq", t |-> [k |-> "opt", t |-> T_u8]], f |-> {"b", "j", "r"}, g |-> {"coll", "opt"}],
  [n |-> "Vec<Option<String>>", t |-> [k |-> "seq", t |-> [k |-> "opt", t |-> T_String]], f |-> {"b", "j", "r"}, g |-> {"coll", "opt"}],
  [n |-> "Option<(u8, String)>", t |-> [k |-> "opt", t |-> [k |-> "tup", ts |-> <<T_u8, T_String>>]], f |-> {"b", "j", "r"}, g |-> {"coll", "opt"}],
  [n |-> "Option<bool>", t |-> [k |-> "opt", t |-> T_bool], f |-> {"b", "j", "r"}, g |-> {"coll", "opt"}],
  [n |-> "Vec<u8>", t |-> [k |-> "seq", t |-> T_u8], f |-> {"b", "j", "r"}, g |-> {"coll"}],
  [n |-> "Vec<String>", t |-> [k |-> "seq", t |-> T_String], f |-> {"b", "j", "r"}, g |-> {"coll"}],
  [n |-> "Vec<i64>", t |-> [k |-> "seq", t |-> T_i64], f |-> {"b", "j", "r"}, g |-> {"coll"}],
  [n |-> "Vec<Vec<u16>>", t |-> [k |-> "seq", t |-> [k |-> "seq", t |-> T_u16]], f |-> {"b", "j", "r"}, g |-> {"coll"}],
  [n |-> "Vec<f64>", t |-> [k |-> "seq", t |-> T_f64], f |-> {"b", "j", "r"}, g |-> {"coll"}],
  [n |-> "Vec<bool>", t |-> [k |-> "seq", t |-> T_bool], f |-> {"b", "j", "r"}, g |-> {"coll"}],
  [n |-> "LinkedList<u16>", t |-> [k |-> "seq", t |-> T_u16], f |-> {"b", "j", "r"}, g |-> {"coll"}],
  [n |-> "LinkedList<String>", t |-> [k |-> "seq", t |-> T_String], f |-> {"b", "j", "r"}, g |-> {"coll"}],
  [n |-> "LinkedList<Vec<u8>>", t |-> [k |-> "seq", t |-> [k |-> "seq", t |-> T_u8]], f |-> {"b", "j", "r"}, g |-> {"coll"}],
  [n |-> "BTreeSet<i8>", t |-> [k |-> "set", h |-> FALSE, t |-> T_i8], f |-> {"b", "j", "r"}, g |-> {"coll"}],
  [n |-> "BTreeSet<String>", t |-> [k |-> "set", h |-> FALSE, t |-> T_String], f |-> {"b", "j", "r"}, g |-> {"coll"}],
  [n |-> "BTreeSet<u32>", t |-> [k |-> "set", h |-> FALSE, t |-> T_u32], f |-> {"b", "j", "r"}, g |-> {"coll"}],
  [n |-> "HashSet<u8>", t |-> [k |-> "set", h |-> TRUE, t |-> T_u8], f |-> {"b", "j", "r"}, g |-> {"coll", "std"}],
  [n |-> "HashSet<String>", t |-> [k |-> "set", h |-> TRUE, t |-> T_String], f |-> {"b", "j", "r"}, g |-> {"coll", "std"}],
  [n |-> "BTreeMap<String, u8>", t |-> [k |-> "map", h |-> FALSE, kt |-> T_String, vt |-> T_u8], f |-> {"b", "j", "r"}, g |-> {"coll"}],
  [n |-> "BTreeMap<String, String>", t |-> [k |-> "map", h |-> FALSE, kt |-> T_String, vt |-> T_String], f |-> {"b", "j", "r"}, g |-> {"coll"}],
  [n |-> "BTreeMap<u8, String>", t |-> [k |-> "map", h |-> FALSE, kt |-> T_u8, vt |-> T_String], f |-> {"b", "j", "r"}, g |-> {"coll"}],
  [n |-> "HashMap<String, i64>", t |-> [k |-> "map", h |-> TRUE, kt |-> T_String, vt |-> T_i64], f |-> {"b", "j", "r"}, g |-> {"coll", "std"}],
  [n |-> "HashMap<u16, Vec<String>>", t |-> [k |-> "map", h |-> TRUE, kt |-> T_u16, vt |-> [k |-> "seq", t |-> T_String]], f |-> {"b", "j", "r"}, g |-> {"coll", "std"}],
  [n |-> "BTreeMap<String, Vec<Option<u16>>>", t |-> [k |-> "map", h |-> FALSE, kt |-> T_String, vt |-> [k |-> "seq", t |-> [k |-> "opt", t |-> T_u16]]], f |-> {"b", "j", "r"}, g |-> {"coll"}],
  [n |-> "BTreeMap<String, BTreeMap<String, u8>>", t |-> [k |-> "map", h |-> FALSE, kt |-> T_String, vt |-> [k |-> "map", h |-> FALSE, kt |-> T_String, vt |-> T_u8]], f |-> {"b", "j", "r"}, g |-> {"coll"}],
  [n |-> "HashMap<String, HashSet<u8>>", t |-> [k |-> "map", h |-> TRUE, kt |-> T_String, vt |-> [k |-> "set", h |-> TRUE, t |-> T_u8]], f |-> {"b", "j", "r"}, g |-> {"coll", "std"}],
  [n |-> "Vec<BTreeMap<String, bool>>", t |-> [k |-> "seq", t |-> [k |-> "map", h |-> FALSE, kt |-> T_String, vt |-> T_bool]], f |-> {"b", "j", "r"}, g |-> {"coll"}],
  [n |-> "BTreeSet<(u8, String)>", t |-> [k |-> "set", h |-> FALSE, t |-> [k |-> "tup", ts |-> <<T_u8, T_String>>]], f |-> {"b", "j", "r"}, g |-> {"coll"}],
  [n |-> "BTreeMap<(i8, u8), u8>", t |-> [k |-> "map", h |-> FALSE, kt |-> [k |-> "tup", ts |-> <<T_i8, T_u8>>], vt |-> T_u8], f |-> {"b", "j", "r"}, g |-> {"coll"}],
  [n |-> "BTreeMap<i16, f64>", t |-> [k |-> "map", h |-> FALSE, kt |-> T_i16, vt |-> T_f64], f |-> {"b", "j", "r"}, g |-> {"coll"}],
  [n |-> "Vec<()>", t |-> [k |-> "seq", t |-> T_unit], f |-> {"b", "j", "r"}, g |-> {"zst"}],
  [n |-> "Box<u32>", t |-> T_u32, f |-> {"b", "j", "r"}, g |-> {"prim"}],
  [n |-> "Vec<Box<String>>", t |-> [k |-> "seq", t |-> T_String], f |-> {"b", "j", "r"}, g |-> {"coll"}],
  [n |-> "Option<Box<u64>>", t |-> [k |-> "opt", t |-> T_u64], f |-> {"b", "j", "r"}, g |-> {"opt"}],
  [n |-> "[u8; 0]", t |-> [k |-> "arr", n |-> 0, t |-> T_u8], f |-> {"b", "j", "r"}, g |-> {"arity"}],
  [n |-> "[u8; 1]", t |-> [k |-> "arr", n |-> 1, t |-> T_u8], f |-> {"b", "j", "r"}, g |-> {"arity"}],
  [n |-> "[u8; 3]", t |-> [k |-> "arr", n |-> 3, t |-> T_u8], f |-> {"b", "j", "r"}, g |-> {"arity"}],
  [n |-> "[String; 2]", t |-> [k |-> "arr", n |-> 2, t |-> T_String], f |-> {"b", "j", "r"}, g |-> {"arity"}],
  [n |-> "[[u8; 2]; 3]", t |-> [k |-> "arr", n |-> 3, t |-> [k |-> "arr", n |-> 2, t |-> T_u8]], f |-> {"b", "j", "r"}, g |-> {"arity"}],
  [n |-> "[[u8; 0]; 2]", t |-> [k |-> "arr", n |-> 2, t |-> [k |-> "arr", n |-> 0, t |-> T_u8]], f |-> {"b", "j", "r"}, g |-> {"arity"}],
  [n |-> "[[u16; 2]; 0]", t |-> [k |-> "arr", n |-> 0, t |-> [k |-> "arr", n |-> 2, t |-> T_u16]], f |-> {"b", "j", "r"}, g |-> {"arity"}],
  [n |-> "[Option<u8>; 2]", t |-> [k |-> "arr", n |-> 2, t |-> [k |-> "opt", t |-> T_u8]], f |-> {"b", "j", "r"}, g |-> {"arity"}],
  [n |-> "[Vec<u8>; 2]", t |-> [k |-> "arr", n |-> 2, t |-> [k |-> "seq", t |-> T_u8]], f |-> {"b", "j", "r"}, g |-> {"arity"}],
  [n |-> "[f32; 2]", t |-> [k |-> "arr", n |-> 2, t |-> T_f32], f |-> {"b", "j", "r"}, g |-> {"arity"}],
  [n |-> "[(u8, String); 2]", t |-> [k |-> "arr", n |-> 2, t |-> [k |-> "tup", ts |-> <<T_u8, T_String>>]], f |-> {"b", "j", "r"}, g |-> {"arity"}],
  [n |-> "[u8; 40]", t |-> [k |-> "arr", n |-> 40, t |-> T_u8], f |-> {"b", "j", "r"}, g |-> {"arity"}],
  [n |-> "[BTreeMap<String, u8>; 2]", t |-> [k |-> "arr", n |-> 2, t |-> [k |-> "map", h |-> FALSE, kt |-> T_String, vt |-> T_u8]], f |-> {"b", "j", "r"}, g |-> {"arity"}],
  [n |-> "[(); 3]", t |-> [k |-> "arr", n |-> 3, t |-> T_unit], f |-> {"b", "j", "r"}, g |-> {"arity"}],
  [n |-> "(u8, String)", t |-> [k |-> "tup", ts |-> <<T_u8, T_String>>], f |-> {"b", "j", "r"}, g |-> {"arity"}],
  [n |-> "(u8, u16, String)", t |-> [k |-> "tup", ts |-> <<T_u8, T_u16, T_String>>], f |-> {"b", "j", "r"}, g |-> {"arity"}],
  [n |-> "(u8, u16, u32, String)", t |-> [k |-> "tup", ts |-> <<T_u8, T_u16, T_u32, T_String>>], f |-> {"b", "j", "r"}, g |-> {"arity"}],
  [n |-> "((u8, u8), u8)", t |-> [k |-> "tup", ts |-> <<[k |-> "tup", ts |-> <<T_u8, T_u8>>], T_u8>>], f |-> {"b", "j", "r"}, g |-> {"arity"}],
  [n |-> "(Vec<u8>, Option<String>)", t |-> [k |-> "tup", ts |-> <<[k |-> "seq", t |-> T_u8], [k |-> "opt", t |-> T_String]>>], f |-> {"b", "j", "r"}, g |-> {"arity"}],
  [n |-> "([u8; 2], bool, f64)", t |-> [k |-> "tup", ts |-> <<[k |-> "arr", n |-> 2, t |-> T_u8], T_bool, T_f64>>], f |-> {"b", "j", "r"}, g |-> {"arity"}],
  [n |-> "(Option<u8>, Option<u8>)", t |-> [k |-> "tup", ts |-> <<[k |-> "opt", t |-> T_u8], [k |-> "opt", t |-> T_u8]>>], f |-> {"b", "j", "r"}, g |-> {"arity"}],
  [n |-> "(u8, (u16, (u32, u64)))", t |-> [k |-> "tup", ts |-> <<T_u8, [k |-> "tup", ts |-> <<T_u16, [k |-> "tup", ts |-> <<T_u32, T_u64>>]>>]>>], f |-> {"b", "j", "r"}, g |-> {"arity"}],
  [n |-> "Vec<Duration>", t |-> [k |-> "seq", t |-> T_dur], f |-> {"b", "j", "r"}, g |-> {"time"}],
  [n |-> "Option<Duration>", t |-> [k |-> "opt", t |-> T_dur], f |-> {"b", "j", "r"}, g |-> {"time"}],
  [n |-> "BTreeMap<String, Duration>", t |-> [k |-> "map", h |-> FALSE, kt |-> T_String, vt |-> T_dur], f |-> {"b", "j", "r"}, g |-> {"time"}],
  [n |-> "Option<SystemTime>", t |-> [k |-> "opt", t |-> T_sys], f |-> {"b", "j", "r"}, g |-> {"std", "time"}],
  [n |-> "(Duration, SystemTime)", t |-> [k |-> "tup", ts |-> <<T_dur, T_sys>>], f |-> {"b", "j", "r"}, g |-> {"std", "time"}],
  [n |-> "Vec<(u8, Duration)>", t |-> [k |-> "seq", t |-> [k |-> "tup", ts |-> <<T_u8, T_dur>>]], f |-> {"b", "j", "r"}, g |-> {"time"}],
  [n |-> "[Duration; 2]", t |-> [k |-> "arr", n |-> 2, t |-> T_dur], f |-> {"b", "j", "r"}, g |-> {"time"}],
  [n |-> "Unit1", t |-> T_Unit1, f |-> {"b", "j"}, g |-> {"arity", "struct"}],
  [n |-> "Plain", t |-> T_Plain, f |-> {"b", "j", "r"}, g |-> {"field", "struct"}],
  [n |-> "BTreeMap<Keyed, u8>", t |-> [k |-> "map", h |-> FALSE, kt |-> T_Keyed, vt |-> T_u8], f |-> {"b", "j", "r"}, g |-> {"coll"}],
  [n |-> "BTreeSet<Keyed>", t |-> [k |-> "set", h |-> FALSE, t |-> T_Keyed], f |-> {"b", "j", "r"}, g |-> {"coll"}],
  [n |-> "AllPrim", t |-> T_AllPrim, f |-> {"b", "j", "r"}, g |-> {"struct"}],
  [n |-> "Wide", t |-> T_Wide, f |-> {"b"}, g |-> {"struct"}],
  [n |-> "Empty", t |-> T_Empty, f |-> {"b", "j", "r"}, g |-> {"field", "struct"}],
  [n |-> "Opts", t |-> T_Opts, f |-> {"b", "j", "r"}, g |-> {"field", "opt", "struct"}],
  [n |-> "AllOpt", t |-> T_AllOpt, f |-> {"b", "j", "r"}, g |-> {"field", "opt", "struct"}],
  [n |-> "Ren", t |-> T_Ren, f |-> {"b", "j", "r"}, g |-> {"field", "struct"}],
  [n |-> "RenEsc", t |-> T_RenEsc, f |-> {"j"}, g |-> {"field", "struct"}],
  [n |-> "Def", t |-> T_Def, f |-> {"b", "j", "r"}, g |-> {"field", "struct"}],
  [n |-> "DefOpt", t |-> T_DefOpt, f |-> {"b", "j", "r"}, g |-> {"field", "lossopt", "struct"}],
  [n |-> "DefOptS", t |-> T_DefOptS, f |-> {"j"}, g |-> {"field", "lossopt", "struct"}],
  [n |-> "CDef", t |-> T_CDef, f |-> {"b", "j", "r"}, g |-> {"field", "struct"}],
  [n |-> "CDefW", t |-> T_CDefW, f |-> {"b", "j", "r"}, g |-> {"field", "struct"}],
  [n |-> "Skip", t |-> T_Skip, f |-> {"b", "j", "r"}, g |-> {"field", "struct"}],
  [n |-> "SkipFirst", t |-> T_SkipFirst, f |-> {"b", "j", "r"}, g |-> {"field", "struct"}],
  [n |-> "SkipAll", t |-> T_SkipAll, f |-> {"b", "j", "r"}, g |-> {"field", "struct"}],
  [n |-> "Nulls", t |-> T_Nulls, f |-> {"b", "j", "r"}, g |-> {"field", "opt", "struct"}],
  [n |-> "CNulls", t |-> T_CNulls, f |-> {"b", "j", "r"}, g |-> {"field", "opt", "struct"}],
  [n |-> "RenSkip", t |-> T_RenSkip, f |-> {"b", "j", "r"}, g |-> {"field", "struct"}],
  [n |-> "Nest", t |-> T_Nest, f |-> {"b", "j", "r"}, g |-> {"struct"}],
  [n |-> "Colls", t |-> T_Colls, f |-> {"b", "j", "r"}, g |-> {"coll", "struct"}],
  [n |-> "HColls", t |-> T_HColls, f |-> {"b", "j", "r"}, g |-> {"coll", "std", "struct"}],
  [n |-> "Times", t |-> T_Times, f |-> {"b", "j", "r"}, g |-> {"time"}],
  [n |-> "Under", t |-> T_Under, f |-> {"b", "j", "r"}, g |-> {"field", "struct"}],
  [n |-> "One", t |-> T_One, f |-> {"b", "j", "r"}, g |-> {"field", "struct"}],
  [n |-> "Tree", t |-> T_Tree, f |-> {"b", "j", "r"}, g |-> {"rec", "struct"}],
  [n |-> "Chain", t |-> T_Chain, f |-> {"b", "j", "r"}, g |-> {"rec", "struct"}],
  [n |-> "New", t |-> T_New, f |-> {"b", "j", "r"}, g |-> {"arity", "struct"}],
  [n |-> "NewT", t |-> T_NewT, f |-> {"j"}, g |-> {"arity", "struct"}],
  [n |-> "NewTV", t |-> T_NewTV, f |-> {"j"}, g |-> {"arity", "struct"}],
  [n |-> "Pair", t |-> T_Pair, f |-> {"b", "j", "r"}, g |-> {"arity", "struct"}],
  [n |-> "Trip", t |-> T_Trip, f |-> {"b", "j", "r"}, g |-> {"arity", "struct"}],
  [n |-> "Quint", t |-> T_Quint, f |-> {"b", "j", "r"}, g |-> {"arity", "struct"}],
  [n |-> "HoldT", t |-> T_HoldT, f |-> {"b", "j", "r"}, g |-> {"arity", "struct"}],
  [n |-> "HoldN", t |-> T_HoldN, f |-> {"j"}, g |-> {"arity", "struct"}],
  [n |-> "Uni", t |-> T_Uni, f |-> {"b", "j", "r"}, g |-> {"enum"}],
  [n |-> "Mix", t |-> T_Mix, f |-> {"b", "j", "r"}, g |-> {"enum"}],
  [n |-> "RenV", t |-> T_RenV, f |-> {"b", "j"}, g |-> {"enum"}],
  [n |-> "RenVE", t |-> T_RenVE, f |-> {"j"}, g |-> {"enum"}],
  [n |-> "FieldV", t |-> T_FieldV, f |-> {"j", "r"}, g |-> {"enum", "field"}],
  [n |-> "AllOptV", t |-> T_AllOptV, f |-> {"b", "j", "r"}, g |-> {"enum", "field", "opt"}],
  [n |-> "Disc", t |-> T_Disc, f |-> {"b", "j", "r"}, g |-> {"enum"}],
  [n |-> "Inner", t |-> T_Inner, f |-> {"b", "j", "r"}, g |-> {"enum"}],
  [n |-> "Deep", t |-> T_Deep, f |-> {"b", "j", "r"}, g |-> {"enum", "rec"}],
  [n |-> "Big", t |-> T_Big, f |-> {"b", "j", "r"}, g |-> {"big", "enum"}],
  [n |-> "Words", t |-> T_Words, f |-> {"b", "j", "r"}, g |-> {"enum", "words"}],
  [n |-> "Words2", t |-> T_Words2, f |-> {"b", "j", "r"}, g |-> {"enum", "words"}],
  [n |-> "WordsJ", t |-> T_WordsJ, f |-> {"j"}, g |-> {"enum", "words"}],
  [n |-> "Option<Words>", t |-> [k |-> "opt", t |-> T_Words], f |-> {"b", "j", "r"}, g |-> {"enum", "words"}],
  [n |-> "Vec<Option<Words>>", t |-> [k |-> "seq", t |-> [k |-> "opt", t |-> T_Words]], f |-> {"b", "j", "r"}, g |-> {"enum", "words"}],
  [n |-> "Option<Words2>", t |-> [k |-> "opt", t |-> T_Words2], f |-> {"b", "j", "r"}, g |-> {"enum", "words"}],
  [n |-> "Vec<Option<Words2>>", t |-> [k |-> "seq", t |-> [k |-> "opt", t |-> T_Words2]], f |-> {"b", "j", "r"}, g |-> {"enum", "words"}],
  [n |-> "Option<WordsJ>", t |-> [k |-> "opt", t |-> T_WordsJ], f |-> {"j"}, g |-> {"enum", "words"}],
  [n |-> "Vec<Option<WordsJ>>", t |-> [k |-> "seq", t |-> [k |-> "opt", t |-> T_WordsJ]], f |-> {"j"}, g |-> {"enum", "words"}],
  [n |-> "(Option<Words>, Words2)", t |-> [k |-> "tup", ts |-> <<[k |-> "opt", t |-> T_Words], T_Words2>>], f |-> {"b", "j", "r"}, g |-> {"enum", "words"}],
  [n |-> "WordsF", t |-> T_WordsF, f |-> {"b", "j", "r"}, g |-> {"field", "struct", "words"}],
  [n |-> "Vec<RenV>", t |-> [k |-> "seq", t |-> T_RenV], f |-> {"b", "j"}, g |-> {"inlist"}],
  [n |-> "Vec<RenVE>", t |-> [k |-> "seq", t |-> T_RenVE], f |-> {"j"}, g |-> {"inlist"}],
  [n |-> "Vec<FieldV>", t |-> [k |-> "seq", t |-> T_FieldV], f |-> {"j", "r"}, g |-> {"inlist"}],
  [n |-> "Vec<AllOptV>", t |-> [k |-> "seq", t |-> T_AllOptV], f |-> {"b", "j", "r"}, g |-> {"inlist"}],
  [n |-> "Vec<Disc>", t |-> [k |-> "seq", t |-> T_Disc], f |-> {"b", "j", "r"}, g |-> {"inlist"}],
  [n |-> "Vec<Inner>", t |-> [k |-> "seq", t |-> T_Inner], f |-> {"b", "j", "r"}, g |-> {"inlist"}],
  [n |-> "Vec<Deep>", t |-> [k |-> "seq", t |-> T_Deep], f |-> {"b", "j", "r"}, g |-> {"inlist"}],
  [n |-> "Vec<Big>", t |-> [k |-> "seq", t |-> T_Big], f |-> {"b", "j", "r"}, g |-> {"inlist"}],
  [n |-> "Option<Uni>", t |-> [k |-> "opt", t |-> T_Uni], f |-> {"b", "j", "r"}, g |-> {"coll", "enum"}],
  [n |-> "Vec<Uni>", t |-> [k |-> "seq", t |-> T_Uni], f |-> {"b", "j", "r"}, g |-> {"coll", "enum"}],
  [n |-> "Vec<Mix>", t |-> [k |-> "seq", t |-> T_Mix], f |-> {"b", "j", "r"}, g |-> {"coll", "enum"}],
  [n |-> "BTreeMap<String, Mix>", t |-> [k |-> "map", h |-> FALSE, kt |-> T_String, vt |-> T_Mix], f |-> {"b", "j", "r"}, g |-> {"coll", "enum"}],
  [n |-> "BTreeMap<Uni, u8>", t |-> [k |-> "map", h |-> FALSE, kt |-> T_Uni, vt |-> T_u8], f |-> {"b", "j", "r"}, g |-> {"coll", "enum"}],
  [n |-> "[Mix; 2]", t |-> [k |-> "arr", n |-> 2, t |-> T_Mix], f |-> {"b", "j", "r"}, g |-> {"coll", "enum"}],
  [n |-> "(Uni, Mix)", t |-> [k |-> "tup", ts |-> <<T_Uni, T_Mix>>], f |-> {"b", "j", "r"}, g |-> {"coll", "enum"}],
  [n |-> "Option<Mix>", t |-> [k |-> "opt", t |-> T_Mix], f |-> {"b", "j", "r"}, g |-> {"coll", "enum"}],
  [n |-> "Box<Uni>", t |-> T_Uni, f |-> {"b", "j", "r"}, g |-> {"coll", "enum"}],
  [n |-> "HoldE", t |-> T_HoldE, f |-> {"j", "r"}, g |-> {"enum"}],
  [n |-> "HoldEB", t |-> T_HoldEB, f |-> {"b", "j", "r"}, g |-> {"enum"}],
  [n |-> "G1<u8>", t |-> T_G1__u8, f |-> {"b", "j", "r"}, g |-> {"gen", "struct"}],
  [n |-> "G1<String>", t |-> T_G1__S, f |-> {"b", "j", "r"}, g |-> {"gen", "struct"}],
  [n |-> "G2<u16, String>", t |-> T_G2__a, f |-> {"b", "j", "r"}, g |-> {"gen", "struct"}],
  [n |-> "GC<3>", t |-> T_GC__3, f |-> {"b", "j", "r"}, g |-> {"gen", "struct"}],
  [n |-> "GE<u8, String>", t |-> T_GE__a, f |-> {"b", "j", "r"}, g |-> {"enum", "gen"}],
  [n |-> "GT<u8, String>", t |-> T_GT__a, f |-> {"b", "j", "r"}, g |-> {"gen", "struct"}],
  [n |-> "Vec<GE<u8, String>>", t |-> [k |-> "seq", t |-> T_GE__a], f |-> {"b", "j", "r"}, g |-> {"inlist"}],
  [n |-> "Wrapped", t |-> T_Wrapped, f |-> {"b", "j"}, g |-> {"proxy"}],
  [n |-> "Scaled", t |-> T_Scaled, f |-> {"b", "j"}, g |-> {"proxy"}],
  [n |-> "Flip", t |-> T_Flip, f |-> {"b", "j"}, g |-> {"proxy"}],
  [n |-> "EnumPx", t |-> T_EnumPx, f |-> {"b", "j"}, g |-> {"proxy"}],
  [n |-> "OptPx", t |-> T_OptPx, f |-> {"b", "j"}, g |-> {"proxy"}],
  [n |-> "FieldPx", t |-> T_FieldPx, f |-> {"b", "j"}, g |-> {"field", "proxy"}],
  [n |-> "OptFieldPx", t |-> T_OptFieldPx, f |-> {"j"}, g |-> {"field", "proxy"}],
  [n |-> "PxV", t |-> T_PxV, f |-> {"j"}, g |-> {"enum", "field", "proxy"}],
  [n |-> "NamesV", t |-> T_NamesV, f |-> {"b", "j", "r"}, g |-> {"enum", "field"}],
  [n |-> "Names", t |-> T_Names, f |-> {"b", "j", "r"}, g |-> {"field", "struct"}],
  [n |-> "TupPx", t |-> T_TupPx, f |-> {"b"}, g |-> {"proxy"}],
  [n |-> "Vec<Scaled>", t |-> [k |-> "seq", t |-> T_Scaled], f |-> {"b", "j"}, g |-> {"proxy"}],
  [n |-> "Option<Scaled>", t |-> [k |-> "opt", t |-> T_Scaled], f |-> {"b", "j"}, g |-> {"proxy"}],
  [n |-> "BTreeMap<String, Wrapped>", t |-> [k |-> "map", h |-> FALSE, kt |-> T_String, vt |-> T_Wrapped], f |-> {"b", "j"}, g |-> {"proxy"}],
  [n |-> "[Scaled; 2]", t |-> [k |-> "arr", n |-> 2, t |-> T_Scaled], f |-> {"b", "j"}, g |-> {"proxy"}],
  [n |-> "(Wrapped, Flip)", t |-> [k |-> "tup", ts |-> <<T_Wrapped, T_Flip>>], f |-> {"b", "j"}, g |-> {"proxy"}],
  [n |-> "HoldPx", t |-> T_HoldPx, f |-> {"b", "j"}, g |-> {"proxy"}],
  [n |-> "PxD", t |-> T_PxD, f |-> {"b", "j"}, g |-> {"proxy"}],
  [n |-> "PxDef", t |-> T_PxDef, f |-> {"j"}, g |-> {"field", "proxy"}],
  [n |-> "PxDefF", t |-> T_PxDefF, f |-> {"j"}, g |-> {"field", "proxy"}],
  [n |-> "PxSkip", t |-> T_PxSkip, f |-> {"b", "j"}, g |-> {"field", "proxy"}],
  [n |-> "PxDefV", t |-> T_PxDefV, f |-> {"j"}, g |-> {"enum", "field", "proxy"}],
  [n |-> "PxEnum", t |-> T_PxEnum, f |-> {"b", "j"}, g |-> {"enum", "proxy"}],
  [n |-> "WideT", t |-> T_WideT, f |-> {"b", "j", "r"}, g |-> {"wide"}],
  [n |-> "WideV", t |-> T_WideV, f |-> {"b", "j", "r"}, g |-> {"wide"}],
  [n |-> "WideS", t |-> T_WideS, f |-> {"b", "j", "r"}, g |-> {"wide"}],
  [n |-> "WideO", t |-> T_WideO, f |-> {"b", "j", "r"}, g |-> {"wide"}],
  [n |-> "[u16; 300]", t |-> [k |-> "arr", n |-> 300, t |-> T_u16], f |-> {"b", "j", "r"}, g |-> {"wide"}],
  [n |-> "[String; 257]", t |-> [k |-> "arr", n |-> 257, t |-> T_String], f |-> {"b", "j", "r"}, g |-> {"wide"}],
  [n |-> "[Option<u8>; 256]", t |-> [k |-> "arr", n |-> 256, t |-> [k |-> "opt", t |-> T_u8]], f |-> {"b", "j", "r"}, g |-> {"wide"}],
  [n |-> "[(u8, String); 258]", t |-> [k |-> "arr", n |-> 258, t |-> [k |-> "tup", ts |-> <<T_u8, T_String>>]], f |-> {"b", "j", "r"}, g |-> {"wide"}],
  [n |-> "[bool; 513]", t |-> [k |-> "arr", n |-> 513, t |-> T_bool], f |-> {"b", "j", "r"}, g |-> {"wide"}],
  [n |-> "[Words; 255]", t |-> [k |-> "arr", n |-> 255, t |-> T_Words], f |-> {"b", "j", "r"}, g |-> {"wide"}],
  [n |-> "Vec<[u8; 256]>", t |-> [k |-> "seq", t |-> [k |-> "arr", n |-> 256, t |-> T_u8]], f |-> {"b", "j", "r"}, g |-> {"wide"}],
  [n |-> "Option<[i16; 259]>", t |-> [k |-> "opt", t |-> [k |-> "arr", n |-> 259, t |-> T_i16]], f |-> {"b", "j", "r"}, g |-> {"wide"}],
  [n |-> "Vec<WideT>", t |-> [k |-> "seq", t |-> T_WideT], f |-> {"b", "j", "r"}, g |-> {"wide"}],
  [n |-> "Option<WideV>", t |-> [k |-> "opt", t |-> T_WideV], f |-> {"b", "j", "r"}, g |-> {"wide"}],
  [n |-> "Vec<WideV>", t |-> [k |-> "seq", t |-> T_WideV], f |-> {"b", "j", "r"}, g |-> {"wide"}],
  [n |-> "Vec<Vec<Vec<Vec<Vec<u8>>>>>", t |-> [k |-> "seq", t |-> [k |-> "seq", t |-> [k |-> "seq", t |-> [k |-> "seq", t |-> [k |-> "seq", t |-> T_u8]]]]], f |-> {"b", "j", "r"}, g |-> {"wide"}],
  [n |-> "Option<Box<Vec<Option<Box<Vec<Option<String>>>>>>>", t |-> [k |-> "opt", t |-> [k |-> "seq", t |-> [k |-> "opt", t |-> [k |-> "seq", t |-> [k |-> "opt", t |-> T_String]]]]], f |-> {"b", "j", "r"}, g |-> {"wide"}],
  [n |-> "((((u8, String), bool), Option<u8>), Vec<(u8, (u8, u8))>)", t |-> [k |-> "tup", ts |-> <<[k |-> "tup", ts |-> <<[k |-> "tup", ts |-> <<[k |-> "tup", ts |-> <<T_u8, T_String>>], T_bool>>], [k |-> "opt", t |-> T_u8]>>], [k |-> "seq", t |-> [k |-> "tup", ts |-> <<T_u8, [k |-> "tup", ts |-> <<T_u8, T_u8>>]>>]]>>], f |-> {"b", "j", "r"}, g |-> {"wide"}],
  [n |-> "BTreeMap<String, BTreeMap<String, BTreeMap<String, Vec<u8>>>>", t |-> [k |-> "map", h |-> FALSE, kt |-> T_String, vt |-> [k |-> "map", h |-> FALSE, kt |-> T_String, vt |-> [k |-> "map", h |-> FALSE, kt |-> T_String, vt |-> [k |-> "seq", t |-> T_u8]]]], f |-> {"b", "j", "r"}, g |-> {"wide"}],
  [n |-> "[[[[u8; 2]; 2]; 2]; 2]", t |-> [k |-> "arr", n |-> 2, t |-> [k |-> "arr", n |-> 2, t |-> [k |-> "arr", n |-> 2, t |-> [k |-> "arr", n |-> 2, t |-> T_u8]]]], f |-> {"b", "j", "r"}, g |-> {"wide"}],
  [n |-> "Ks0", t |-> T_Ks0, f |-> {"b", "j", "r"}, g |-> {"combo", "field", "opt", "struct"}],
  [n |-> "Ks1<u8>", t |-> T_Ks1__i, f |-> {"b", "j"}, g |-> {"combo", "field", "gen", "opt", "proxy", "struct"}],
  [n |-> "Ks2<u8>", t |-> T_Ks2__i, f |-> {"b", "j", "r"}, g |-> {"combo", "field", "gen", "opt", "struct"}],
  [n |-> "Ks3<u8>", t |-> T_Ks3__i, f |-> {"b", "j", "r"}, g |-> {"combo", "field", "gen", "opt", "struct"}],
  [n |-> "Ks4", t |-> T_Ks4, f |-> {"b", "j"}, g |-> {"combo", "field", "opt", "proxy", "struct"}],
  [n |-> "Ks5", t |-> T_Ks5, f |-> {"b", "j", "r"}, g |-> {"combo", "field", "opt", "struct"}],
  [n |-> "Ks6<u8, String>", t |-> T_Ks6__i, f |-> {"b", "j", "r"}, g |-> {"combo", "field", "gen", "opt", "struct"}],
  [n |-> "Ks7", t |-> T_Ks7, f |-> {"b", "j", "r"}, g |-> {"combo", "field", "opt", "struct"}],
  [n |-> "Ks8<u8, String>", t |-> T_Ks8__i, f |-> {"b", "j", "r"}, g |-> {"combo", "field", "gen", "opt", "struct"}],
  [n |-> "Ks9", t |-> T_Ks9, f |-> {"b", "j"}, g |-> {"combo", "field", "opt", "proxy", "struct"}],
  [n |-> "Ks10<2>", t |-> T_Ks10__i, f |-> {"b", "j", "r"}, g |-> {"combo", "field", "gen", "struct"}],
  [n |-> "Ks11<u8, String>", t |-> T_Ks11__i, f |-> {"b", "j", "r"}, g |-> {"combo", "field", "gen", "opt", "struct"}],
  [n |-> "Ks12<u8>", t |-> T_Ks12__i, f |-> {"b", "j", "r"}, g |-> {"combo", "field", "gen", "opt", "struct"}],
  [n |-> "Ks13", t |-> T_Ks13, f |-> {"b", "j", "r"}, g |-> {"combo", "field", "struct"}],
  [n |-> "Ks14<u8>", t |-> T_Ks14__i, f |-> {"b", "j", "r"}, g |-> {"combo", "field", "gen", "opt", "struct"}],
  [n |-> "Ks15", t |-> T_Ks15, f |-> {"b", "j", "r"}, g |-> {"combo", "field", "opt", "struct"}],
  [n |-> "Ks16<u8>", t |-> T_Ks16__i, f |-> {"b", "j"}, g |-> {"combo", "field", "gen", "proxy", "struct"}],
  [n |-> "Ks17<u8>", t |-> T_Ks17__i, f |-> {"b", "j"}, g |-> {"combo", "field", "gen", "opt", "proxy", "struct"}],
  [n |-> "Ks18", t |-> T_Ks18, f |-> {"b", "j", "r"}, g |-> {"combo", "field", "opt", "struct"}],
  [n |-> "Ks19<2>", t |-> T_Ks19__i, f |-> {"b", "j", "r"}, g |-> {"combo", "field", "gen", "opt", "struct"}],
  [n |-> "Ks20<u8>", t |-> T_Ks20__i, f |-> {"b", "j", "r"}, g |-> {"combo", "field", "gen", "opt", "struct"}],
  [n |-> "Ks21<u8>", t |-> T_Ks21__i, f |-> {"b", "j", "r"}, g |-> {"combo", "field", "gen", "opt", "struct"}],
  [n |-> "Ks22<u8>", t |-> T_Ks22__i, f |-> {"b", "j"}, g |-> {"combo", "field", "gen", "opt", "proxy", "struct"}],
  [n |-> "Ks23<u8>", t |-> T_Ks23__i, f |-> {"b", "j"}, g |-> {"combo", "field", "gen", "proxy", "struct"}],
  [n |-> "Ks24<u8, String>", t |-> T_Ks24__i, f |-> {"b", "j", "r"}, g |-> {"combo", "field", "gen", "opt", "struct"}],
  [n |-> "Ks25", t |-> T_Ks25, f |-> {"b", "j", "r"}, g |-> {"combo", "field", "opt", "struct"}],
  [n |-> "Ks26<u8>", t |-> T_Ks26__i, f |-> {"b", "j", "r"}, g |-> {"combo", "field", "gen", "opt", "struct"}],
  [n |-> "Ks27", t |-> T_Ks27, f |-> {"b", "j", "r"}, g |-> {"combo", "field", "opt", "struct"}],
  [n |-> "Ks28", t |-> T_Ks28, f |-> {"b", "j", "r"}, g |-> {"combo", "field", "opt", "struct"}],
  [n |-> "Ks29<u8>", t |-> T_Ks29__i, f |-> {"b", "j", "r"}, g |-> {"combo", "field", "gen", "opt", "struct"}],
  [n |-> "Ks30", t |-> T_Ks30, f |-> {"b", "j", "r"}, g |-> {"combo", "field", "opt", "struct"}],
  [n |-> "Ks31<2>", t |-> T_Ks31__i, f |-> {"b", "j"}, g |-> {"combo", "field", "gen", "proxy", "struct"}],
  [n |-> "Ks32<u8>", t |-> T_Ks32__i, f |-> {"b", "j", "r"}, g |-> {"combo", "field", "gen", "opt", "struct"}],
  [n |-> "Ks33", t |-> T_Ks33, f |-> {"b", "j"}, g |-> {"combo", "field", "opt", "proxy", "struct"}],
  [n |-> "Ks34", t |-> T_Ks34, f |-> {"b", "j", "r"}, g |-> {"combo", "field", "opt", "struct"}],
  [n |-> "Ks35<u8>", t |-> T_Ks35__i, f |-> {"b", "j", "r"}, g |-> {"combo", "field", "gen", "struct"}],
  [n |-> "Ks36<u8>", t |-> T_Ks36__i, f |-> {"b", "j", "r"}, g |-> {"combo", "field", "gen", "opt", "struct"}],
  [n |-> "Ks37<u8>", t |-> T_Ks37__i, f |-> {"b", "j"}, g |-> {"combo", "field", "gen", "opt", "proxy", "struct"}],
  [n |-> "Ks38<u8>", t |-> T_Ks38__i, f |-> {"b", "j", "r"}, g |-> {"combo", "field", "gen", "opt", "struct"}],
  [n |-> "Ks39<u8, String>", t |-> T_Ks39__i, f |-> {"b", "j", "r"}, g |-> {"combo", "field", "gen", "opt", "struct"}],
  [n |-> "Ks40<u8>", t |-> T_Ks40__i, f |-> {"b", "j"}, g |-> {"combo", "field", "gen", "proxy", "struct"}],
  [n |-> "Ks41<u8>", t |-> T_Ks41__i, f |-> {"b", "j", "r"}, g |-> {"combo", "field", "gen", "opt", "struct"}],
  [n |-> "Ks42", t |-> T_Ks42, f |-> {"b", "j"}, g |-> {"combo", "field", "proxy", "struct"}],
  [n |-> "Ks43", t |-> T_Ks43, f |-> {"b", "j"}, g |-> {"combo", "field", "opt", "proxy", "struct"}],
  [n |-> "Ks44", t |-> T_Ks44, f |-> {"b", "j"}, g |-> {"combo", "field", "proxy", "struct"}],
  [n |-> "Ks45<u8>", t |-> T_Ks45__i, f |-> {"b", "j", "r"}, g |-> {"combo", "field", "gen", "opt", "struct"}],
  [n |-> "Ks46<u8>", t |-> T_Ks46__i, f |-> {"b", "j", "r"}, g |-> {"combo", "field", "gen", "struct"}],
  [n |-> "Ks47", t |-> T_Ks47, f |-> {"b", "j"}, g |-> {"combo", "field", "opt", "proxy", "struct"}],
  [n |-> "Ks48<2>", t |-> T_Ks48__i, f |-> {"b", "j", "r"}, g |-> {"combo", "field", "gen", "opt", "struct"}],
  [n |-> "Ks49<2>", t |-> T_Ks49__i, f |-> {"b", "j", "r"}, g |-> {"combo", "field", "gen", "opt", "struct"}],
  [n |-> "Ks50", t |-> T_Ks50, f |-> {"b", "j", "r"}, g |-> {"combo", "field", "opt", "struct"}],
  [n |-> "Ks51<u8>", t |-> T_Ks51__i, f |-> {"b", "j", "r"}, g |-> {"combo", "field", "gen", "opt", "struct"}],
  [n |-> "Ks52", t |-> T_Ks52, f |-> {"b", "j", "r"}, g |-> {"combo", "field", "opt", "struct"}],
  [n |-> "Ks53<u8, String>", t |-> T_Ks53__i, f |-> {"b", "j", "r"}, g |-> {"combo", "field", "gen", "opt", "struct"}],
  [n |-> "Ks54<u8>", t |-> T_Ks54__i, f |-> {"b", "j"}, g |-> {"combo", "field", "gen", "opt", "proxy", "struct"}],
  [n |-> "Ks55<u8>", t |-> T_Ks55__i, f |-> {"b", "j", "r"}, g |-> {"combo", "field", "gen", "opt", "struct"}],
  [n |-> "Ks56<u8>", t |-> T_Ks56__i, f |-> {"b", "j", "r"}, g |-> {"combo", "field", "gen", "opt", "struct"}],
  [n |-> "Ks57<u8, String>", t |-> T_Ks57__i, f |-> {"b", "j", "r"}, g |-> {"combo", "field", "gen", "opt", "struct"}],
  [n |-> "Ks58<u8>", t |-> T_Ks58__i, f |-> {"b", "j", "r"}, g |-> {"combo", "field", "gen", "opt", "struct"}],
  [n |-> "Ks59<u8, String>", t |-> T_Ks59__i, f |-> {"b", "j", "r"}, g |-> {"combo", "field", "gen", "opt", "struct"}],
  [n |-> "Ks60<u8, String>", t |-> T_Ks60__i, f |-> {"b", "j", "r"}, g |-> {"combo", "field", "gen", "opt", "struct"}],
  [n |-> "Ks61<2>", t |-> T_Ks61__i, f |-> {"b", "j", "r"}, g |-> {"combo", "field", "gen", "struct"}],
  [n |-> "Ks62", t |-> T_Ks62, f |-> {"b", "j"}, g |-> {"combo", "field", "opt", "proxy", "struct"}],
  [n |-> "Ks63<u8>", t |-> T_Ks63__i, f |-> {"b", "j"}, g |-> {"combo", "field", "gen", "opt", "proxy", "struct"}],
  [n |-> "Ke0<u8>", t |-> T_Ke0__i, f |-> {"j"}, g |-> {"combo", "enum", "field", "gen"}],
  [n |-> "Vec<Ke0<u8>>", t |-> [k |-> "seq", t |-> T_Ke0__i], f |-> {"j"}, g |-> {"combo", "inlist"}],
  [n |-> "Ke1", t |-> T_Ke1, f |-> {"j"}, g |-> {"combo", "enum", "field"}],
  [n |-> "Vec<Ke1>", t |-> [k |-> "seq", t |-> T_Ke1], f |-> {"j"}, g |-> {"combo", "inlist"}],
  [n |-> "Ke2<u8>", t |-> T_Ke2__i, f |-> {"j"}, g |-> {"combo", "enum", "field", "gen"}],
  [n |-> "Vec<Ke2<u8>>", t |-> [k |-> "seq", t |-> T_Ke2__i], f |-> {"j"}, g |-> {"combo", "inlist"}],
  [n |-> "Ke3<u8>", t |-> T_Ke3__i, f |-> {"j", "r"}, g |-> {"combo", "enum", "field", "gen"}],
  [n |-> "Vec<Ke3<u8>>", t |-> [k |-> "seq", t |-> T_Ke3__i], f |-> {"j", "r"}, g |-> {"combo", "inlist"}],
  [n |-> "Ke4<u8>", t |-> T_Ke4__i, f |-> {"b", "j", "r"}, g |-> {"combo", "enum", "field", "gen"}],
  [n |-> "Vec<Ke4<u8>>", t |-> [k |-> "seq", t |-> T_Ke4__i], f |-> {"b", "j", "r"}, g |-> {"combo", "inlist"}],
  [n |-> "Ke5<u8>", t |-> T_Ke5__i, f |-> {"j", "r"}, g |-> {"combo", "enum", "field", "gen"}],
  [n |-> "Vec<Ke5<u8>>", t |-> [k |-> "seq", t |-> T_Ke5__i], f |-> {"j", "r"}, g |-> {"combo", "inlist"}],
  [n |-> "Ke6<u8>", t |-> T_Ke6__i, f |-> {"j"}, g |-> {"combo", "enum", "field", "gen"}],
  [n |-> "Vec<Ke6<u8>>", t |-> [k |-> "seq", t |-> T_Ke6__i], f |-> {"j"}, g |-> {"combo", "inlist"}],
  [n |-> "Ke7<u8>", t |-> T_Ke7__i, f |-> {"j"}, g |-> {"combo", "enum", "field", "gen"}],
  [n |-> "Vec<Ke7<u8>>", t |-> [k |-> "seq", t |-> T_Ke7__i], f |-> {"j"}, g |-> {"combo", "inlist"}],
  [n |-> "Ke8", t |-> T_Ke8, f |-> {"j", "r"}, g |-> {"combo", "enum", "field"}],
  [n |-> "Vec<Ke8>", t |-> [k |-> "seq", t |-> T_Ke8], f |-> {"j", "r"}, g |-> {"combo", "inlist"}],
  [n |-> "Ke9", t |-> T_Ke9, f |-> {"j", "r"}, g |-> {"combo", "enum", "field"}],
  [n |-> "Vec<Ke9>", t |-> [k |-> "seq", t |-> T_Ke9], f |-> {"j", "r"}, g |-> {"combo", "inlist"}],
  [n |-> "Ke10<u8>", t |-> T_Ke10__i, f |-> {"j", "r"}, g |-> {"combo", "enum", "field", "gen"}],
  [n |-> "Vec<Ke10<u8>>", t |-> [k |-> "seq", t |-> T_Ke10__i], f |-> {"j", "r"}, g |-> {"combo", "inlist"}],
  [n |-> "Ke11", t |-> T_Ke11, f |-> {"j"}, g |-> {"combo", "enum", "field"}],
  [n |-> "Vec<Ke11>", t |-> [k |-> "seq", t |-> T_Ke11], f |-> {"j"}, g |-> {"combo", "inlist"}],
  [n |-> "Ke12<u8>", t |-> T_Ke12__i, f |-> {"j"}, g |-> {"combo", "enum", "field", "gen"}],
  [n |-> "Vec<Ke12<u8>>", t |-> [k |-> "seq", t |-> T_Ke12__i], f |-> {"j"}, g |-> {"combo", "inlist"}],
  [n |-> "Ke13", t |-> T_Ke13, f |-> {"j", "r"}, g |-> {"combo", "enum", "field"}],
  [n |-> "Vec<Ke13>", t |-> [k |-> "seq", t |-> T_Ke13], f |-> {"j", "r"}, g |-> {"combo", "inlist"}],
  [n |-> "Ke14", t |-> T_Ke14, f |-> {"j", "r"}, g |-> {"combo", "enum", "field"}],
  [n |-> "Vec<Ke14>", t |-> [k |-> "seq", t |-> T_Ke14], f |-> {"j", "r"}, g |-> {"combo", "inlist"}],
  [n |-> "Ke15", t |-> T_Ke15, f |-> {"j", "r"}, g |-> {"combo", "enum", "field"}],
  [n |-> "Vec<Ke15>", t |-> [k |-> "seq", t |-> T_Ke15], f |-> {"j", "r"}, g |-> {"combo", "inlist"}],
  [n |-> "Ke16", t |-> T_Ke16, f |-> {"j"}, g |-> {"combo", "enum", "field"}],
  [n |-> "Vec<Ke16>", t |-> [k |-> "seq", t |-> T_Ke16], f |-> {"j"}, g |-> {"combo", "inlist"}],
  [n |-> "Ke17", t |-> T_Ke17, f |-> {"j", "r"}, g |-> {"combo", "enum", "field"}],
  [n |-> "Vec<Ke17>", t |-> [k |-> "seq", t |-> T_Ke17], f |-> {"j", "r"}, g |-> {"combo", "inlist"}],
  [n |-> "Ke18<u8>", t |-> T_Ke18__i, f |-> {"j", "r"}, g |-> {"combo", "enum", "field", "gen"}],
  [n |-> "Vec<Ke18<u8>>", t |-> [k |-> "seq", t |-> T_Ke18__i], f |-> {"j", "r"}, g |-> {"combo", "inlist"}],
  [n |-> "Ke19<u8>", t |-> T_Ke19__i, f |-> {"j", "r"}, g |-> {"combo", "enum", "field", "gen"}],
  [n |-> "Vec<Ke19<u8>>", t |-> [k |-> "seq", t |-> T_Ke19__i], f |-> {"j", "r"}, g |-> {"combo", "inlist"}],
  [n |-> "Ke20<u8>", t |-> T_Ke20__i, f |-> {"j", "r"}, g |-> {"combo", "enum", "field", "gen"}],
  [n |-> "Vec<Ke20<u8>>", t |-> [k |-> "seq", t |-> T_Ke20__i], f |-> {"j", "r"}, g |-> {"combo", "inlist"}],
  [n |-> "Ke21<u8>", t |-> T_Ke21__i, f |-> {"j", "r"}, g |-> {"combo", "enum", "field", "gen"}],
  [n |-> "Vec<Ke21<u8>>", t |-> [k |-> "seq", t |-> T_Ke21__i], f |-> {"j", "r"}, g |-> {"combo", "inlist"}],
  [n |-> "Ke22", t |-> T_Ke22, f |-> {"j"}, g |-> {"combo", "enum", "field"}],
  [n |-> "Vec<Ke22>", t |-> [k |-> "seq", t |-> T_Ke22], f |-> {"j"}, g |-> {"combo", "inlist"}],
  [n |-> "Ke23", t |-> T_Ke23, f |-> {"j"}, g |-> {"combo", "enum", "field"}],
  [n |-> "Vec<Ke23>", t |-> [k |-> "seq", t |-> T_Ke23], f |-> {"j"}, g |-> {"combo", "inlist"}],
  [n |-> "Ke24<u8>", t |-> T_Ke24__i, f |-> {"j", "r"}, g |-> {"combo", "enum", "field", "gen"}],
  [n |-> "Vec<Ke24<u8>>", t |-> [k |-> "seq", t |-> T_Ke24__i], f |-> {"j", "r"}, g |-> {"combo", "inlist"}],
  [n |-> "Ke25", t |-> T_Ke25, f |-> {"j", "r"}, g |-> {"combo", "enum", "field"}],
  [n |-> "Vec<Ke25>", t |-> [k |-> "seq", t |-> T_Ke25], f |-> {"j", "r"}, g |-> {"combo", "inlist"}],
  [n |-> "Ke26", t |-> T_Ke26, f |-> {"j"}, g |-> {"combo", "enum", "field"}],
  [n |-> "Vec<Ke26>", t |-> [k |-> "seq", t |-> T_Ke26], f |-> {"j"}, g |-> {"combo", "inlist"}],
  [n |-> "Ke27", t |-> T_Ke27, f |-> {"j", "r"}, g |-> {"combo", "enum", "field"}],
  [n |-> "Vec<Ke27>", t |-> [k |-> "seq", t |-> T_Ke27], f |-> {"j", "r"}, g |-> {"combo", "inlist"}],
  [n |-> "Ke28", t |-> T_Ke28, f |-> {"b", "j"}, g |-> {"combo", "enum", "field"}],
  [n |-> "Vec<Ke28>", t |-> [k |-> "seq", t |-> T_Ke28], f |-> {"b", "j"}, g |-> {"combo", "inlist"}],
  [n |-> "Ke29", t |-> T_Ke29, f |-> {"j", "r"}, g |-> {"combo", "enum", "field"}],
  [n |-> "Vec<Ke29>", t |-> [k |-> "seq", t |-> T_Ke29], f |-> {"j", "r"}, g |-> {"combo", "inlist"}],
  [n |-> "Ke30", t |-> T_Ke30, f |-> {"j", "r"}, g |-> {"combo", "enum", "field"}],
  [n |-> "Vec<Ke30>", t |-> [k |-> "seq", t |-> T_Ke30], f |-> {"j", "r"}, g |-> {"combo", "inlist"}],
  [n |-> "Ke31", t |-> T_Ke31, f |-> {"j", "r"}, g |-> {"combo", "enum", "field"}],
  [n |-> "Vec<Ke31>", t |-> [k |-> "seq", t |-> T_Ke31], f |-> {"j", "r"}, g |-> {"combo", "inlist"}],
  [n |-> "Ke32", t |-> T_Ke32, f |-> {"j", "r"}, g |-> {"combo", "enum", "field"}],
  [n |-> "Vec<Ke32>", t |-> [k |-> "seq", t |-> T_Ke32], f |-> {"j", "r"}, g |-> {"combo", "inlist"}],
  [n |-> "Ke33", t |-> T_Ke33, f |-> {"j", "r"}, g |-> {"combo", "enum", "field"}],
  [n |-> "Vec<Ke33>", t |-> [k |-> "seq", t |-> T_Ke33], f |-> {"j", "r"}, g |-> {"combo", "inlist"}],
  [n |-> "Ke34<u8>", t |-> T_Ke34__i, f |-> {"j", "r"}, g |-> {"combo", "enum", "field", "gen"}],
  [n |-> "Vec<Ke34<u8>>", t |-> [k |-> "seq", t |-> T_Ke34__i], f |-> {"j", "r"}, g |-> {"combo", "inlist"}],
  [n |-> "Ke35", t |-> T_Ke35, f |-> {"j"}, g |-> {"combo", "enum", "field"}],
  [n |-> "Vec<Ke35>", t |-> [k |-> "seq", t |-> T_Ke35], f |-> {"j"}, g |-> {"combo", "inlist"}],
  [n |-> "Kt0<u8>", t |-> T_Kt0__i, f |-> {"b", "j", "r"}, g |-> {"arity", "combo", "gen", "struct"}],
  [n |-> "Kt1", t |-> T_Kt1, f |-> {"b"}, g |-> {"arity", "combo", "proxy", "struct"}],
  [n |-> "Kt2<u8>", t |-> T_Kt2__i, f |-> {"b", "j", "r"}, g |-> {"arity", "combo", "gen", "struct"}],
  [n |-> "Kt3", t |-> T_Kt3, f |-> {"b"}, g |-> {"arity", "combo", "proxy", "struct"}],
  [n |-> "Kt4", t |-> T_Kt4, f |-> {"b", "j", "r"}, g |-> {"arity", "combo", "struct"}],
  [n |-> "Kt5", t |-> T_Kt5, f |-> {"b"}, g |-> {"arity", "combo", "proxy", "struct"}],
  [n |-> "Kt6<u8>", t |-> T_Kt6__i, f |-> {"b"}, g |-> {"arity", "combo", "gen", "proxy", "struct"}],
  [n |-> "Kt7<u8>", t |-> T_Kt7__i, f |-> {"b"}, g |-> {"arity", "combo", "gen", "proxy", "struct"}],
  [n |-> "Kt8", t |-> T_Kt8, f |-> {"b", "j", "r"}, g |-> {"arity", "combo", "struct"}],
  [n |-> "Kt9<u8>", t |-> T_Kt9__i, f |-> {"b"}, g |-> {"arity", "combo", "gen", "proxy", "struct"}],
  [n |-> "Kt10<u8>", t |-> T_Kt10__i, f |-> {"b", "j", "r"}, g |-> {"arity", "combo", "gen", "struct"}],
  [n |-> "Kt11<u8>", t |-> T_Kt11__i, f |-> {"b"}, g |-> {"arity", "combo", "gen", "proxy", "struct"}],
  [n |-> "Kt12", t |-> T_Kt12, f |-> {"b", "j", "r"}, g |-> {"arity", "combo", "struct"}],
  [n |-> "Kt13<u8>", t |-> T_Kt13__i, f |-> {"b"}, g |-> {"arity", "combo", "gen", "proxy", "struct"}],
  [n |-> "Kt14", t |-> T_Kt14, f |-> {"b"}, g |-> {"arity", "combo", "proxy", "struct"}],
  [n |-> "Kt15", t |-> T_Kt15, f |-> {"b"}, g |-> {"arity", "combo", "proxy", "struct"}],
  [n |-> "Kt16<u8>", t |-> T_Kt16__i, f |-> {"b", "j", "r"}, g |-> {"arity", "combo", "gen", "struct"}],
  [n |-> "Kt17<u8>", t |-> T_Kt17__i, f |-> {"b"}, g |-> {"arity", "combo", "gen", "proxy", "struct"}],
  [n |-> "Kt18<u8>", t |-> T_Kt18__i, f |-> {"b"}, g |-> {"arity", "combo", "gen", "proxy", "struct"}],
  [n |-> "Kt19<u8>", t |-> T_Kt19__i, f |-> {"b", "j", "r"}, g |-> {"arity", "combo", "gen", "struct"}],
  [n |-> "Kt20<u8>", t |-> T_Kt20__i, f |-> {"b"}, g |-> {"arity", "combo", "gen", "proxy", "struct"}],
  [n |-> "Kt21<u8>", t |-> T_Kt21__i, f |-> {"b"}, g |-> {"arity", "combo", "gen", "proxy", "struct"}],
  [n |-> "Kt22<u8>", t |-> T_Kt22__i, f |-> {"b", "j", "r"}, g |-> {"arity", "combo", "gen", "struct"}],
  [n |-> "Kt23", t |-> T_Kt23, f |-> {"b"}, g |-> {"arity", "combo", "proxy", "struct"}],
  [n |-> "Kt24<u8>", t |-> T_Kt24__i, f |-> {"b", "j", "r"}, g |-> {"arity", "combo", "gen", "struct"}],
  [n |-> "Kt25", t |-> T_Kt25, f |-> {"b"}, g |-> {"arity", "combo", "proxy", "struct"}],
  [n |-> "Kt26", t |-> T_Kt26, f |-> {"b"}, g |-> {"arity", "combo", "proxy", "struct"}],
  [n |-> "Kt27<u8>", t |-> T_Kt27__i, f |-> {"b"}, g |-> {"arity", "combo", "gen", "proxy", "struct"}],
  [n |-> "(String, (u8, String, bool, i64))", t |-> [k |-> "tup", ts |-> <<T_String, [k |-> "tup", ts |-> <<T_u8, T_String, T_bool, T_i64>>]>>], f |-> {"b", "j", "r"}, g |-> {"arity", "coll", "combo"}],
  [n |-> "Vec<[u8; 3]>", t |-> [k |-> "seq", t |-> [k |-> "arr", n |-> 3, t |-> T_u8]], f |-> {"b", "j", "r"}, g |-> {"arity", "coll", "combo"}],
  [n |-> "(u8, Box<New>, bool, String)", t |-> [k |-> "tup", ts |-> <<T_u8, T_New, T_bool, T_String>>], f |-> {"b", "j", "r"}, g |-> {"arity", "coll", "combo"}],
  [n |-> "LinkedList<BTreeMap<String, bool>>", t |-> [k |-> "seq", t |-> [k |-> "map", h |-> FALSE, kt |-> T_String, vt |-> T_bool]], f |-> {"b", "j", "r"}, g |-> {"coll", "combo"}],
  [n |-> "[HashMap<String, i64>; 2]", t |-> [k |-> "arr", n |-> 2, t |-> [k |-> "map", h |-> TRUE, kt |-> T_String, vt |-> T_i64]], f |-> {"b", "j", "r"}, g |-> {"arity", "coll", "combo", "std"}],
  [n |-> "((String, i64), u8)", t |-> [k |-> "tup", ts |-> <<[k |-> "tup", ts |-> <<T_String, T_i64>>], T_u8>>], f |-> {"b", "j", "r"}, g |-> {"arity", "coll", "combo"}],
  [n |-> "BTreeMap<String, LinkedList<i64>>", t |-> [k |-> "map", h |-> FALSE, kt |-> T_String, vt |-> [k |-> "seq", t |-> T_i64]], f |-> {"b", "j", "r"}, g |-> {"coll", "combo"}],
  [n |-> "BTreeMap<u16, Option<Duration>>", t |-> [k |-> "map", h |-> FALSE, kt |-> T_u16, vt |-> [k |-> "opt", t |-> T_dur]], f |-> {"b", "j", "r"}, g |-> {"coll", "combo", "opt", "time"}],
  [n |-> "(u8, String, bool, BTreeMap<u16, bool>)", t |-> [k |-> "tup", ts |-> <<T_u8, T_String, T_bool, [k |-> "map", h |-> FALSE, kt |-> T_u16, vt |-> T_bool]>>], f |-> {"b", "j", "r"}, g |-> {"arity", "coll", "combo"}],
  [n |-> "Option<BTreeMap<(), u8>>", t |-> [k |-> "opt", t |-> [k |-> "map", h |-> FALSE, kt |-> T_unit, vt |-> T_u8]], f |-> {"b", "j", "r"}, g |-> {"coll", "combo", "opt"}],
  [n |-> "HashMap<String, (New, u8)>", t |-> [k |-> "map", h |-> TRUE, kt |-> T_String, vt |-> [k |-> "tup", ts |-> <<T_New, T_u8>>]], f |-> {"b", "j", "r"}, g |-> {"arity", "coll", "combo", "std"}],
  [n |-> "BTreeSet<(u8, (), bool, String)>", t |-> [k |-> "set", h |-> FALSE, t |-> [k |-> "tup", ts |-> <<T_u8, T_unit, T_bool, T_String>>]], f |-> {"b", "j", "r"}, g |-> {"arity", "coll", "combo"}],
  [n |-> "[[f64; 2]; 3]", t |-> [k |-> "arr", n |-> 3, t |-> [k |-> "arr", n |-> 2, t |-> T_f64]], f |-> {"b", "j", "r"}, g |-> {"arity", "coll", "combo"}],
  [n |-> "HashSet<[Uni; 3]>", t |-> [k |-> "set", h |-> TRUE, t |-> [k |-> "arr", n |-> 3, t |-> T_Uni]], f |-> {"b", "j", "r"}, g |-> {"arity", "coll", "combo", "enum", "std"}],
  [n |-> "BTreeMap<Vec<String>, u8>", t |-> [k |-> "map", h |-> FALSE, kt |-> [k |-> "seq", t |-> T_String], vt |-> T_u8], f |-> {"b", "j", "r"}, g |-> {"coll", "combo"}],
  [n |-> "[BTreeSet<()>; 3]", t |-> [k |-> "arr", n |-> 3, t |-> [k |-> "set", h |-> FALSE, t |-> T_unit]], f |-> {"b", "j", "r"}, g |-> {"arity", "coll", "combo"}],
  [n |-> "HashMap<String, HashSet<i64>>", t |-> [k |-> "map", h |-> TRUE, kt |-> T_String, vt |-> [k |-> "set", h |-> TRUE, t |-> T_i64]], f |-> {"b", "j", "r"}, g |-> {"coll", "combo", "std"}],
  [n |-> "LinkedList<[Plain; 3]>", t |-> [k |-> "seq", t |-> [k |-> "arr", n |-> 3, t |-> T_Plain]], f |-> {"b", "j", "r"}, g |-> {"arity", "coll", "combo"}],
  [n |-> "BTreeMap<u16, (String, String)>", t |-> [k |-> "map", h |-> FALSE, kt |-> T_u16, vt |-> [k |-> "tup", ts |-> <<T_String, T_String>>]], f |-> {"b", "j", "r"}, g |-> {"arity", "coll", "combo"}],
  [n |-> "(String, (u8, u8))", t |-> [k |-> "tup", ts |-> <<T_String, [k |-> "tup", ts |-> <<T_u8, T_u8>>]>>], f |-> {"b", "j", "r"}, g |-> {"arity", "coll", "combo"}],
  [n |-> "BTreeMap<u16, [i64; 3]>", t |-> [k |-> "map", h |-> FALSE, kt |-> T_u16, vt |-> [k |-> "arr", n |-> 3, t |-> T_i64]], f |-> {"b", "j", "r"}, g |-> {"arity", "coll", "combo"}],
  [n |-> "Vec<(u8, String, bool, ())>", t |-> [k |-> "seq", t |-> [k |-> "tup", ts |-> <<T_u8, T_String, T_bool, T_unit>>]], f |-> {"b", "j", "r"}, g |-> {"arity", "coll", "combo"}],
  [n |-> "[(u8, String, bool, New); 2]", t |-> [k |-> "arr", n |-> 2, t |-> [k |-> "tup", ts |-> <<T_u8, T_String, T_bool, T_New>>]], f |-> {"b", "j", "r"}, g |-> {"arity", "coll", "combo"}],
  [n |-> "(u8, String, bool, BTreeMap<String, String>)", t |-> [k |-> "tup", ts |-> <<T_u8, T_String, T_bool, [k |-> "map", h |-> FALSE, kt |-> T_String, vt |-> T_String]>>], f |-> {"b", "j", "r"}, g |-> {"arity", "coll", "combo"}],
  [n |-> "BTreeMap<u16, BTreeMap<String, f64>>", t |-> [k |-> "map", h |-> FALSE, kt |-> T_u16, vt |-> [k |-> "map", h |-> FALSE, kt |-> T_String, vt |-> T_f64]], f |-> {"b", "j", "r"}, g |-> {"coll", "combo"}],
  [n |-> "[LinkedList<Uni>; 2]", t |-> [k |-> "arr", n |-> 2, t |-> [k |-> "seq", t |-> T_Uni]], f |-> {"b", "j", "r"}, g |-> {"arity", "coll", "combo", "enum"}],
  [n |-> "(u8, [u8; 2], bool, String)", t |-> [k |-> "tup", ts |-> <<T_u8, [k |-> "arr", n |-> 2, t |-> T_u8], T_bool, T_String>>], f |-> {"b", "j", "r"}, g |-> {"arity", "coll", "combo"}],
  [n |-> "[Option<Plain>; 3]", t |-> [k |-> "arr", n |-> 3, t |-> [k |-> "opt", t |-> T_Plain]], f |-> {"b", "j", "r"}, g |-> {"arity", "coll", "combo", "opt"}],
  [n |-> "Option<Vec<f64>>", t |-> [k |-> "opt", t |-> [k |-> "seq", t |-> T_f64]], f |-> {"b", "j", "r"}, g |-> {"coll", "combo", "opt"}],
  [n |-> "BTreeMap<String, [New; 3]>", t |-> [k |-> "map", h |-> FALSE, kt |-> T_String, vt |-> [k |-> "arr", n |-> 3, t |-> T_New]], f |-> {"b", "j", "r"}, g |-> {"arity", "coll", "combo"}],
  [n |-> "BTreeMap<(String, u8), u8>", t |-> [k |-> "map", h |-> FALSE, kt |-> [k |-> "tup", ts |-> <<T_String, T_u8>>], vt |-> T_u8], f |-> {"b", "j", "r"}, g |-> {"arity", "coll", "combo"}],
  [n |-> "BTreeSet<Option<bool>>", t |-> [k |-> "set", h |-> FALSE, t |-> [k |-> "opt", t |-> T_bool]], f |-> {"b", "j", "r"}, g |-> {"coll", "combo", "opt"}],
  [n |-> "(String, (String, Duration))", t |-> [k |-> "tup", ts |-> <<T_String, [k |-> "tup", ts |-> <<T_String, T_dur>>]>>], f |-> {"b", "j", "r"}, g |-> {"arity", "coll", "combo", "time"}],
  [n |-> "Vec<Vec<New>>", t |-> [k |-> "seq", t |-> [k |-> "seq", t |-> T_New]], f |-> {"b", "j", "r"}, g |-> {"coll", "combo"}],
  [n |-> "LinkedList<(String, Uni)>", t |-> [k |-> "seq", t |-> [k |-> "tup", ts |-> <<T_String, T_Uni>>]], f |-> {"b", "j", "r"}, g |-> {"arity", "coll", "combo", "enum"}],
  [n |-> "LinkedList<LinkedList<()>>", t |-> [k |-> "seq", t |-> [k |-> "seq", t |-> T_unit]], f |-> {"b", "j", "r"}, g |-> {"coll", "combo"}],
  [n |-> "BTreeSet<Vec<Uni>>", t |-> [k |-> "set", h |-> FALSE, t |-> [k |-> "seq", t |-> T_Uni]], f |-> {"b", "j", "r"}, g |-> {"coll", "combo", "enum"}],
  [n |-> "Vec<BTreeMap<String, Uni>>", t |-> [k |-> "seq", t |-> [k |-> "map", h |-> FALSE, kt |-> T_String, vt |-> T_Uni]], f |-> {"b", "j", "r"}, g |-> {"coll", "combo", "enum"}],
  [n |-> "HashMap<String, (u8, String, bool, String)>", t |-> [k |-> "map", h |-> TRUE, kt |-> T_String, vt |-> [k |-> "tup", ts |-> <<T_u8, T_String, T_bool, T_String>>]], f |-> {"b", "j", "r"}, g |-> {"arity", "coll", "combo", "std"}],
  [n |-> "Option<[New; 2]>", t |-> [k |-> "opt", t |-> [k |-> "arr", n |-> 2, t |-> T_New]], f |-> {"b", "j", "r"}, g |-> {"arity", "coll", "combo", "opt"}],
  [n |-> "(u8, HashMap<String, Option<String>>, bool, String)", t |-> [k |-> "tup", ts |-> <<T_u8, [k |-> "map", h |-> TRUE, kt |-> T_String, vt |-> [k |-> "opt", t |-> T_String]], T_bool, T_String>>], f |-> {"b", "j", "r"}, g |-> {"arity", "coll", "combo", "opt", "std"}],
  [n |-> "(u8, (String, f64), bool, String)", t |-> [k |-> "tup", ts |-> <<T_u8, [k |-> "tup", ts |-> <<T_String, T_f64>>], T_bool, T_String>>], f |-> {"b", "j", "r"}, g |-> {"arity", "coll", "combo"}],
  [n |-> "[BTreeMap<Uni, u8>; 3]", t |-> [k |-> "arr", n |-> 3, t |-> [k |-> "map", h |-> FALSE, kt |-> T_Uni, vt |-> T_u8]], f |-> {"b", "j", "r"}, g |-> {"arity", "coll", "combo", "enum"}],
  [n |-> "(u8, BTreeMap<i64, u8>, bool, String)", t |-> [k |-> "tup", ts |-> <<T_u8, [k |-> "map", h |-> FALSE, kt |-> T_i64, vt |-> T_u8], T_bool, T_String>>], f |-> {"b", "j", "r"}, g |-> {"arity", "coll", "combo"}],
  [n |-> "[LinkedList<Option<String>>; 3]", t |-> [k |-> "arr", n |-> 3, t |-> [k |-> "seq", t |-> [k |-> "opt", t |-> T_String]]], f |-> {"b", "j", "r"}, g |-> {"arity", "coll", "combo", "opt"}],
  [n |-> "[HashSet<String>; 2]", t |-> [k |-> "arr", n |-> 2, t |-> [k |-> "set", h |-> TRUE, t |-> T_String]], f |-> {"b", "j", "r"}, g |-> {"arity", "coll", "combo", "std"}],
  [n |-> "BTreeMap<String, HashMap<String, Uni>>", t |-> [k |-> "map", h |-> FALSE, kt |-> T_String, vt |-> [k |-> "map", h |-> TRUE, kt |-> T_String, vt |-> T_Uni]], f |-> {"b", "j", "r"}, g |-> {"coll", "combo", "enum", "std"}],
  [n |-> "BTreeMap<[(); 2], u8>", t |-> [k |-> "map", h |-> FALSE, kt |-> [k |-> "arr", n |-> 2, t |-> T_unit], vt |-> T_u8], f |-> {"b", "j", "r"}, g |-> {"arity", "coll", "combo"}],
  [n |-> "[HashSet<bool>; 3]", t |-> [k |-> "arr", n |-> 3, t |-> [k |-> "set", h |-> TRUE, t |-> T_bool]], f |-> {"b", "j", "r"}, g |-> {"arity", "coll", "combo", "std"}],
  [n |-> "HashMap<String, Box<Option<String>>>", t |-> [k |-> "map", h |-> TRUE, kt |-> T_String, vt |-> [k |-> "opt", t |-> T_String]], f |-> {"b", "j", "r"}, g |-> {"coll", "combo", "opt", "std"}],
  [n |-> "BTreeMap<u16, HashSet<u8>>", t |-> [k |-> "map", h |-> FALSE, kt |-> T_u16, vt |-> [k |-> "set", h |-> TRUE, t |-> T_u8]], f |-> {"b", "j", "r"}, g |-> {"coll", "combo", "std"}],
  [n |-> "LinkedList<(u8, String, bool, u8)>", t |-> [k |-> "seq", t |-> [k |-> "tup", ts |-> <<T_u8, T_String, T_bool, T_u8>>]], f |-> {"b", "j", "r"}, g |-> {"arity", "coll", "combo"}],
  [n |-> "(u8, String, bool, Option<New>)", t |-> [k |-> "tup", ts |-> <<T_u8, T_String, T_bool, [k |-> "opt", t |-> T_New]>>], f |-> {"b", "j", "r"}, g |-> {"arity", "coll", "combo", "opt"}],
  [n |-> "Option<BTreeSet<bool>>", t |-> [k |-> "opt", t |-> [k |-> "set", h |-> FALSE, t |-> T_bool]], f |-> {"b", "j", "r"}, g |-> {"coll", "combo", "opt"}],
  [n |-> "(u8, Vec<bool>, bool, String)", t |-> [k |-> "tup", ts |-> <<T_u8, [k |-> "seq", t |-> T_bool], T_bool, T_String>>], f |-> {"b", "j", "r"}, g |-> {"arity", "coll", "combo"}],
  [n |-> "Option<(u8, String, bool, Uni)>", t |-> [k |-> "opt", t |-> [k |-> "tup", ts |-> <<T_u8, T_String, T_bool, T_Uni>>]], f |-> {"b", "j", "r"}, g |-> {"arity", "coll", "combo", "enum", "opt"}],
  [n |-> "(Box<Duration>, u8)", t |-> [k |-> "tup", ts |-> <<T_dur, T_u8>>], f |-> {"b", "j", "r"}, g |-> {"arity", "coll", "combo", "time"}],
  [n |-> "(u8, String, bool, Box<Option<bool>>)", t |-> [k |-> "tup", ts |-> <<T_u8, T_String, T_bool, [k |-> "opt", t |-> T_bool]>>], f |-> {"b", "j", "r"}, g |-> {"arity", "coll", "combo", "opt"}],
  [n |-> "HashMap<String, LinkedList<Option<bool>>>", t |-> [k |-> "map", h |-> TRUE, kt |-> T_String, vt |-> [k |-> "seq", t |-> [k |-> "opt", t |-> T_bool]]], f |-> {"b", "j", "r"}, g |-> {"coll", "combo", "opt", "std"}],
  [n |-> "(u8, BTreeMap<u16, ()>, bool, String)", t |-> [k |-> "tup", ts |-> <<T_u8, [k |-> "map", h |-> FALSE, kt |-> T_u16, vt |-> T_unit], T_bool, T_String>>], f |-> {"b", "j", "r"}, g |-> {"arity", "coll", "combo"}],
  [n |-> "HashMap<String, Vec<u8>>", t |-> [k |-> "map", h |-> TRUE, kt |-> T_String, vt |-> [k |-> "seq", t |-> T_u8]], f |-> {"b", "j", "r"}, g |-> {"coll", "combo", "std"}],
  [n |-> "[BTreeMap<u16, i64>; 3]", t |-> [k |-> "arr", n |-> 3, t |-> [k |-> "map", h |-> FALSE, kt |-> T_u16, vt |-> T_i64]], f |-> {"b", "j", "r"}, g |-> {"arity", "coll", "combo"}],
  [n |-> "Vec<LinkedList<Plain>>", t |-> [k |-> "seq", t |-> [k |-> "seq", t |-> T_Plain]], f |-> {"b", "j", "r"}, g |-> {"coll", "combo"}],
  [n |-> "(u8, String, bool, (u8, Uni, bool, String))", t |-> [k |-> "tup", ts |-> <<T_u8, T_String, T_bool, [k |-> "tup", ts |-> <<T_u8, T_Uni, T_bool, T_String>>]>>], f |-> {"b", "j", "r"}, g |-> {"arity", "coll", "combo", "enum"}],
  [n |-> "BTreeMap<String, (Duration, u8)>", t |-> [k |-> "map", h |-> FALSE, kt |-> T_String, vt |-> [k |-> "tup", ts |-> <<T_dur, T_u8>>]], f |-> {"b", "j", "r"}, g |-> {"arity", "coll", "combo", "time"}],
  [n |-> "(BTreeSet<Option<bool>>, u8)", t |-> [k |-> "tup", ts |-> <<[k |-> "set", h |-> FALSE, t |-> [k |-> "opt", t |-> T_bool]], T_u8>>], f |-> {"b", "j", "r"}, g |-> {"arity", "coll", "combo", "opt"}],
  [n |-> "HashMap<String, BTreeMap<String, Duration>>", t |-> [k |-> "map", h |-> TRUE, kt |-> T_String, vt |-> [k |-> "map", h |-> FALSE, kt |-> T_String, vt |-> T_dur]], f |-> {"b", "j", "r"}, g |-> {"coll", "combo", "std", "time"}],
  [n |-> "LinkedList<(Option<bool>, u8)>", t |-> [k |-> "seq", t |-> [k |-> "tup", ts |-> <<[k |-> "opt", t |-> T_bool], T_u8>>]], f |-> {"b", "j", "r"}, g |-> {"arity", "coll", "combo", "opt"}],
  [n |-> "Vec<Option<String>>", t |-> [k |-> "seq", t |-> [k |-> "opt", t |-> T_String]], f |-> {"b", "j", "r"}, g |-> {"coll", "combo", "opt"}],
  [n |-> "[(u8, Plain, bool, String); 2]", t |-> [k |-> "arr", n |-> 2, t |-> [k |-> "tup", ts |-> <<T_u8, T_Plain, T_bool, T_String>>]], f |-> {"b", "j", "r"}, g |-> {"arity", "coll", "combo"}],
  [n |-> "HashMap<String, (u8, String, bool, bool)>", t |-> [k |-> "map", h |-> TRUE, kt |-> T_String, vt |-> [k |-> "tup", ts |-> <<T_u8, T_String, T_bool, T_bool>>]], f |-> {"b", "j", "r"}, g |-> {"arity", "coll", "combo", "std"}],
  [n |-> "BTreeMap<String, (String, Plain)>", t |-> [k |-> "map", h |-> FALSE, kt |-> T_String, vt |-> [k |-> "tup", ts |-> <<T_String, T_Plain>>]], f |-> {"b", "j", "r"}, g |-> {"arity", "coll", "combo"}],
  [n |-> "[Box<bool>; 2]", t |-> [k |-> "arr", n |-> 2, t |-> T_bool], f |-> {"b", "j", "r"}, g |-> {"arity", "coll", "combo"}],
  [n |-> "BTreeMap<u16, BTreeMap<bool, u8>>", t |-> [k |-> "map", h |-> FALSE, kt |-> T_u16, vt |-> [k |-> "map", h |-> FALSE, kt |-> T_bool, vt |-> T_u8]], f |-> {"b", "j", "r"}, g |-> {"coll", "combo"}],
  [n |-> "[Option<u8>; 2]", t |-> [k |-> "arr", n |-> 2, t |-> [k |-> "opt", t |-> T_u8]], f |-> {"b", "j", "r"}, g |-> {"arity", "coll", "combo", "opt"}],
  [n |-> "(Vec<Plain>, u8)", t |-> [k |-> "tup", ts |-> <<[k |-> "seq", t |-> T_Plain], T_u8>>], f |-> {"b", "j", "r"}, g |-> {"arity", "coll", "combo"}],
  [n |-> "HashSet<Box<()>>", t |-> [k |-> "set", h |-> TRUE, t |-> T_unit], f |-> {"b", "j", "r"}, g |-> {"coll", "combo", "std"}],
  [n |-> "BTreeMap<(u8, String, bool, Option<String>), u8>", t |-> [k |-> "map", h |-> FALSE, kt |-> [k |-> "tup", ts |-> <<T_u8, T_String, T_bool, [k |-> "opt", t |-> T_String]>>], vt |-> T_u8], f |-> {"b", "j", "r"}, g |-> {"arity", "coll", "combo", "opt"}],
  [n |-> "(String, BTreeMap<u16, Option<String>>)", t |-> [k |-> "tup", ts |-> <<T_String, [k |-> "map", h |-> FALSE, kt |-> T_u16, vt |-> [k |-> "opt", t |-> T_String]]>>], f |-> {"b", "j", "r"}, g |-> {"arity", "coll", "combo", "opt"}],
  [n |-> "Vec<BTreeMap<u16, Option<bool>>>", t |-> [k |-> "seq", t |-> [k |-> "map", h |-> FALSE, kt |-> T_u16, vt |-> [k |-> "opt", t |-> T_bool]]], f |-> {"b", "j", "r"}, g |-> {"coll", "combo", "opt"}],
  [n |-> "HashMap<String, [Uni; 2]>", t |-> [k |-> "map", h |-> TRUE, kt |-> T_String, vt |-> [k |-> "arr", n |-> 2, t |-> T_Uni]], f |-> {"b", "j", "r"}, g |-> {"arity", "coll", "combo", "enum", "std"}],
  [n |-> "BTreeSet<(u8, String, bool, String)>", t |-> [k |-> "set", h |-> FALSE, t |-> [k |-> "tup", ts |-> <<T_u8, T_String, T_bool, T_String>>]], f |-> {"b", "j", "r"}, g |-> {"arity", "coll", "combo"}],
  [n |-> "((u8, bool, bool, String), u8)", t |-> [k |-> "tup", ts |-> <<[k |-> "tup", ts |-> <<T_u8, T_bool, T_bool, T_String>>], T_u8>>], f |-> {"b", "j", "r"}, g |-> {"arity", "coll", "combo"}],
  [n |-> "(BTreeMap<String, Option<String>>, u8)", t |-> [k |-> "tup", ts |-> <<[k |-> "map", h |-> FALSE, kt |-> T_String, vt |-> [k |-> "opt", t |-> T_String]], T_u8>>], f |-> {"b", "j", "r"}, g |-> {"arity", "coll", "combo", "opt"}],
  [n |-> "HashSet<(u8, u8, bool, String)>", t |-> [k |-> "set", h |-> TRUE, t |-> [k |-> "tup", ts |-> <<T_u8, T_u8, T_bool, T_String>>]], f |-> {"b", "j", "r"}, g |-> {"arity", "coll", "combo", "std"}],
  [n |-> "(u8, (u8, String, bool, Duration), bool, String)", t |-> [k |-> "tup", ts |-> <<T_u8, [k |-> "tup", ts |-> <<T_u8, T_String, T_bool, T_dur>>], T_bool, T_String>>], f |-> {"b", "j", "r"}, g |-> {"arity", "coll", "combo", "time"}],
  [n |-> "LinkedList<HashSet<Option<String>>>", t |-> [k |-> "seq", t |-> [k |-> "set", h |-> TRUE, t |-> [k |-> "opt", t |-> T_String]]], f |-> {"b", "j", "r"}, g |-> {"coll", "combo", "opt", "std"}],
  [n |-> "HashSet<[String; 2]>", t |-> [k |-> "set", h |-> TRUE, t |-> [k |-> "arr", n |-> 2, t |-> T_String]], f |-> {"b", "j", "r"}, g |-> {"arity", "coll", "combo", "std"}],
  [n |-> "(u8, String, bool, [(); 3])", t |-> [k |-> "tup", ts |-> <<T_u8, T_String, T_bool, [k |-> "arr", n |-> 3, t |-> T_unit]>>], f |-> {"b", "j", "r"}, g |-> {"arity", "coll", "combo"}],
  [n |-> "(String, [Option<bool>; 3])", t |-> [k |-> "tup", ts |-> <<T_String, [k |-> "arr", n |-> 3, t |-> [k |-> "opt", t |-> T_bool]]>>], f |-> {"b", "j", "r"}, g |-> {"arity", "coll", "combo", "opt"}],
  [n |-> "(String, BTreeMap<String, ()>)", t |-> [k |-> "tup", ts |-> <<T_String, [k |-> "map", h |-> FALSE, kt |-> T_String, vt |-> T_unit]>>], f |-> {"b", "j", "r"}, g |-> {"arity", "coll", "combo"}],
  [n |-> "(BTreeMap<u16, f64>, u8)", t |-> [k |-> "tup", ts |-> <<[k |-> "map", h |-> FALSE, kt |-> T_u16, vt |-> T_f64], T_u8>>], f |-> {"b", "j", "r"}, g |-> {"arity", "coll", "combo"}],
  [n |-> "(u8, String, bool, Vec<i64>)", t |-> [k |-> "tup", ts |-> <<T_u8, T_String, T_bool, [k |-> "seq", t |-> T_i64]>>], f |-> {"b", "j", "r"}, g |-> {"arity", "coll", "combo"}],
  [n |-> "HashMap<String, Option<f64>>", t |-> [k |-> "map", h |-> TRUE, kt |-> T_String, vt |-> [k |-> "opt", t |-> T_f64]], f |-> {"b", "j", "r"}, g |-> {"coll", "combo", "opt", "std"}],
  [n |-> "Vec<(u8, Duration, bool, String)>", t |-> [k |-> "seq", t |-> [k |-> "tup", ts |-> <<T_u8, T_dur, T_bool, T_String>>]], f |-> {"b", "j", "r"}, g |-> {"arity", "coll", "combo", "time"}],
  [n |-> "BTreeMap<String, BTreeMap<u16, u8>>", t |-> [k |-> "map", h |-> FALSE, kt |-> T_String, vt |-> [k |-> "map", h |-> FALSE, kt |-> T_u16, vt |-> T_u8]], f |-> {"b", "j", "r"}, g |-> {"coll", "combo"}],
  [n |-> "HashSet<(String, bool)>", t |-> [k |-> "set", h |-> TRUE, t |-> [k |-> "tup", ts |-> <<T_String, T_bool>>]], f |-> {"b", "j", "r"}, g |-> {"arity", "coll", "combo", "std"}],
  [n |-> "LinkedList<HashMap<String, Duration>>", t |-> [k |-> "seq", t |-> [k |-> "map", h |-> TRUE, kt |-> T_String, vt |-> T_dur]], f |-> {"b", "j", "r"}, g |-> {"coll", "combo", "std", "time"}],
  [n |-> "Vec<(i64, u8)>", t |-> [k |-> "seq", t |-> [k |-> "tup", ts |-> <<T_i64, T_u8>>]], f |-> {"b", "j", "r"}, g |-> {"arity", "coll", "combo"}],
  [n |-> "Vec<HashMap<String, bool>>", t |-> [k |-> "seq", t |-> [k |-> "map", h |-> TRUE, kt |-> T_String, vt |-> T_bool]], f |-> {"b", "j", "r"}, g |-> {"coll", "combo", "std"}],
  [n |-> "(u8, (Uni, u8), bool, String)", t |-> [k |-> "tup", ts |-> <<T_u8, [k |-> "tup", ts |-> <<T_Uni, T_u8>>], T_bool, T_String>>], f |-> {"b", "j", "r"}, g |-> {"arity", "coll", "combo", "enum"}],
  [n |-> "(String, Option<Uni>)", t |-> [k |-> "tup", ts |-> <<T_String, [k |-> "opt", t |-> T_Uni]>>], f |-> {"b", "j", "r"}, g |-> {"arity", "coll", "combo", "enum", "opt"}],
  [n |-> "[(String, Option<String>); 2]", t |-> [k |-> "arr", n |-> 2, t |-> [k |-> "tup", ts |-> <<T_String, [k |-> "opt", t |-> T_String]>>]], f |-> {"b", "j", "r"}, g |-> {"arity", "coll", "combo", "opt"}],
  [n |-> "[Vec<Option<bool>>; 3]", t |-> [k |-> "arr", n |-> 3, t |-> [k |-> "seq", t |-> [k |-> "opt", t |-> T_bool]]], f |-> {"b", "j", "r"}, g |-> {"arity", "coll", "combo", "opt"}],
  [n |-> "(u8, String, bool, BTreeSet<Option<String>>)", t |-> [k |-> "tup", ts |-> <<T_u8, T_String, T_bool, [k |-> "set", h |-> FALSE, t |-> [k |-> "opt", t |-> T_String]]>>], f |-> {"b", "j", "r"}, g |-> {"arity", "coll", "combo", "opt"}],
  [n |-> "(u8, String, bool, (f64, u8))", t |-> [k |-> "tup", ts |-> <<T_u8, T_String, T_bool, [k |-> "tup", ts |-> <<T_f64, T_u8>>]>>], f |-> {"b", "j", "r"}, g |-> {"arity", "coll", "combo"}],
  [n |-> "BTreeMap<String, [bool; 2]>", t |-> [k |-> "map", h |-> FALSE, kt |-> T_String, vt |-> [k |-> "arr", n |-> 2, t |-> T_bool]], f |-> {"b", "j", "r"}, g |-> {"arity", "coll", "combo"}],
  [n |-> "(String, LinkedList<New>)", t |-> [k |-> "tup", ts |-> <<T_String, [k |-> "seq", t |-> T_New]>>], f |-> {"b", "j", "r"}, g |-> {"arity", "coll", "combo"}],
  [n |-> "Option<BTreeMap<u16, Duration>>", t |-> [k |-> "opt", t |-> [k |-> "map", h |-> FALSE, kt |-> T_u16, vt |-> T_dur]], f |-> {"b", "j", "r"}, g |-> {"coll", "combo", "opt", "time"}],
  [n |-> "BTreeMap<(u8, Option<bool>, bool, String), u8>", t |-> [k |-> "map", h |-> FALSE, kt |-> [k |-> "tup", ts |-> <<T_u8, [k |-> "opt", t |-> T_bool], T_bool, T_String>>], vt |-> T_u8], f |-> {"b", "j", "r"}, g |-> {"arity", "coll", "combo", "opt"}],
  [n |-> "[HashMap<String, String>; 3]", t |-> [k |-> "arr", n |-> 3, t |-> [k |-> "map", h |-> TRUE, kt |-> T_String, vt |-> T_String]], f |-> {"b", "j", "r"}, g |-> {"arity", "coll", "combo", "std"}],
  [n |-> "Option<(String, Option<bool>)>", t |-> [k |-> "opt", t |-> [k |-> "tup", ts |-> <<T_String, [k |-> "opt", t |-> T_bool]>>]], f |-> {"b", "j", "r"}, g |-> {"arity", "coll", "combo", "opt"}],
  [n |-> "BTreeMap<u16, BTreeSet<Uni>>", t |-> [k |-> "map", h |-> FALSE, kt |-> T_u16, vt |-> [k |-> "set", h |-> FALSE, t |-> T_Uni]], f |-> {"b", "j", "r"}, g |-> {"coll", "combo", "enum"}],
  [n |-> "HashSet<(u8, String, bool, Option<bool>)>", t |-> [k |-> "set", h |-> TRUE, t |-> [k |-> "tup", ts |-> <<T_u8, T_String, T_bool, [k |-> "opt", t |-> T_bool]>>]], f |-> {"b", "j", "r"}, g |-> {"arity", "coll", "combo", "opt", "std"}],
  [n |-> "[Vec<Duration>; 2]", t |-> [k |-> "arr", n |-> 2, t |-> [k |-> "seq", t |-> T_dur]], f |-> {"b", "j", "r"}, g |-> {"arity", "coll", "combo", "time"}],
  [n |-> "(String, HashMap<String, f64>)", t |-> [k |-> "tup", ts |-> <<T_String, [k |-> "map", h |-> TRUE, kt |-> T_String, vt |-> T_f64]>>], f |-> {"b", "j", "r"}, g |-> {"arity", "coll", "combo", "std"}],
  [n |-> "BTreeMap<String, (u8, String, bool, f64)>", t |-> [k |-> "map", h |-> FALSE, kt |-> T_String, vt |-> [k |-> "tup", ts |-> <<T_u8, T_String, T_bool, T_f64>>]], f |-> {"b", "j", "r"}, g |-> {"arity", "coll", "combo"}],
  [n |-> "Option<BTreeMap<String, u8>>", t |-> [k |-> "opt", t |-> [k |-> "map", h |-> FALSE, kt |-> T_String, vt |-> T_u8]], f |-> {"b", "j", "r"}, g |-> {"coll", "combo", "opt"}],
  [n |-> "BTreeMap<u16, (Plain, u8)>", t |-> [k |-> "map", h |-> FALSE, kt |-> T_u16, vt |-> [k |-> "tup", ts |-> <<T_Plain, T_u8>>]], f |-> {"b", "j", "r"}, g |-> {"arity", "coll", "combo"}],
  [n |-> "(u8, String, bool, LinkedList<Duration>)", t |-> [k |-> "tup", ts |-> <<T_u8, T_String, T_bool, [k |-> "seq", t |-> T_dur]>>], f |-> {"b", "j", "r"}, g |-> {"arity", "coll", "combo", "time"}],
  [n |-> "(String, Box<String>)", t |-> [k |-> "tup", ts |-> <<T_String, T_String>>], f |-> {"b", "j", "r"}, g |-> {"arity", "coll", "combo"}],
  [n |-> "BTreeMap<Box<i64>, u8>", t |-> [k |-> "map", h |-> FALSE, kt |-> T_i64, vt |-> T_u8], f |-> {"b", "j", "r"}, g |-> {"coll", "combo"}],
  [n |-> "(u8, BTreeSet<String>, bool, String)", t |-> [k |-> "tup", ts |-> <<T_u8, [k |-> "set", h |-> FALSE, t |-> T_String], T_bool, T_String>>], f |-> {"b", "j", "r"}, g |-> {"arity", "coll", "combo"}],
  [n |-> "LinkedList<BTreeMap<u16, New>>", t |-> [k |-> "seq", t |-> [k |-> "map", h |-> FALSE, kt |-> T_u16, vt |-> T_New]], f |-> {"b", "j", "r"}, g |-> {"coll", "combo"}],
  [n |-> "(HashSet<Uni>, u8)", t |-> [k |-> "tup", ts |-> <<[k |-> "set", h |-> TRUE, t |-> T_Uni], T_u8>>], f |-> {"b", "j", "r"}, g |-> {"arity", "coll", "combo", "enum", "std"}],
  [n |-> "BTreeMap<u16, HashMap<String, Option<bool>>>", t |-> [k |-> "map", h |-> FALSE, kt |-> T_u16, vt |-> [k |-> "map", h |-> TRUE, kt |-> T_String, vt |-> [k |-> "opt", t |-> T_bool]]], f |-> {"b", "j", "r"}, g |-> {"coll", "combo", "opt", "std"}],
  [n |-> "(u8, String, bool, BTreeMap<u8, u8>)", t |-> [k |-> "tup", ts |-> <<T_u8, T_String, T_bool, [k |-> "map", h |-> FALSE, kt |-> T_u8, vt |-> T_u8]>>], f |-> {"b", "j", "r"}, g |-> {"arity", "coll", "combo"}],
  [n |-> "(String, [Plain; 2])", t |-> [k |-> "tup", ts |-> <<T_String, [k |-> "arr", n |-> 2, t |-> T_Plain]>>], f |-> {"b", "j", "r"}, g |-> {"arity", "coll", "combo"}],
  [n |-> "BTreeMap<u16, (u8, Option<String>, bool, String)>", t |-> [k |-> "map", h |-> FALSE, kt |-> T_u16, vt |-> [k |-> "tup", ts |-> <<T_u8, [k |-> "opt", t |-> T_String], T_bool, T_String>>]], f |-> {"b", "j", "r"}, g |-> {"arity", "coll", "combo", "opt"}],
  [n |-> "Option<(String, u8)>", t |-> [k |-> "opt", t |-> [k |-> "tup", ts |-> <<T_String, T_u8>>]], f |-> {"b", "j", "r"}, g |-> {"arity", "coll", "combo", "opt"}],
  [n |-> "(u8, BTreeMap<u16, Vec<Uni>>, bool, String)", t |-> [k |-> "tup", ts |-> <<T_u8, [k |-> "map", h |-> FALSE, kt |-> T_u16, vt |-> [k |-> "seq", t |-> T_Uni]], T_bool, T_String>>], f |-> {"b", "j", "r"}, g |-> {"arity", "coll", "combo", "enum"}],
  [n |-> "[Box<HashSet<String>>; 3]", t |-> [k |-> "arr", n |-> 3, t |-> [k |-> "set", h |-> TRUE, t |-> T_String]], f |-> {"b", "j", "r"}, g |-> {"arity", "coll", "combo", "std"}],
  [n |-> "[HashMap<String, (u8, String, bool, f64)>; 2]", t |-> [k |-> "arr", n |-> 2, t |-> [k |-> "map", h |-> TRUE, kt |-> T_String, vt |-> [k |-> "tup", ts |-> <<T_u8, T_String, T_bool, T_f64>>]]], f |-> {"b", "j", "r"}, g |-> {"arity", "coll", "combo", "std"}],
  [n |-> "HashSet<(u8, String, bool, [Option<String>; 3])>", t |-> [k |-> "set", h |-> TRUE, t |-> [k |-> "tup", ts |-> <<T_u8, T_String, T_bool, [k |-> "arr", n |-> 3, t |-> [k |-> "opt", t |-> T_String]]>>]], f |-> {"b", "j", "r"}, g |-> {"arity", "coll", "combo", "opt", "std"}],
  [n |-> "BTreeMap<u16, Option<BTreeMap<i64, u8>>>", t |-> [k |-> "map", h |-> FALSE, kt |-> T_u16, vt |-> [k |-> "opt", t |-> [k |-> "map", h |-> FALSE, kt |-> T_i64, vt |-> T_u8]]], f |-> {"b", "j", "r"}, g |-> {"coll", "combo", "opt"}],
  [n |-> "(String, Vec<BTreeMap<String, String>>)", t |-> [k |-> "tup", ts |-> <<T_String, [k |-> "seq", t |-> [k |-> "map", h |-> FALSE, kt |-> T_String, vt |-> T_String]]>>], f |-> {"b", "j", "r"}, g |-> {"arity", "coll", "combo"}],
  [n |-> "HashMap<String, BTreeMap<String, BTreeSet<String>>>", t |-> [k |-> "map", h |-> TRUE, kt |-> T_String, vt |-> [k |-> "map", h |-> FALSE, kt |-> T_String, vt |-> [k |-> "set", h |-> FALSE, t |-> T_String]]], f |-> {"b", "j", "r"}, g |-> {"coll", "combo", "std"}],
  [n |-> "Option<[HashMap<String, u8>; 3]>", t |-> [k |-> "opt", t |-> [k |-> "arr", n |-> 3, t |-> [k |-> "map", h |-> TRUE, kt |-> T_String, vt |-> T_u8]]], f |-> {"b", "j", "r"}, g |-> {"arity", "coll", "combo", "opt", "std"}],
  [n |-> "Vec<BTreeSet<Option<Uni>>>", t |-> [k |-> "seq", t |-> [k |-> "set", h |-> FALSE, t |-> [k |-> "opt", t |-> T_Uni]]], f |-> {"b", "j", "r"}, g |-> {"coll", "combo", "enum", "opt"}],
  [n |-> "((String, ((), u8)), u8)", t |-> [k |-> "tup", ts |-> <<[k |-> "tup", ts |-> <<T_String, [k |-> "tup", ts |-> <<T_unit, T_u8>>]>>], T_u8>>], f |-> {"b", "j", "r"}, g |-> {"arity", "coll", "combo"}],
  [n |-> "BTreeSet<(u8, Box<i64>, bool, String)>", t |-> [k |-> "set", h |-> FALSE, t |-> [k |-> "tup", ts |-> <<T_u8, T_i64, T_bool, T_String>>]], f |-> {"b", "j", "r"}, g |-> {"arity", "coll", "combo"}],
  [n |-> "BTreeMap<String, LinkedList<(String, f64)>>", t |-> [k |-> "map", h |-> FALSE, kt |-> T_String, vt |-> [k |-> "seq", t |-> [k |-> "tup", ts |-> <<T_String, T_f64>>]]], f |-> {"b", "j", "r"}, g |-> {"arity", "coll", "combo"}],
  [n |-> "(u8, String, bool, [BTreeMap<u16, i64>; 2])", t |-> [k |-> "tup", ts |-> <<T_u8, T_String, T_bool, [k |-> "arr", n |-> 2, t |-> [k |-> "map", h |-> FALSE, kt |-> T_u16, vt |-> T_i64]]>>], f |-> {"b", "j", "r"}, g |-> {"arity", "coll", "combo"}],
  [n |-> "LinkedList<(BTreeMap<(), u8>, u8)>", t |-> [k |-> "seq", t |-> [k |-> "tup", ts |-> <<[k |-> "map", h |-> FALSE, kt |-> T_unit, vt |-> T_u8], T_u8>>]], f |-> {"b", "j", "r"}, g |-> {"arity", "coll", "combo"}],
  [n |-> "(u8, String, bool, BTreeMap<(u8, String, bool, String), u8>)", t |-> [k |-> "tup", ts |-> <<T_u8, T_String, T_bool, [k |-> "map", h |-> FALSE, kt |-> [k |-> "tup", ts |-> <<T_u8, T_String, T_bool, T_String>>], vt |-> T_u8]>>], f |-> {"b", "j", "r"}, g |-> {"arity", "coll", "combo"}],
  [n |-> "BTreeMap<[[Uni; 2]; 2], u8>", t |-> [k |-> "map", h |-> FALSE, kt |-> [k |-> "arr", n |-> 2, t |-> [k |-> "arr", n |-> 2, t |-> T_Uni]], vt |-> T_u8], f |-> {"b", "j", "r"}, g |-> {"arity", "coll", "combo", "enum"}],
  [n |-> "LinkedList<(u8, String, bool, LinkedList<String>)>", t |-> [k |-> "seq", t |-> [k |-> "tup", ts |-> <<T_u8, T_String, T_bool, [k |-> "seq", t |-> T_String]>>]], f |-> {"b", "j", "r"}, g |-> {"arity", "coll", "combo"}],
  [n |-> "[HashSet<(String, ())>; 2]", t |-> [k |-> "arr", n |-> 2, t |-> [k |-> "set", h |-> TRUE, t |-> [k |-> "tup", ts |-> <<T_String, T_unit>>]]], f |-> {"b", "j", "r"}, g |-> {"arity", "coll", "combo", "std"}],
  [n |-> "HashSet<Box<(u8, (), bool, String)>>", t |-> [k |-> "set", h |-> TRUE, t |-> [k |-> "tup", ts |-> <<T_u8, T_unit, T_bool, T_String>>]], f |-> {"b", "j", "r"}, g |-> {"arity", "coll", "combo", "std"}],
  [n |-> "(u8, HashMap<String, (String, u8)>, bool, String)", t |-> [k |-> "tup", ts |-> <<T_u8, [k |-> "map", h |-> TRUE, kt |-> T_String, vt |-> [k |-> "tup", ts |-> <<T_String, T_u8>>]], T_bool, T_String>>], f |-> {"b", "j", "r"}, g |-> {"arity", "coll", "combo", "std"}],
  [n |-> "BTreeMap<String, Option<[New; 2]>>", t |-> [k |-> "map", h |-> FALSE, kt |-> T_String, vt |-> [k |-> "opt", t |-> [k |-> "arr", n |-> 2, t |-> T_New]]], f |-> {"b", "j", "r"}, g |-> {"arity", "coll", "combo", "opt"}],
  [n |-> "(u8, String, bool, (String, BTreeMap<String, f64>))", t |-> [k |-> "tup", ts |-> <<T_u8, T_String, T_bool, [k |-> "tup", ts |-> <<T_String, [k |-> "map", h |-> FALSE, kt |-> T_String, vt |-> T_f64]>>]>>], f |-> {"b", "j", "r"}, g |-> {"arity", "coll", "combo"}],
  [n |-> "BTreeMap<u16, BTreeMap<(u8, String, bool, ()), u8>>", t |-> [k |-> "map", h |-> FALSE, kt |-> T_u16, vt |-> [k |-> "map", h |-> FALSE, kt |-> [k |-> "tup", ts |-> <<T_u8, T_String, T_bool, T_unit>>], vt |-> T_u8]], f |-> {"b", "j", "r"}, g |-> {"arity", "coll", "combo"}],
  [n |-> "(u8, LinkedList<HashMap<String, New>>, bool, String)", t |-> [k |-> "tup", ts |-> <<T_u8, [k |-> "seq", t |-> [k |-> "map", h |-> TRUE, kt |-> T_String, vt |-> T_New]], T_bool, T_String>>], f |-> {"b", "j", "r"}, g |-> {"arity", "coll", "combo", "std"}],
  [n |-> "BTreeSet<(String, Box<String>)>", t |-> [k |-> "set", h |-> FALSE, t |-> [k |-> "tup", ts |-> <<T_String, T_String>>]], f |-> {"b", "j", "r"}, g |-> {"arity", "coll", "combo"}],
  [n |-> "(u8, Vec<(Duration, u8)>, bool, String)", t |-> [k |-> "tup", ts |-> <<T_u8, [k |-> "seq", t |-> [k |-> "tup", ts |-> <<T_dur, T_u8>>]], T_bool, T_String>>], f |-> {"b", "j", "r"}, g |-> {"arity", "coll", "combo", "time"}],
  [n |-> "LinkedList<Box<LinkedList<bool>>>", t |-> [k |-> "seq", t |-> [k |-> "seq", t |-> T_bool]], f |-> {"b", "j", "r"}, g |-> {"coll", "combo"}],
  [n |-> "HashMap<String, (u8, (u8, String, bool, Duration), bool, String)>", t |-> [k |-> "map", h |-> TRUE, kt |-> T_String, vt |-> [k |-> "tup", ts |-> <<T_u8, [k |-> "tup", ts |-> <<T_u8, T_String, T_bool, T_dur>>], T_bool, T_String>>]], f |-> {"b", "j", "r"}, g |-> {"arity", "coll", "combo", "std", "time"}],
  [n |-> "Option<Vec<(u8, Uni, bool, String)>>", t |-> [k |-> "opt", t |-> [k |-> "seq", t |-> [k |-> "tup", ts |-> <<T_u8, T_Uni, T_bool, T_String>>]]], f |-> {"b", "j", "r"}, g |-> {"arity", "coll", "combo", "enum", "opt"}],
  [n |-> "[BTreeMap<u16, [Duration; 3]>; 3]", t |-> [k |-> "arr", n |-> 3, t |-> [k |-> "map", h |-> FALSE, kt |-> T_u16, vt |-> [k |-> "arr", n |-> 3, t |-> T_dur]]], f |-> {"b", "j", "r"}, g |-> {"arity", "coll", "combo", "time"}],
  [n |-> "[(String, [Option<String>; 2]); 2]", t |-> [k |-> "arr", n |-> 2, t |-> [k |-> "tup", ts |-> <<T_String, [k |-> "arr", n |-> 2, t |-> [k |-> "opt", t |-> T_String]]>>]], f |-> {"b", "j", "r"}, g |-> {"arity", "coll", "combo", "opt"}],
  [n |-> "BTreeMap<u16, LinkedList<BTreeMap<u16, Uni>>>", t |-> [k |-> "map", h |-> FALSE, kt |-> T_u16, vt |-> [k |-> "seq", t |-> [k |-> "map", h |-> FALSE, kt |-> T_u16, vt |-> T_Uni]]], f |-> {"b", "j", "r"}, g |-> {"coll", "combo", "enum"}],
  [n |-> "LinkedList<Option<BTreeMap<String, u8>>>", t |-> [k |-> "seq", t |-> [k |-> "opt", t |-> [k |-> "map", h |-> FALSE, kt |-> T_String, vt |-> T_u8]]], f |-> {"b", "j", "r"}, g |-> {"coll", "combo", "opt"}],
  [n |-> "[(u8, String, bool, HashMap<String, i64>); 2]", t |-> [k |-> "arr", n |-> 2, t |-> [k |-> "tup", ts |-> <<T_u8, T_String, T_bool, [k |-> "map", h |-> TRUE, kt |-> T_String, vt |-> T_i64]>>]], f |-> {"b", "j", "r"}, g |-> {"arity", "coll", "combo", "std"}],
  [n |-> "[LinkedList<BTreeSet<i64>>; 3]", t |-> [k |-> "arr", n |-> 3, t |-> [k |-> "seq", t |-> [k |-> "set", h |-> FALSE, t |-> T_i64]]], f |-> {"b", "j", "r"}, g |-> {"arity", "coll", "combo"}],
  [n |-> "[Box<(String, u8)>; 2]", t |-> [k |-> "arr", n |-> 2, t |-> [k |-> "tup", ts |-> <<T_String, T_u8>>]], f |-> {"b", "j", "r"}, g |-> {"arity", "coll", "combo"}],
  [n |-> "HashMap<String, [[bool; 3]; 3]>", t |-> [k |-> "map", h |-> TRUE, kt |-> T_String, vt |-> [k |-> "arr", n |-> 3, t |-> [k |-> "arr", n |-> 3, t |-> T_bool]]], f |-> {"b", "j", "r"}, g |-> {"arity", "coll", "combo", "std"}],
  [n |-> "BTreeMap<u16, Box<(u8, String, bool, Option<String>)>>", t |-> [k |-> "map", h |-> FALSE, kt |-> T_u16, vt |-> [k |-> "tup", ts |-> <<T_u8, T_String, T_bool, [k |-> "opt", t |-> T_String]>>]], f |-> {"b", "j", "r"}, g |-> {"arity", "coll", "combo", "opt"}],
  [n |-> "BTreeMap<String, (u8, String, bool, HashSet<()>)>", t |-> [k |-> "map", h |-> FALSE, kt |-> T_String, vt |-> [k |-> "tup", ts |-> <<T_u8, T_String, T_bool, [k |-> "set", h |-> TRUE, t |-> T_unit]>>]], f |-> {"b", "j", "r"}, g |-> {"arity", "coll", "combo", "std"}],
  [n |-> "(BTreeMap<u16, BTreeMap<String, bool>>, u8)", t |-> [k |-> "tup", ts |-> <<[k |-> "map", h |-> FALSE, kt |-> T_u16, vt |-> [k |-> "map", h |-> FALSE, kt |-> T_String, vt |-> T_bool]], T_u8>>], f |-> {"b", "j", "r"}, g |-> {"arity", "coll", "combo"}],
  [n |-> "Vec<Option<(String, Option<bool>)>>", t |-> [k |-> "seq", t |-> [k |-> "opt", t |-> [k |-> "tup", ts |-> <<T_String, [k |-> "opt", t |-> T_bool]>>]]], f |-> {"b", "j", "r"}, g |-> {"arity", "coll", "combo", "opt"}],
  [n |-> "BTreeMap<String, Vec<HashSet<bool>>>", t |-> [k |-> "map", h |-> FALSE, kt |-> T_String, vt |-> [k |-> "seq", t |-> [k |-> "set", h |-> TRUE, t |-> T_bool]]], f |-> {"b", "j", "r"}, g |-> {"coll", "combo", "std"}],
  [n |-> "HashMap<String, Vec<Vec<f64>>>", t |-> [k |-> "map", h |-> TRUE, kt |-> T_String, vt |-> [k |-> "seq", t |-> [k |-> "seq", t |-> T_f64]]], f |-> {"b", "j", "r"}, g |-> {"coll", "combo", "std"}],
  [n |-> "BTreeMap<String, BTreeMap<Box<Option<bool>>, u8>>", t |-> [k |-> "map", h |-> FALSE, kt |-> T_String, vt |-> [k |-> "map", h |-> FALSE, kt |-> [k |-> "opt", t |-> T_bool], vt |-> T_u8]], f |-> {"b", "j", "r"}, g |-> {"coll", "combo", "opt"}],
  [n |-> "(u8, String, bool, (u8, [New; 3], bool, String))", t |-> [k |-> "tup", ts |-> <<T_u8, T_String, T_bool, [k |-> "tup", ts |-> <<T_u8, [k |-> "arr", n |-> 3, t |-> T_New], T_bool, T_String>>]>>], f |-> {"b", "j", "r"}, g |-> {"arity", "coll", "combo"}],
  [n |-> "(u8, BTreeMap<(u8, u8), u8>, bool, String)", t |-> [k |-> "tup", ts |-> <<T_u8, [k |-> "map", h |-> FALSE, kt |-> [k |-> "tup", ts |-> <<T_u8, T_u8>>], vt |-> T_u8], T_bool, T_String>>], f |-> {"b", "j", "r"}, g |-> {"arity", "coll", "combo"}],
  [n |-> "BTreeMap<(String, Option<bool>), u8>", t |-> [k |-> "map", h |-> FALSE, kt |-> [k |-> "tup", ts |-> <<T_String, [k |-> "opt", t |-> T_bool]>>], vt |-> T_u8], f |-> {"b", "j", "r"}, g |-> {"arity", "coll", "combo", "opt"}],
  [n |-> "([[i64; 2]; 3], u8)", t |-> [k |-> "tup", ts |-> <<[k |-> "arr", n |-> 3, t |-> [k |-> "arr", n |-> 2, t |-> T_i64]], T_u8>>], f |-> {"b", "j", "r"}, g |-> {"arity", "coll", "combo"}],
  [n |-> "(u8, String, bool, BTreeMap<String, (u8, Option<bool>, bool, String)>)", t |-> [k |-> "tup", ts |-> <<T_u8, T_String, T_bool, [k |-> "map", h |-> FALSE, kt |-> T_String, vt |-> [k |-> "tup", ts |-> <<T_u8, [k |-> "opt", t |-> T_bool], T_bool, T_String>>]]>>], f |-> {"b", "j", "r"}, g |-> {"arity", "coll", "combo", "opt"}],
  [n |-> "BTreeMap<u16, (HashMap<String, String>, u8)>", t |-> [k |-> "map", h |-> FALSE, kt |-> T_u16, vt |-> [k |-> "tup", ts |-> <<[k |-> "map", h |-> TRUE, kt |-> T_String, vt |-> T_String], T_u8>>]], f |-> {"b", "j", "r"}, g |-> {"arity", "coll", "combo", "std"}]
>>
\* the list type of a type, or 0
VecOf == <<26, 0, 0, 0, 0, 0, 0, 0, 28, 0, 0, 0, 30, 31, 27, 52, 78, 0, 22, 23, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 378, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 153, 154, 144, 145, 146, 147, 148, 149, 150, 151, 0, 0, 0, 137, 0, 139, 0, 141, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 169, 0, 0, 0, 181, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 205, 207, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 278, 0, 280, 0, 282, 0, 284, 0, 286, 0, 288, 0, 290, 0, 292, 0, 294, 0, 296, 0, 298, 0, 300, 0, 302, 0, 304, 0, 306, 0, 308, 0, 310, 0, 312, 0, 314, 0, 316, 0, 318, 0, 320, 0, 322, 0, 324, 0, 326, 0, 328, 0, 330, 0, 332, 0, 334, 0, 336, 0, 338, 0, 340, 0, 342, 0, 344, 0, 346, 0, 348, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 547, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>
=============================================================================
