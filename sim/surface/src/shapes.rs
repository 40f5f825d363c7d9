// Written by tools/gen_shapes.py.
use super::{Ky, Kind, Leaves, Sh, Shape};
use json::JsonValue;

#[inline(never)] #[allow(unused)] fn s0(e: &dyn Leaves) -> JsonValue { json::array![] }
#[inline(never)] #[allow(unused)] fn s1(e: &dyn Leaves) -> JsonValue { json::object!{} }
#[inline(never)] #[allow(unused)] fn s2(e: &dyn Leaves) -> JsonValue { json::value!(null) }
#[inline(never)] #[allow(unused)] fn s3(e: &dyn Leaves) -> JsonValue { json::value!([e.v(0), {a: e.v(1)}]) }
#[inline(never)] #[allow(unused)] fn s4(e: &dyn Leaves) -> JsonValue { json::value!({a: e.v(0), "b": [e.i(1)]}) }
#[inline(never)] #[allow(unused)] fn s5(e: &dyn Leaves) -> JsonValue { json::value!(e.v(0)) }
#[inline(never)] #[allow(unused)] fn s6(e: &dyn Leaves) -> JsonValue { json::array![[[[[[[[e.v(0)]]]]]]]] }
#[inline(never)] #[allow(unused)] fn s7(e: &dyn Leaves) -> JsonValue { json::object!{a: {a: {a: {a: {a: {a: e.c(0)}}}}}} }
#[inline(never)] #[allow(unused)] fn s8(e: &dyn Leaves) -> JsonValue { json::array![e.i(0), e.i(1), e.i(2), e.i(3), e.i(4), e.i(5), e.i(6), e.i(7), e.i(8), e.i(9), e.i(10), e.i(11), e.i(12), e.i(13), e.i(14), e.i(15), e.i(16), e.i(17), e.i(18), e.i(19), e.i(20), e.i(21), e.i(22), e.i(23)] }
#[inline(never)] #[allow(unused)] fn s9(e: &dyn Leaves) -> JsonValue { json::object!{[e.k(0)]: e.v(1), [e.k(2)]: e.v(3), [e.k(4)]: e.v(5), [e.k(6)]: e.v(7), [e.k(8)]: e.v(9), [e.k(10)]: e.v(11), [e.k(12)]: e.v(13), [e.k(14)]: e.v(15), [e.k(16)]: e.v(17), [e.k(18)]: e.v(19)} }
#[inline(never)] #[allow(unused)] fn s10(e: &dyn Leaves) -> JsonValue { json::object!{e.k(0) => e.c(1), e.k(2) => e.c(3), e.k(4) => e.c(5), e.k(6) => e.c(7), e.k(8) => e.c(9)} }
#[inline(never)] #[allow(unused)] fn s11(e: &dyn Leaves) -> JsonValue { json::object!{a: e.v(0), b: e.v(1), a: e.v(2),} }
#[inline(never)] #[allow(unused)] fn s12(e: &dyn Leaves) -> JsonValue { json::object!{null: e.s(0), object: e.v(1), "b": e.v(2), x1: e.t(3), [e.k(4)]: [e.s(5), e.o(6), e.i(7)]} }
#[inline(never)] #[allow(unused)] fn s13(e: &dyn Leaves) -> JsonValue { json::array![e.t(0), (e.v(1)), [], {"with space": {}, [e.k(2)]: e.l(3)}, [{[e.k(4)]: {object: e.s(5), _u: (e.v(6)), }}, e.b(7), {[e.k(8)]: [e.v(9), e.c(10), e.l(11), ], [e.k(12)]: e.v(13), x1: e.v(14), "quo\"te": e.s(15), "b": json::object!{self_: e.i(16), array: e.v(17), }, }, {[e.k(18)]: [], [e.k(19)]: {"a": (e.o(20))}}, [e.o(21), e.i(22), ]], e.f(23), e.l(24)] }
#[inline(never)] #[allow(unused)] fn s14(e: &dyn Leaves) -> JsonValue { json::object!["a" => json::array!(e.v(0), {[e.k(1)]: {"x1": e.l(2), "quo\"te": (e.c(3))}, foo: e.v(4), [e.k(5)]: {[e.k(6)]: (e.b(7)), b: (e.v(8)), type_: e.m(9)}, }, [(5), e.m(10), e.m(11)]), "a" => e.m(12), "key" => json::array!(e.i(13), [null, e.s(14), ], json::object![e.k(15) => json::object!("a" => e.c(16), e.k(17) => e.v(18), "b" => e.f(19), "b" => e.i(20)), "\u{e9}" => e.f(21)], {b: [e.i(22), true], [e.k(23)]: json::object!{e.k(24) => e.v(25), "x1" => e.i(26) + 1, "x1" => e.v(27)}, "a": json::object![[e.k(28)]: e.t(29), value: (e.m(30)), a: e.s(31)], }, json::array![]), "b" => json::object!{"a": json::array!{json::array!{e.v(32), true, e.l(33)}, json::object!{self_: (e.m(34)), array: null, _u: e.i(35)}, e.m(36), {foo: e.l(37)}}, "a": e.m(38)}, "b" => json::array!{[[e.m(39), e.i(40) + 1, e.b(41), e.c(42)], e.f(43)], {[e.k(44)]: {"x1": e.c(45), }, [e.k(46)]: (e.o(47))}}, "with space" => (e.f(48)), ] }
#[inline(never)] #[allow(unused)] fn s15(e: &dyn Leaves) -> JsonValue { json::array!{e.v(0), {value: [e.s(1), [e.t(2), e.l(3)], e.b(4), ], x1: json::object!{}, "a": json::object!("key" => json::array!(e.c(5)), "b" => json::array!{e.c(6)}, e.k(7) => (e.i(8)), ), [e.k(9)]: [e.t(10), [], (e.i(11) + 1), e.v(12)], a: e.i(13)}, } }
#[inline(never)] #[allow(unused)] fn s16(e: &dyn Leaves) -> JsonValue { json::object!{"quo\"te" => json::object!("with space" => e.i(0), "\u{e9}" => json::array![e.f(1), e.c(2), e.v(3)], "key" => e.o(4), "\u{e9}" => e.v(5), "" => json::object!{x1: e.b(6), object: e.s(7), [e.k(8)]: e.i(9) + 1}, ), "key" => (e.v(10)), e.k(11) => e.s(12), "key" => e.c(13), "key" => e.t(14)} }
#[inline(never)] #[allow(unused)] fn s17(e: &dyn Leaves) -> JsonValue { json::array!([{}, [], (e.s(0)), (e.v(1))], {"with space": [e.m(2), e.b(3), {value: [e.c(4), e.i(5) + 1, false, e.l(6), ], null: json::object![e.k(7) => e.t(8), "key" => e.m(9), "b" => e.l(10)], "with space": {array: e.i(11) + 1, [e.k(12)]: e.t(13), a: e.v(14), "b": null}}, e.t(15), json::object!{}, ]}, null, e.m(16)) }
#[inline(never)] #[allow(unused)] fn s18(e: &dyn Leaves) -> JsonValue { json::object!(foo: [e.f(0), e.m(1), e.i(2) + 1, e.t(3), json::array!{[], {b: (e.i(4) + 1), x1: e.v(5), x1: null, }, e.t(6)}], "with space": null, [e.k(7)]: {[e.k(8)]: [{}, e.c(9), json::object!("with space" => e.i(10) + 1, "key" => e.v(11))], self_: json::array!(json::object!(e.k(12) => e.c(13), "with space" => (e.t(14)), ), {}, true, ), "b": json::object!(x1: {"": e.b(15), [e.k(16)]: e.v(17), }, )}) }
#[inline(never)] #[allow(unused)] fn s19(e: &dyn Leaves) -> JsonValue { json::object!{"a" => e.c(0), "b" => json::object![e.k(1) => json::object![e.k(2) => e.i(3), e.k(4) => true, ], e.k(5) => json::array!(null, ), ], "b" => (e.s(6)), } }
#[inline(never)] #[allow(unused)] fn s20(e: &dyn Leaves) -> JsonValue { json::object!["a-key-that-is-longer-than-the-inline-buffer-of-keys" => json::array!(e.i(0) + 1, e.v(1), e.l(2), e.v(3))] }
#[inline(never)] #[allow(unused)] fn s21(e: &dyn Leaves) -> JsonValue { json::object!("quo\"te" => json::object!(), "quo\"te" => json::object!([e.k(0)]: e.v(1), [e.k(2)]: json::Null, a: e.i(3)), "b" => json::array![[e.t(4), e.l(5), e.l(6), (e.i(7) + 1)], ], "a-key-that-is-longer-than-the-inline-buffer-of-keys" => e.c(8), e.k(9) => e.o(10), e.k(11) => e.i(12)) }
#[inline(never)] #[allow(unused)] fn s22(e: &dyn Leaves) -> JsonValue { json::array!(e.m(0), json::array!{[e.i(1), json::array!(json::object!{e.k(2) => (e.v(3))}, {"x1": null}, e.v(4))], []}, e.v(5), [json::array!{e.t(6), e.v(7), [[], json::array!{e.v(8), (e.i(9)), }, [e.m(10), e.v(11), null, null]]}], ) }
#[inline(never)] #[allow(unused)] fn s23(e: &dyn Leaves) -> JsonValue { json::array![[[e.s(0), {self_: (e.o(1)), "with space": [e.m(2), e.m(3), e.c(4), null, (e.s(5))], "b": {[e.k(6)]: e.l(7), array: e.v(8)}, "b": e.s(9), key: []}], e.b(10), e.f(11)], e.o(12), (e.l(13)), e.i(14) + 1, ] }
#[inline(never)] #[allow(unused)] fn s24(e: &dyn Leaves) -> JsonValue { json::object!("\u{e9}" => json::array!(), "b" => json::array![{"quo\"te": json::object![value: e.l(0), ]}, e.i(1)], ) }
#[inline(never)] #[allow(unused)] fn s25(e: &dyn Leaves) -> JsonValue { json::object!["a" => json::object!["quo\"te" => e.v(0)], "" => e.i(1) + 1, ] }
#[inline(never)] #[allow(unused)] fn s26(e: &dyn Leaves) -> JsonValue { json::object!("a-key-that-is-longer-than-the-inline-buffer-of-keys" => json::object!("a" => json::array!((e.v(0)), {"x1": e.b(1), x1: e.i(2) + 1, [e.k(3)]: e.i(4) + 1, "": e.v(5), [e.k(6)]: e.t(7)}), "quo\"te" => json::array!(), "quo\"te" => e.i(8) + 1), "\u{e9}" => json::array![e.c(9), [{[e.k(10)]: e.b(11), x1: e.c(12), "x1": e.i(13)}, ], e.c(14), [{object: e.t(15), array: e.o(16), null: (e.i(17))}, {[e.k(18)]: e.b(19), [e.k(20)]: null}], {key: [], "a": [(e.i(21)), null, e.f(22), e.f(23), (e.l(24)), ], }, ], "b" => json::object!("" => json::array!(e.c(25), json::object!{"a": e.v(26), [e.k(27)]: e.i(28), type_: e.f(29), value: "a string literal that does not fit inline"}), ), "a" => e.o(30), "with space" => json::array!((e.f(31)), e.c(32), [], [e.v(33), [e.v(34), null, ], e.f(35)], e.m(36), ), "key" => (e.s(37))) }
#[inline(never)] #[allow(unused)] fn s27(e: &dyn Leaves) -> JsonValue { json::object!["a-key-that-is-longer-than-the-inline-buffer-of-keys" => e.c(0), "x1" => e.i(1), "x1" => json::object!("x1" => e.b(2), "a" => e.v(3), "" => json::object![e.k(4) => json::array![e.v(5), e.v(6)], "" => e.v(7), e.k(8) => e.t(9)], "key" => json::array![e.i(10) + 1, json::array!(e.v(11), e.l(12)), e.i(13) + 1, ], ), "b" => json::array![(e.c(14)), json::array![e.b(15), e.c(16), e.s(17)], [{"a": e.v(18), "quo\"te": {"": e.v(19), type_: (e.t(20)), array: null}}, e.b(21), [e.b(22), e.m(23), e.s(24), ], e.s(25), json::object![[e.k(26)]: json::object!("b" => e.s(27)), [e.k(28)]: [e.i(29) + 1, e.c(30), e.i(31), (e.t(32))], [e.k(33)]: [null], array: e.c(34)]], json::object!("": {"b": [e.t(35), e.i(36), e.l(37), ], "with space": [e.t(38), (e.v(39)), (e.v(40))], }, [e.k(41)]: json::array!(json::object!("a-key-that-is-longer-than-the-inline-buffer-of-keys" => e.c(42), "a-key-that-is-longer-than-the-inline-buffer-of-keys" => e.o(43), "a-key-that-is-longer-than-the-inline-buffer-of-keys" => e.t(44)), [e.l(45)], [e.v(46), (e.i(47) + 1)], json::array!{e.s(48), e.m(49), e.l(50)}, ), value: e.i(51)), ]] }
#[inline(never)] #[allow(unused)] fn s28(e: &dyn Leaves) -> JsonValue { json::array![e.c(0), [e.f(1), [e.b(2), {}], ], {[e.k(3)]: 0, "b": e.b(4), null: json::object!{"\u{e9}": {"a": "text", _u: (e.v(5)), type_: e.i(6) + 1, x1: e.v(7), "a": e.b(8), }, foo: (e.i(9) + 1), [e.k(10)]: {b: 42, b: e.i(11)}}, foo: json::array!(e.t(12), {}, ), "\u{e9}": e.t(13)}, ] }
#[inline(never)] #[allow(unused)] fn s29(e: &dyn Leaves) -> JsonValue { json::object!(self_: e.i(0) + 1, "key": e.c(1), [e.k(2)]: json::object!(x1: e.i(3), x1: json::array![e.s(4), e.i(5) + 1, e.c(6)], ), [e.k(7)]: [e.i(8), json::array!{e.v(9), e.m(10), e.v(11), }, [e.i(12), e.f(13), e.t(14)], json::object![e.k(15) => e.l(16)], []], [e.k(17)]: [{}, (e.c(18)), null], ) }
#[inline(never)] #[allow(unused)] fn s30(e: &dyn Leaves) -> JsonValue { json::object!["" => json::object!["b": {null: e.i(0), key: e.v(1), "\u{e9}": e.c(2)}, [e.k(3)]: e.t(4)], "" => json::object!("\u{e9}" => e.f(5), e.k(6) => e.i(7) + 1, e.k(8) => json::array![[e.c(9), e.b(10), "text", e.b(11), e.v(12)], ]), ] }
#[inline(never)] #[allow(unused)] fn s31(e: &dyn Leaves) -> JsonValue { json::object![value: [[e.f(0), (e.v(1)), e.o(2)], json::object![null: e.c(3), "": null, ], [e.f(4)]], "": {"x1": e.f(5)}] }
#[inline(never)] #[allow(unused)] fn s32(e: &dyn Leaves) -> JsonValue { json::object!["a": e.t(0), _u: (e.v(1)), [e.k(2)]: [e.m(3), {[e.k(4)]: e.i(5), "b": e.v(6), [e.k(7)]: e.v(8)}, [e.v(9), null, ]], "\u{e9}": json::object!("quo\"te" => json::array!{e.t(10), e.c(11), e.c(12), "a string literal that does not fit inline", true}, "with space" => json::array![e.i(13) + 1, ], e.k(14) => json::object!("b" => e.s(15), "quo\"te" => (e.i(16)), e.k(17) => (e.i(18) + 1), "\u{e9}" => e.b(19))), "a-key-that-is-longer-than-the-inline-buffer-of-keys": e.b(20)] }
#[inline(never)] #[allow(unused)] fn s33(e: &dyn Leaves) -> JsonValue { json::object!{"a-key-that-is-longer-than-the-inline-buffer-of-keys" => json::object![], "with space" => json::object![], e.k(0) => e.l(1), } }
#[inline(never)] #[allow(unused)] fn s34(e: &dyn Leaves) -> JsonValue { json::array![{[e.k(0)]: e.t(1), null: e.i(2) + 1, "with space": e.l(3), [e.k(4)]: e.b(5), b: e.s(6)}, e.b(7), [e.f(8), e.l(9)], ] }
#[inline(never)] #[allow(unused)] fn s35(e: &dyn Leaves) -> JsonValue { json::array![e.o(0)] }
#[inline(never)] #[allow(unused)] fn s36(e: &dyn Leaves) -> JsonValue { json::array![e.i(0) + 1, e.i(1), [e.m(2), {b: e.i(3), [e.k(4)]: {"x1": e.c(5), array: 0, "quo\"te": {}, value: {}, }, "quo\"te": json::object!["b": {a: e.c(6), }, [e.k(7)]: {"\u{e9}": e.s(8), "": (e.i(9) + 1), "with space": e.v(10), b: e.i(11), }, "x1": [e.v(12)], value: null], _u: null}, e.i(13)], [json::array![{array: e.c(14), "b": 0, value: json::object!{x1: e.f(15), "b": e.s(16), array: e.v(17), "with space": (e.l(18)), [e.k(19)]: (5)}, }, null, e.t(20), ], e.v(21), [{value: {type_: e.i(22), [e.k(23)]: e.s(24), [e.k(25)]: e.i(26) + 1, "with space": null, }, type_: null}, e.i(27), (e.v(28))], (e.i(29) + 1), [-7], ], ] }
#[inline(never)] #[allow(unused)] fn s37(e: &dyn Leaves) -> JsonValue { json::object!{e.k(0) => json::object!{e.k(1) => e.m(2), "\u{e9}" => e.v(3), "key" => true}, "\u{e9}" => json::array![e.t(4), {"\u{e9}": json::array!{}, [e.k(5)]: [], object: json::array!(e.o(6), e.t(7), e.b(8), ), }, 1 + 1]} }
#[inline(never)] #[allow(unused)] fn s38(e: &dyn Leaves) -> JsonValue { json::array![e.l(0), [e.l(1), e.v(2), e.b(3), e.m(4), e.s(5), ], ] }
#[inline(never)] #[allow(unused)] fn s39(e: &dyn Leaves) -> JsonValue { json::array!((e.l(0)), e.v(1), {"key": e.i(2), [e.k(3)]: e.i(4), b: e.f(5), "b": [e.f(6), e.o(7), (e.f(8)), e.s(9), e.t(10)], }, [], e.b(11)) }
#[inline(never)] #[allow(unused)] fn s40(e: &dyn Leaves) -> JsonValue { json::object!{"a-key-that-is-longer-than-the-inline-buffer-of-keys" => json::object!(e.k(0) => e.f(1), "a-key-that-is-longer-than-the-inline-buffer-of-keys" => e.m(2)), e.k(3) => json::array!{e.c(4), e.s(5)}, "" => json::object![e.k(6) => e.i(7), ]} }
#[inline(never)] #[allow(unused)] fn s41(e: &dyn Leaves) -> JsonValue { json::object![b: e.b(0), "b": json::object![object: [e.m(1), (e.t(2)), e.t(3), [], json::array!{e.t(4), }, ], "a": [[(e.v(5)), e.i(6) + 1, e.i(7) + 1, e.f(8), (e.c(9))], ], "a-key-that-is-longer-than-the-inline-buffer-of-keys": {"a-key-that-is-longer-than-the-inline-buffer-of-keys": json::object!{"with space" => "a string literal that does not fit inline", "" => (e.o(10))}, object: e.t(11), "\u{e9}": {}, b: [(e.v(12))], foo: {}}], "a": e.i(13), ] }
#[inline(never)] #[allow(unused)] fn s42(e: &dyn Leaves) -> JsonValue { json::object!("key" => json::array!{e.i(0) + 1, (e.s(1))}, e.k(2) => e.l(3)) }
#[inline(never)] #[allow(unused)] fn s43(e: &dyn Leaves) -> JsonValue { json::array!({a: (e.f(0)), key: {[e.k(1)]: {value: e.v(2), null: e.m(3), x1: e.t(4), }, "with space": [(e.c(5)), ], array: (e.m(6)), "key": [e.m(7), "a string literal that does not fit inline", ]}}) }
#[inline(never)] #[allow(unused)] fn s44(e: &dyn Leaves) -> JsonValue { json::object!("key" => json::object!("a" => e.i(0)), "with space" => json::array!([{null: e.v(1), "b": (e.v(2)), "a": (e.i(3)), [e.k(4)]: e.v(5), object: e.o(6)}, (e.s(7)), json::object![foo: null, "b": e.b(8), ]], {}, e.m(9), [e.v(10), e.t(11), ], {})) }
#[inline(never)] #[allow(unused)] fn s45(e: &dyn Leaves) -> JsonValue { json::array!(null, e.i(0) + 1) }
#[inline(never)] #[allow(unused)] fn s46(e: &dyn Leaves) -> JsonValue { json::array![[e.i(0), {value: (e.v(1)), "\u{e9}": {}}, {a: [e.i(2)], value: e.i(3) + 1, }, e.l(4), []], json::array!([json::object![e.k(5) => e.b(6)], e.v(7)])] }
#[inline(never)] #[allow(unused)] fn s47(e: &dyn Leaves) -> JsonValue { json::object!("quo\"te" => json::object!{b: e.i(0), "": (e.s(1))}, e.k(2) => e.b(3), e.k(4) => (e.f(5)), "" => e.v(6)) }
#[inline(never)] #[allow(unused)] fn s48(e: &dyn Leaves) -> JsonValue { json::array!{e.m(0), {"\u{e9}": [e.o(1), {type_: e.i(2)}, (e.m(3))], a: [e.v(4), [], e.c(5), e.i(6)], type_: [null, e.v(7), ], }, e.c(8), {self_: e.i(9), "b": e.c(10), "x1": {}}, {[e.k(11)]: e.f(12), null: json::object!{"b" => (5), "with space" => json::array!{}}, "": e.c(13)}, null, } }
#[inline(never)] #[allow(unused)] fn s49(e: &dyn Leaves) -> JsonValue { json::object!([e.k(0)]: e.s(1), [e.k(2)]: {key: e.c(3), [e.k(4)]: e.t(5), foo: {"key": [e.i(6), e.b(7), ], type_: e.c(8)}, [e.k(9)]: null}, [e.k(10)]: {[e.k(11)]: e.c(12), value: [[(e.v(13)), e.o(14), e.v(15), ], e.c(16), e.b(17), e.l(18), null], }, "\u{e9}": {a: json::object!("x1" => e.i(19) + 1, "" => json::array!(e.v(20), (5)), "a-key-that-is-longer-than-the-inline-buffer-of-keys" => e.v(21), "key" => e.v(22), ), }) }
#[inline(never)] #[allow(unused)] fn s50(e: &dyn Leaves) -> JsonValue { json::object!([e.k(0)]: json::array!{e.i(1) + 1, {"x1": {"\u{e9}": e.v(2), "a-key-that-is-longer-than-the-inline-buffer-of-keys": e.c(3)}}, e.v(4), [e.o(5), e.v(6), [null], [(e.t(7)), ], ]}, key: [{[e.k(8)]: e.v(9), }, {self_: [(e.t(10)), e.s(11), e.c(12)], "key": json::object!([e.k(13)]: e.i(14), ), type_: (e.v(15))}, e.i(16), {foo: {"key": e.c(17)}}, {"a": [], }], x1: json::array!{e.v(18), e.c(19), null, {[e.k(20)]: {a: e.v(21)}, type_: (5)}}, a: {foo: null, [e.k(22)]: e.v(23), _u: [(e.v(24)), {[e.k(25)]: e.s(26), foo: false, "\u{e9}": e.l(27)}, e.t(28), e.i(29), ], }) }
#[inline(never)] #[allow(unused)] fn s51(e: &dyn Leaves) -> JsonValue { json::object!{e.k(0) => e.v(1), "\u{e9}" => (e.l(2)), "quo\"te" => json::array!(), e.k(3) => e.t(4), "\u{e9}" => json::object!{"quo\"te" => 0, "x1" => json::object!([e.k(5)]: e.t(6), _u: 1 + 1, foo: e.b(7), _u: {_u: e.m(8), [e.k(9)]: e.t(10), a: (e.c(11))}, "b": [(e.c(12)), (e.v(13)), (e.t(14)), ]), }, "x1" => json::object![e.k(15) => e.t(16), e.k(17) => e.b(18), "quo\"te" => e.i(19), ], } }
#[inline(never)] #[allow(unused)] fn s52(e: &dyn Leaves) -> JsonValue { json::object!("" => json::object!("key" => json::object!([e.k(0)]: {}), "key" => json::array!(e.o(1), {"\u{e9}": e.i(2) + 1, foo: e.v(3), "a-key-that-is-longer-than-the-inline-buffer-of-keys": e.b(4)}), "quo\"te" => e.c(5), ), "quo\"te" => json::array!([]), "x1" => e.f(6), e.k(7) => false, e.k(8) => json::object!["with space" => json::array!(e.b(9), e.i(10), {"a-key-that-is-longer-than-the-inline-buffer-of-keys": e.i(11) + 1, [e.k(12)]: (e.f(13))}, json::object![[e.k(14)]: e.c(15), ], [e.c(16), e.b(17)]), "" => e.v(18), "key" => e.t(19), e.k(20) => json::object![e.k(21) => e.i(22), e.k(23) => json::array![(e.l(24)), e.v(25), e.i(26) + 1, (e.l(27)), ], "b" => e.i(28) + 1, e.k(29) => json::array!{1 + 1}]], "key" => json::object!{"b" => (e.m(30))}, ) }
#[inline(never)] #[allow(unused)] fn s53(e: &dyn Leaves) -> JsonValue { json::array![e.c(0), [json::Null, [e.b(1), (e.s(2))], e.v(3), {[e.k(4)]: e.i(5), "\u{e9}": [e.c(6), e.f(7)], }, e.v(8)], json::object!["x1": (e.c(9)), "a": "text", object: e.o(10), ], ] }
#[inline(never)] #[allow(unused)] fn s54(e: &dyn Leaves) -> JsonValue { json::array!({}, e.o(0), [e.c(1), json::object!(), e.c(2), ], [[e.v(3), e.c(4)], {}, [(e.f(5))], e.c(6), (e.v(7)), ], [{a: e.i(8), "with space": e.t(9), }], json::object!{type_: [e.i(10) + 1, e.b(11), ]}, {array: {array: e.v(12)}, _u: {"x1": (e.i(13)), [e.k(14)]: e.m(15)}, value: e.c(16), key: "a string literal that does not fit inline", }, {x1: null}) }
#[inline(never)] #[allow(unused)] fn s55(e: &dyn Leaves) -> JsonValue { json::array![{[e.k(0)]: e.c(1), key: null, "\u{e9}": [], }, e.b(2), {}, []] }
#[inline(never)] #[allow(unused)] fn s56(e: &dyn Leaves) -> JsonValue { json::array!([{[e.k(0)]: [e.l(1), e.m(2), null, e.b(3)], [e.k(4)]: json::object!{"\u{e9}" => (5), e.k(5) => e.l(6), "a" => e.i(7), "\u{e9}" => (e.i(8)), e.k(9) => e.v(10), }, [e.k(11)]: {_u: null}, "": [e.o(12), e.o(13)], [e.k(14)]: {key: e.s(15), array: e.b(16), }}, [e.l(17), ], {[e.k(18)]: json::array![], [e.k(19)]: [e.v(20), e.m(21), (e.v(22)), ], "key": json::array![], null: null, "\u{e9}": e.m(23)}, {[e.k(24)]: e.v(25), null: (e.f(26)), }, [e.o(27), {"\u{e9}": e.l(28), "key": e.c(29), null: e.s(30), "\u{e9}": e.m(31), "key": e.o(32)}, (e.b(33))]], e.v(34), e.c(35), {key: e.i(36) + 1, "\u{e9}": json::array!{e.f(37), null, {[e.k(38)]: e.v(39), }, json::object!(x1: e.f(40), [e.k(41)]: e.v(42), "key": e.c(43), object: e.v(44), "b": e.o(45), )}}) }
#[inline(never)] #[allow(unused)] fn s57(e: &dyn Leaves) -> JsonValue { json::array!{null, e.i(0), e.i(1) + 1} }
#[inline(never)] #[allow(unused)] fn s58(e: &dyn Leaves) -> JsonValue { json::array!(e.v(0), e.v(1), [json::array![e.m(2)]], ) }
#[inline(never)] #[allow(unused)] fn s59(e: &dyn Leaves) -> JsonValue { json::object!["with space": json::object![[e.k(0)]: {}, array: (e.c(1)), "a": (e.i(2))], [e.k(3)]: e.v(4), [e.k(5)]: e.v(6), [e.k(7)]: {[e.k(8)]: (e.c(9)), key: [e.v(10), [e.b(11), {a: e.o(12), x1: e.v(13)}, {[e.k(14)]: e.v(15), null: e.c(16), [e.k(17)]: e.v(18), _u: e.c(19)}, {"": e.c(20), }, ]], "": {}, }, _u: []] }
#[inline(never)] #[allow(unused)] fn s60(e: &dyn Leaves) -> JsonValue { json::object![array: e.b(0), array: [{"quo\"te": {null: (e.i(1)), "a": e.o(2), [e.k(3)]: e.f(4), value: e.o(5)}, "a": [(e.i(6))]}], ] }
#[inline(never)] #[allow(unused)] fn s61(e: &dyn Leaves) -> JsonValue { json::array![[json::array!(e.c(0), ), {"\u{e9}": e.f(1), object: e.t(2)}], [json::object!{e.k(3) => e.l(4), "a" => e.v(5), "\u{e9}" => e.v(6), "a" => e.i(7), "with space" => e.t(8)}, json::object!["quo\"te": e.i(9), [e.k(10)]: null, ], ], {null: {b: e.l(11), }, "with space": e.i(12), object: json::array!(e.s(13), )}, {"quo\"te": e.s(14), [e.k(15)]: e.v(16), }, json::array!{e.o(17), json::array!{e.f(18), e.t(19), e.c(20), }, e.i(21) + 1, }, ] }
#[inline(never)] #[allow(unused)] fn s62(e: &dyn Leaves) -> JsonValue { json::object!{x1: [e.i(0), {value: (e.f(1)), _u: e.f(2), "x1": e.v(3)}, json::object![[e.k(4)]: e.c(5), array: null, type_: e.m(6)]], foo: 1 + 1, [e.k(7)]: [e.i(8), {b: e.i(9) + 1, "with space": e.c(10), "a-key-that-is-longer-than-the-inline-buffer-of-keys": (e.s(11)), }], value: {array: {"quo\"te": e.v(12), "a-key-that-is-longer-than-the-inline-buffer-of-keys": e.o(13)}}, null: {}, null: [[e.l(14), e.i(15) + 1, e.o(16), (e.t(17))], e.v(18), [e.o(19), e.c(20), e.t(21)], {}, ], } }
#[inline(never)] #[allow(unused)] fn s63(e: &dyn Leaves) -> JsonValue { json::object!("with space" => json::object![e.k(0) => json::object!("b" => e.i(1) + 1, e.k(2) => json::array!{e.i(3), e.l(4), e.m(5), })], e.k(6) => e.i(7), e.k(8) => json::object!("" => json::object!()), "a" => json::array!{e.i(9), e.t(10), {[e.k(11)]: (e.s(12)), "with space": e.l(13), "b": e.i(14) + 1, object: {a: null, [e.k(15)]: e.c(16)}, "with space": json::array![e.l(17), e.c(18), e.c(19), ]}, e.b(20), json::object!["\u{e9}": e.v(21), [e.k(22)]: e.b(23), ], }, "" => (e.v(24)), "with space" => json::array![[null]]) }
#[inline(never)] #[allow(unused)] fn s64(e: &dyn Leaves) -> JsonValue { json::array!{[e.l(0), [{a: {}}, ]], e.v(1), e.b(2), [e.v(3), e.c(4), [json::object!{"key" => json::object!["a": e.m(5), "quo\"te": e.i(6), _u: e.v(7)], "a-key-that-is-longer-than-the-inline-buffer-of-keys" => json::object!["a" => (5), "with space" => e.l(8)], "\u{e9}" => json::array!(e.v(9), e.v(10), e.c(11), null, e.m(12))}, [e.v(13), e.t(14), null]], [[e.l(15)], e.o(16), [], (e.v(17)), (e.i(18))]], e.i(19) + 1} }
#[inline(never)] #[allow(unused)] fn s65(e: &dyn Leaves) -> JsonValue { json::array!{{foo: e.v(0), "a": e.c(1), array: e.i(2) + 1}, e.i(3) + 1, e.o(4), [], json::object!(key: (e.l(5)), [e.k(6)]: json::array!(e.m(7), e.i(8), e.v(9), )), null, } }
#[inline(never)] #[allow(unused)] fn s66(e: &dyn Leaves) -> JsonValue { json::array!{null, (e.i(0)), [], [e.i(1)], e.l(2), } }
#[inline(never)] #[allow(unused)] fn s67(e: &dyn Leaves) -> JsonValue { json::array!(e.s(0), [{value: e.v(1), [e.k(2)]: {self_: {"key": e.v(3), }}, "x1": null}, [json::object!(), ]], e.v(4), {x1: e.v(5)}) }
#[inline(never)] #[allow(unused)] fn s68(e: &dyn Leaves) -> JsonValue { json::object!(e.k(0) => e.o(1), e.k(2) => json::array![e.m(3), e.v(4), {"x1": e.i(5) + 1, "b": e.t(6), [e.k(7)]: (e.i(8) + 1), key: e.i(9), foo: e.s(10)}], e.k(11) => json::object!{[e.k(12)]: e.m(13), type_: [(e.c(14)), e.v(15)], [e.k(16)]: e.t(17)}, "a-key-that-is-longer-than-the-inline-buffer-of-keys" => e.i(18)) }
#[inline(never)] #[allow(unused)] fn s69(e: &dyn Leaves) -> JsonValue { json::object!{a: [{b: (e.v(0)), "a-key-that-is-longer-than-the-inline-buffer-of-keys": e.v(1), _u: e.t(2), }, json::array![], [e.v(3), json::object!("\u{e9}" => e.b(4), e.k(5) => e.f(6), e.k(7) => (e.b(8))), "a string literal that does not fit inline"], json::array!({"": e.t(9), foo: e.v(10), "with space": (e.v(11)), [e.k(12)]: e.v(13), value: e.v(14)}, (e.o(15)), e.b(16), e.c(17), e.v(18))], foo: {a: [], }, "a-key-that-is-longer-than-the-inline-buffer-of-keys": {"quo\"te": null}, "b": [e.b(19), e.v(20), e.o(21), ]} }
#[inline(never)] #[allow(unused)] fn s70(e: &dyn Leaves) -> JsonValue { json::array!{e.i(0), {"\u{e9}": (e.v(1)), array: json::array!{e.b(2), e.o(3), "text", }, }, 42, {}, [[(e.c(4)), e.c(5), ], e.i(6), {key: e.v(7), "b": e.f(8)}], [[(e.t(9))], [e.b(10)]]} }
#[inline(never)] #[allow(unused)] fn s71(e: &dyn Leaves) -> JsonValue { json::object!["a" => e.v(0), "a-key-that-is-longer-than-the-inline-buffer-of-keys" => (e.c(1)), "" => e.c(2), e.k(3) => json::object!["a" => json::array!{{x1: json::Null, object: e.v(4), self_: e.i(5)}, json::object!["a" => e.v(6), "key" => e.m(7), "b" => e.c(8), "with space" => e.l(9), ]}, "b" => e.v(10), "b" => json::object!{object: e.i(11) + 1, "x1": {[e.k(12)]: e.f(13), x1: e.c(14), "key": e.s(15), "a-key-that-is-longer-than-the-inline-buffer-of-keys": null, x1: e.i(16)}, a: {key: e.o(17), }, value: {object: e.f(18)}, a: json::array!(e.c(19)), }, "with space" => json::array!{e.l(20), (e.b(21))}], "with space" => json::object!{"a-key-that-is-longer-than-the-inline-buffer-of-keys" => e.i(22)}, "with space" => e.m(23), ] }
#[inline(never)] #[allow(unused)] fn s72(e: &dyn Leaves) -> JsonValue { json::object!{e.k(0) => json::object!("with space" => json::object!("" => e.o(1), "" => json::array!(json::object!("key" => e.s(2), e.k(3) => e.o(4)), [e.l(5), e.v(6), e.l(7)], e.v(8), e.s(9)), ), e.k(10) => json::array![(e.o(11))], "key" => (e.c(12)), ), e.k(13) => json::array![{type_: e.i(14) + 1, null: e.i(15), }, (e.f(16)), [e.c(17), (e.l(18)), e.o(19), e.c(20)], e.v(21), ], e.k(22) => e.i(23) + 1, "x1" => e.l(24), "" => json::object![e.k(25) => json::object!("key" => e.i(26), "quo\"te" => json::object!["\u{e9}" => json::object![e.k(27) => e.i(28) + 1, e.k(29) => e.v(30), "" => e.i(31) + 1, "x1" => e.c(32)], e.k(33) => json::array!{e.t(34), e.c(35), e.v(36), e.i(37), e.s(38)}, "quo\"te" => e.l(39), "with space" => json::array!(e.v(40), e.b(41)), "b" => json::object!{}])], e.k(42) => (5), } }
#[inline(never)] #[allow(unused)] fn s73(e: &dyn Leaves) -> JsonValue { json::object!{object: e.o(0), key: {"": [{a: null, b: e.b(1), [e.k(2)]: e.c(3)}, e.t(4), e.f(5), (e.v(6))], [e.k(7)]: "a string literal that does not fit inline"}, type_: json::object!(key: e.i(8), "quo\"te": json::object!("key" => json::array!((e.f(9)), e.o(10), null), "key" => e.v(11), "b" => json::object![e.k(12) => e.m(13), e.k(14) => e.i(15), "\u{e9}" => e.t(16), "\u{e9}" => e.o(17), "b" => e.o(18)], "quo\"te" => e.c(19)), [e.k(20)]: ["a string literal that does not fit inline", (e.i(21)), ], "": e.f(22)), [e.k(23)]: null} }
#[inline(never)] #[allow(unused)] fn s74(e: &dyn Leaves) -> JsonValue { json::array![e.i(0)] }
#[inline(never)] #[allow(unused)] fn s75(e: &dyn Leaves) -> JsonValue { json::object!(null: e.c(0), a: [e.l(1), e.i(2), e.i(3), e.v(4), 1 + 1], [e.k(5)]: e.f(6)) }
#[inline(never)] #[allow(unused)] fn s76(e: &dyn Leaves) -> JsonValue { json::array![[[[(e.c(0))], e.v(1)], null, {value: json::object!("quo\"te" => e.i(2), e.k(3) => e.t(4), "b" => "a string literal that does not fit inline"), [e.k(5)]: {[e.k(6)]: e.i(7), key: e.t(8)}, null: [e.i(9)], "x1": [e.v(10), e.l(11), e.b(12), null, (e.b(13))], "\u{e9}": [null, e.c(14), e.l(15), e.s(16), e.i(17), ], }], [], json::object!["\u{e9}" => (e.c(18)), "a" => json::array![json::array![e.l(19), false, ], [e.f(20), e.v(21), e.v(22), e.i(23)], e.v(24)], "with space" => json::array![], "a" => json::object!{"quo\"te" => e.i(25), "" => e.m(26)}]] }
#[inline(never)] #[allow(unused)] fn s77(e: &dyn Leaves) -> JsonValue { json::array!([e.m(0), [(e.b(1))], e.s(2), json::object!{e.k(3) => e.f(4), e.k(5) => e.c(6), e.k(7) => e.b(8)}, [e.v(9), e.o(10), ]], e.t(11), [[e.s(12), e.s(13)], json::object!(null: e.l(14), "key": json::JsonValue::new_array(), "key": e.t(15), ), ], [[e.s(16), e.c(17)], e.b(18)], {[e.k(19)]: (e.o(20))}, json::array![], ) }
#[inline(never)] #[allow(unused)] fn s78(e: &dyn Leaves) -> JsonValue { json::object!(e.k(0) => e.o(1), "x1" => json::object!["quo\"te" => e.v(2), "x1" => json::Null], ) }
#[inline(never)] #[allow(unused)] fn s79(e: &dyn Leaves) -> JsonValue { json::object!["\u{e9}": [{}, e.l(0), [e.l(1), e.t(2), e.i(3), "a string literal that does not fit inline", e.v(4)], null, {"\u{e9}": e.v(5), "a-key-that-is-longer-than-the-inline-buffer-of-keys": e.v(6)}]] }
#[inline(never)] #[allow(unused)] fn s80(e: &dyn Leaves) -> JsonValue { json::array![json::object![x1: e.c(0), ], null, json::array![], e.s(1), json::object!(e.k(2) => (e.v(3)), "a" => json::object!{value: json::object!{"\u{e9}" => e.i(4), "a-key-that-is-longer-than-the-inline-buffer-of-keys" => e.v(5), e.k(6) => (e.t(7))}, "with space": {key: null, "": e.t(8), [e.k(9)]: e.i(10), self_: e.l(11)}, }, "x1" => e.f(12), "a-key-that-is-longer-than-the-inline-buffer-of-keys" => json::object!{[e.k(13)]: e.c(14)}, "b" => json::object!{}, ), ] }
#[inline(never)] #[allow(unused)] fn s81(e: &dyn Leaves) -> JsonValue { json::object!["with space" => e.s(0), "a-key-that-is-longer-than-the-inline-buffer-of-keys" => json::array![e.o(1), {_u: {"b": e.i(2), "a": [e.m(3), e.s(4), null], "b": {"a": e.v(5), "\u{e9}": e.m(6), [e.k(7)]: e.i(8) + 1, array: (e.i(9) + 1), "with space": e.m(10), }, }, [e.k(11)]: e.v(12), }, e.v(13), [e.c(14), json::array!((e.s(15)), [e.o(16), (5), e.i(17) + 1], [e.i(18) + 1], {"\u{e9}": e.l(19), null: e.b(20)}, e.l(21)), (e.f(22)), ]], "key" => e.i(23) + 1, e.k(24) => e.m(25), "a" => e.i(26) + 1, e.k(27) => e.i(28), ] }
#[inline(never)] #[allow(unused)] fn s82(e: &dyn Leaves) -> JsonValue { json::object!["a" => e.o(0), "with space" => e.c(1), ] }
#[inline(never)] #[allow(unused)] fn s83(e: &dyn Leaves) -> JsonValue { json::object!{"a": {"quo\"te": null, [e.k(0)]: {"b": {object: e.b(1)}, type_: {}, [e.k(2)]: [[(e.v(3)), e.v(4), e.c(5), ], [null, e.i(6), e.l(7), (e.i(8)), ], e.s(9), ], }, "x1": [], [e.k(10)]: 0, b: 1 + 1, }, type_: json::object!("a": {value: {[e.k(11)]: {object: e.o(12), [e.k(13)]: e.i(14) + 1, null: e.m(15)}, "key": e.c(16), object: (e.i(17))}}, [e.k(18)]: [e.v(19), [e.v(20), {"": e.c(21), "b": e.b(22)}, [e.v(23), e.f(24)], e.c(25)], [{[e.k(26)]: null}, e.b(27), (5)]], type_: e.v(28), "": e.c(29))} }
#[inline(never)] #[allow(unused)] fn s84(e: &dyn Leaves) -> JsonValue { json::object!{"x1": e.b(0), "x1": {}, "key": json::object![self_: null], [e.k(1)]: [e.f(2), [], ], a: (e.c(3)), } }
#[inline(never)] #[allow(unused)] fn s85(e: &dyn Leaves) -> JsonValue { json::array!{{[e.k(0)]: [e.i(1) + 1, e.i(2), e.f(3)]}, e.v(4), e.v(5), {[e.k(6)]: {"\u{e9}": e.f(7), [e.k(8)]: e.i(9)}, [e.k(10)]: e.s(11), key: e.i(12) + 1}, [null, [(e.o(13)), e.i(14), e.l(15), ]], e.s(16), [{[e.k(17)]: (5), key: e.s(18), "with space": e.c(19), x1: e.s(20)}, ]} }
#[inline(never)] #[allow(unused)] fn s86(e: &dyn Leaves) -> JsonValue { json::array!{e.i(0), e.s(1)} }
#[inline(never)] #[allow(unused)] fn s87(e: &dyn Leaves) -> JsonValue { json::object!("": json::object!{"a": {}, "b": json::array!{}, "a": {"": e.o(0), a: e.c(1), value: e.l(2), [e.k(3)]: (5), [e.k(4)]: e.s(5), }, object: {foo: e.i(6), self_: 0, }, x1: e.m(7)}, [e.k(8)]: e.s(9), [e.k(10)]: [{a: e.c(11), "quo\"te": e.s(12)}, e.m(13)], [e.k(14)]: {"": json::object![], array: json::Null, "key": [e.s(15), (e.s(16))], }, array: e.o(17), b: {"a": e.i(18)}) }
#[inline(never)] #[allow(unused)] fn s88(e: &dyn Leaves) -> JsonValue { json::array![e.o(0), e.c(1), {self_: null, "with space": e.v(2), }, e.c(3), e.m(4)] }
#[inline(never)] #[allow(unused)] fn s89(e: &dyn Leaves) -> JsonValue { json::array!(e.f(0), null, e.c(1), [json::object!("key" => e.b(2))], {"key": {"b": null, [e.k(3)]: json::object!{x1: e.i(4), b: e.f(5)}}}, ) }
#[inline(never)] #[allow(unused)] fn s90(e: &dyn Leaves) -> JsonValue { json::object!["quo\"te" => json::object!{value: [e.i(0), e.c(1), e.v(2), e.v(3), (e.v(4))], x1: e.f(5), "a-key-that-is-longer-than-the-inline-buffer-of-keys": 1 + 1, }, "\u{e9}" => e.i(6) + 1] }
#[inline(never)] #[allow(unused)] fn s91(e: &dyn Leaves) -> JsonValue { json::object!["x1": [[e.v(0)], {[e.k(1)]: e.m(2)}, ], [e.k(3)]: e.i(4), [e.k(5)]: e.m(6), self_: [(e.o(7)), [e.t(8), [e.s(9), e.t(10)], [e.f(11)], e.m(12), {[e.k(13)]: e.l(14)}], e.i(15), ], [e.k(16)]: {object: json::object!([e.k(17)]: (5), "quo\"te": [e.c(18)], "with space": []), foo: [{_u: e.i(19), value: e.i(20), }], }] }
#[inline(never)] #[allow(unused)] fn s92(e: &dyn Leaves) -> JsonValue { json::array![json::object![], json::object!(a: e.i(0)), e.i(1) + 1, [e.l(2), e.i(3) + 1, ]] }
#[inline(never)] #[allow(unused)] fn s93(e: &dyn Leaves) -> JsonValue { json::array!([{a: e.b(0), }, {a: e.c(1), object: e.v(2), }, e.c(3), [e.i(4) + 1, e.m(5), -7, -7, e.b(6)], (e.i(7)), ], [{"with space": e.m(8), b: e.m(9), "a-key-that-is-longer-than-the-inline-buffer-of-keys": e.s(10)}], {_u: [e.v(11), e.o(12), e.o(13), e.o(14), ], "a-key-that-is-longer-than-the-inline-buffer-of-keys": (5)}) }
#[inline(never)] #[allow(unused)] fn s94(e: &dyn Leaves) -> JsonValue { json::array!{(e.i(0)), e.i(1) + 1, e.b(2), e.f(3), e.c(4)} }
#[inline(never)] #[allow(unused)] fn s95(e: &dyn Leaves) -> JsonValue { json::object!(e.k(0) => e.t(1), e.k(2) => json::object![e.k(3) => json::object!("quo\"te" => json::array!(null, e.o(4), e.c(5)), e.k(6) => e.l(7), "a" => json::array!(e.c(8))), e.k(9) => e.c(10)], e.k(11) => json::array!{e.i(12) + 1, json::object!("a" => e.s(13)), [{"b": e.c(14), }, e.i(15), ], e.c(16)}, "\u{e9}" => json::array!(json::object!("a-key-that-is-longer-than-the-inline-buffer-of-keys" => json::object!{"" => (e.l(17)), e.k(18) => e.i(19) + 1}, "" => json::array![e.t(20), e.l(21), e.m(22), e.s(23), (e.c(24))]), [[e.s(25), e.m(26), e.b(27)], e.b(28), json::object!{x1: null, "a": e.i(29), type_: e.c(30), "b": e.f(31), type_: null}, ], (e.i(32)), [e.i(33), {x1: e.i(34)}], )) }
#[inline(never)] #[allow(unused)] fn s96(e: &dyn Leaves) -> JsonValue { json::array![e.c(0), e.i(1), e.l(2), [0, ], {object: [e.m(3), e.c(4), e.t(5), e.t(6), ], "\u{e9}": {"": e.v(7), [e.k(8)]: "text"}, key: {"key": e.f(9), [e.k(10)]: e.v(11), "a": e.i(12) + 1, foo: e.v(13)}, [e.k(14)]: e.m(15), null: e.i(16)}, e.v(17)] }
#[inline(never)] #[allow(unused)] fn s97(e: &dyn Leaves) -> JsonValue { json::array!{e.v(0), {null: {[e.k(1)]: e.i(2), [e.k(3)]: {value: (e.i(4) + 1), key: e.i(5)}}, a: {"a": e.i(6)}}, e.m(7), } }
#[inline(never)] #[allow(unused)] fn s98(e: &dyn Leaves) -> JsonValue { json::array!(json::object!["a-key-that-is-longer-than-the-inline-buffer-of-keys": [[e.c(0), ], e.f(1), e.o(2), {x1: e.f(3), }], b: {[e.k(4)]: null, "with space": {object: (e.i(5))}, }, ], (e.v(6)), {b: [{object: e.s(7), key: null, a: e.i(8), array: null, key: e.o(9)}, json::object![a: e.v(10), [e.k(11)]: e.c(12)], [e.t(13), e.m(14), (e.c(15)), ]], foo: e.c(16)}, {self_: {null: [(e.b(17)), e.s(18), ], self_: e.v(19), [e.k(20)]: {}, }, "\u{e9}": {"with space": e.i(21)}}, ) }
#[inline(never)] #[allow(unused)] fn s99(e: &dyn Leaves) -> JsonValue { json::object!{e.k(0) => e.t(1), e.k(2) => json::object!{[e.k(3)]: null, [e.k(4)]: e.v(5), "a": e.o(6), type_: e.v(7), _u: "text", }, "quo\"te" => json::array!{(e.o(8)), e.t(9), }, "b" => json::array!{e.s(10), }, "quo\"te" => e.v(11), } }
#[inline(never)] #[allow(unused)] fn s100(e: &dyn Leaves) -> JsonValue { json::array!([e.o(0), e.f(1), {"key": e.c(2), [e.k(3)]: {[e.k(4)]: -7, _u: (e.i(5))}}, ], ["a string literal that does not fit inline", ], (e.i(6)), null, e.i(7) + 1, {"with space": {[e.k(8)]: json::array!{e.s(9), e.v(10), (e.f(11)), e.f(12), }}, self_: [[e.i(13) + 1, (e.f(14)), e.s(15), e.l(16), ], ], "key": e.i(17) + 1}, [], {value: e.m(18), type_: e.i(19), [e.k(20)]: null, value: e.v(21), self_: e.c(22), }, ) }
#[inline(never)] #[allow(unused)] fn s101(e: &dyn Leaves) -> JsonValue { json::object![x1: [e.b(0), {}, {[e.k(1)]: e.c(2), foo: null, object: e.s(3), [e.k(4)]: (e.b(5)), null: (e.c(6)), }, ], _u: json::object!{"with space" => e.i(7)}, a: e.f(8), self_: [null]] }
#[inline(never)] #[allow(unused)] fn s102(e: &dyn Leaves) -> JsonValue { json::object!([e.k(0)]: [{object: json::object!{[e.k(1)]: e.i(2), [e.k(3)]: e.f(4), [e.k(5)]: null, a: e.b(6), x1: null}, type_: {[e.k(7)]: e.t(8), "a": e.v(9)}, [e.k(10)]: e.i(11)}, e.v(12), {[e.k(13)]: [e.c(14), e.i(15) + 1, e.f(16), e.v(17), ], [e.k(18)]: e.i(19), "a": null, [e.k(20)]: [false, e.s(21), e.i(22), ]}, ], array: e.f(23), "quo\"te": null, array: e.o(24), "quo\"te": [json::array!(), e.v(25), ]) }
#[inline(never)] #[allow(unused)] fn s103(e: &dyn Leaves) -> JsonValue { json::object!("x1" => json::array!(e.v(0), e.o(1), e.f(2)), "with space" => json::object!("a" => json::object!{"key" => e.v(3), "x1" => (e.v(4)), "\u{e9}" => e.m(5)}, "a-key-that-is-longer-than-the-inline-buffer-of-keys" => json::array!(e.f(6), e.i(7)), "a-key-that-is-longer-than-the-inline-buffer-of-keys" => e.b(8)), ) }
#[inline(never)] #[allow(unused)] fn s104(e: &dyn Leaves) -> JsonValue { json::array![[e.m(0), [e.i(1) + 1], {"quo\"te": e.i(2), null: e.v(3), "quo\"te": e.t(4), a: e.i(5) + 1, }, {[e.k(6)]: e.v(7), value: e.m(8)}], e.o(9)] }
#[inline(never)] #[allow(unused)] fn s105(e: &dyn Leaves) -> JsonValue { json::array![[false, e.b(0), e.i(1), (e.i(2)), e.o(3)], {}, (e.v(4)), (e.i(5) + 1), (e.m(6)), e.b(7), ] }
#[inline(never)] #[allow(unused)] fn s106(e: &dyn Leaves) -> JsonValue { json::object!["" => (e.c(0)), e.k(1) => json::array!(e.c(2), e.i(3), e.s(4)), ] }
#[inline(never)] #[allow(unused)] fn s107(e: &dyn Leaves) -> JsonValue { json::array!{[(e.c(0)), (e.s(1)), json::object!["with space": e.i(2), [e.k(3)]: e.v(4), "quo\"te": e.v(5)], e.c(6), [e.f(7), e.m(8)]], {"with space": e.c(9), [e.k(10)]: {"": e.t(11)}, }, e.o(12), e.i(13)} }
#[inline(never)] #[allow(unused)] fn s108(e: &dyn Leaves) -> JsonValue { json::array![e.l(0), {"": e.i(1)}, e.s(2)] }
#[inline(never)] #[allow(unused)] fn s109(e: &dyn Leaves) -> JsonValue { json::object!["a-key-that-is-longer-than-the-inline-buffer-of-keys": e.i(0) + 1, ] }
#[inline(never)] #[allow(unused)] fn s110(e: &dyn Leaves) -> JsonValue { json::array![json::object![e.k(0) => json::array!(e.l(1), e.f(2)), "quo\"te" => e.v(3)], e.b(4), e.m(5), e.i(6), e.s(7), ] }
#[inline(never)] #[allow(unused)] fn s111(e: &dyn Leaves) -> JsonValue { json::array![e.v(0), e.t(1), e.o(2), [{[e.k(3)]: [e.m(4), (e.l(5))], }], [json::array!{e.v(6), {}, (5), {}, []}, {"a": (e.m(7)), "x1": {x1: e.i(8) + 1, "key": e.c(9), value: e.b(10)}, [e.k(11)]: [(e.m(12)), e.m(13), null, e.c(14)]}, [[e.o(15), e.o(16), (e.i(17)), ], e.i(18), {}, ], ], {self_: e.m(19)}, e.l(20)] }
#[inline(never)] #[allow(unused)] fn s112(e: &dyn Leaves) -> JsonValue { json::object!{"" => json::array![-7, e.v(0), e.i(1), e.o(2)], "a" => json::array!{e.m(3)}, } }
#[inline(never)] #[allow(unused)] fn s113(e: &dyn Leaves) -> JsonValue { json::object!["a": e.v(0), value: (e.i(1)), null: json::object!["a-key-that-is-longer-than-the-inline-buffer-of-keys" => json::array![], "a-key-that-is-longer-than-the-inline-buffer-of-keys" => e.f(2)], [e.k(3)]: [], self_: e.s(4)] }
#[inline(never)] #[allow(unused)] fn s114(e: &dyn Leaves) -> JsonValue { json::array![e.l(0), e.m(1), ] }
#[inline(never)] #[allow(unused)] fn s115(e: &dyn Leaves) -> JsonValue { json::array!(e.c(0), e.l(1), ) }
#[inline(never)] #[allow(unused)] fn s116(e: &dyn Leaves) -> JsonValue { json::array!{json::object!["a": {value: e.f(0), _u: {_u: (e.i(1)), [e.k(2)]: e.s(3), null: e.s(4), }, "a-key-that-is-longer-than-the-inline-buffer-of-keys": e.i(5) + 1, "": json::array![e.v(6), e.v(7), e.i(8), e.v(9), (e.v(10))], x1: {b: e.b(11), b: e.v(12), "": null, }}, b: e.c(13), foo: (e.i(14)), key: e.c(15), self_: e.m(16)], e.s(17), json::array!{[e.v(18), {}, {[e.k(19)]: null}, [e.s(20)], {[e.k(21)]: e.c(22), }, ], (e.t(23))}, {[e.k(24)]: (e.c(25)), value: e.l(26)}, (e.i(27) + 1), json::object![[e.k(28)]: (e.s(29)), object: {[e.k(30)]: {[e.k(31)]: e.m(32), value: (e.l(33))}, [e.k(34)]: [e.i(35), e.i(36), e.t(37), (e.i(38) + 1)]}]} }
#[inline(never)] #[allow(unused)] fn s117(e: &dyn Leaves) -> JsonValue { json::object!{array: [e.t(0), e.o(1)], x1: e.v(2), null: [null], x1: {"\u{e9}": json::array!([], e.o(3), {}, ), type_: [[e.m(4), e.v(5), e.s(6)], e.i(7)], }, foo: [e.v(8), [{value: (e.f(9)), foo: e.f(10), [e.k(11)]: (e.v(12)), value: e.o(13), array: e.i(14), }, [(e.v(15)), ]], [e.v(16), json::array![0, "text", e.c(17), e.c(18)], e.i(19)], e.m(20), ], value: (e.t(21)), } }
#[inline(never)] #[allow(unused)] fn s118(e: &dyn Leaves) -> JsonValue { json::object!("x1" => e.i(0), "quo\"te" => e.b(1), "a" => e.i(2), e.k(3) => json::object!{[e.k(4)]: [e.m(5), e.t(6), (e.i(7) + 1)], type_: e.o(8), }, "with space" => e.f(9), e.k(10) => e.v(11), e.k(12) => e.i(13) + 1, ) }
#[inline(never)] #[allow(unused)] fn s119(e: &dyn Leaves) -> JsonValue { json::object!{type_: e.c(0), "": e.t(1), object: json::object!{foo: {[e.k(2)]: [e.s(3), json::JsonValue::new_array(), e.c(4)], _u: [(e.t(5)), e.i(6) + 1, ], "": e.c(7), [e.k(8)]: {[e.k(9)]: (e.c(10)), [e.k(11)]: e.i(12) + 1, "key": (e.v(13)), }, _u: e.c(14), }, [e.k(15)]: [], value: e.i(16), }, x1: [(e.i(17) + 1), [[e.v(18), ], e.c(19), e.c(20), []], [null, (e.t(21)), {[e.k(22)]: e.c(23), null: e.v(24), "a-key-that-is-longer-than-the-inline-buffer-of-keys": e.i(25)}]], } }
#[inline(never)] #[allow(unused)] fn s120(e: &dyn Leaves) -> JsonValue { json::array!(e.s(0), "a string literal that does not fit inline", e.s(1), [[e.b(2), "text"], [e.c(3), null, (e.c(4)), ], {[e.k(5)]: null}, [e.i(6), ], {foo: e.m(7), array: e.v(8), }], json::object!(x1: e.l(9), "quo\"te": {_u: e.i(10), array: e.v(11), type_: e.l(12), [e.k(13)]: e.v(14), }), ) }
#[inline(never)] #[allow(unused)] fn s121(e: &dyn Leaves) -> JsonValue { json::array!(e.f(0), [{}, json::object!{"b" => e.l(1), "with space" => e.f(2), "quo\"te" => 0}, e.c(3)], [[e.c(4)], e.c(5)], ) }
#[inline(never)] #[allow(unused)] fn s122(e: &dyn Leaves) -> JsonValue { json::array!{[[e.i(0), (e.f(1)), e.v(2), e.c(3), e.s(4), ], e.i(5) + 1, e.v(6), ], (e.s(7)), {"quo\"te": null, [e.k(8)]: {array: e.o(9), null: e.c(10), "\u{e9}": e.c(11), b: e.v(12), [e.k(13)]: e.o(14)}}} }
#[inline(never)] #[allow(unused)] fn s123(e: &dyn Leaves) -> JsonValue { json::object!{"a": [e.c(0), e.v(1), e.o(2), e.i(3), ], array: (e.b(4)), a: json::object!("": e.v(5), [e.k(6)]: null, [e.k(7)]: e.i(8) + 1, ), object: null, [e.k(9)]: json::object!(object: e.v(10)), [e.k(11)]: e.i(12), array: e.t(13), [e.k(14)]: [e.f(15)]} }
#[inline(never)] #[allow(unused)] fn s124(e: &dyn Leaves) -> JsonValue { json::array!(json::object!(_u: {null: [e.l(0), e.s(1)], type_: [true]}), (e.o(2)), {foo: json::object![null: e.i(3) + 1, value: {[e.k(4)]: e.v(5), foo: e.m(6), }, "b": e.f(7), "": e.o(8), ]}, e.f(9), [(e.v(10)), json::object!("a": json::object!([e.k(11)]: e.i(12), )), (e.l(13)), e.s(14), e.i(15) + 1, ]) }
#[inline(never)] #[allow(unused)] fn s125(e: &dyn Leaves) -> JsonValue { json::array!{true, {}, {key: [{key: e.c(0), "with space": (e.v(1)), b: {type_: e.s(2), x1: (e.c(3)), [e.k(4)]: e.i(5) + 1}, null: {"a": (e.v(6)), x1: e.l(7)}}, {}, {x1: e.s(8), foo: e.l(9), b: {b: (e.t(10)), array: e.l(11), x1: (e.m(12))}}, [[json::JsonValue::new_array(), null], e.i(13) + 1, e.v(14)], ], "": {value: [{"b": e.t(15), [e.k(16)]: (e.i(17)), }, ], foo: []}, }} }
#[inline(never)] #[allow(unused)] fn s126(e: &dyn Leaves) -> JsonValue { json::array!{{a: e.o(0), "": e.c(1), }, [e.i(2) + 1, e.m(3), (e.i(4)), e.c(5)], e.v(6), e.v(7), json::object!["\u{e9}" => 42, "a" => e.f(8), "b" => e.i(9), "b" => e.o(10), "\u{e9}" => e.b(11)], e.v(12)} }
#[inline(never)] #[allow(unused)] fn s127(e: &dyn Leaves) -> JsonValue { json::array!{e.m(0), e.c(1), json::array![[(e.o(2)), e.t(3), {"x1": e.l(4), [e.k(5)]: e.f(6), x1: json::object!["key" => e.i(7)], }, e.v(8), ], {[e.k(9)]: [json::object!["key" => e.m(10), "x1" => e.c(11), "a" => e.v(12)], json::object![[e.k(13)]: e.c(14), "a": e.o(15), null: e.s(16), null: e.o(17), [e.k(18)]: e.v(19)], [e.t(20), e.m(21)]], a: e.l(22), type_: json::array!{e.i(23), e.b(24), }}, ], json::object!{"with space" => e.c(25), "key" => json::object!["" => json::array!{[(e.t(26)), e.s(27), e.v(28)], "text", null}], e.k(29) => json::array![[{"with space": e.o(30), "\u{e9}": e.m(31), "with space": -7, "a-key-that-is-longer-than-the-inline-buffer-of-keys": e.i(32) + 1}, ], [[e.i(33), e.m(34), e.l(35), ], [e.i(36) + 1, e.t(37), e.l(38), ], ]]}, } }
#[inline(never)] #[allow(unused)] fn s128(e: &dyn Leaves) -> JsonValue { json::object!{"a-key-that-is-longer-than-the-inline-buffer-of-keys" => e.i(0) + 1, "" => (e.i(1) + 1), "with space" => e.b(2), e.k(3) => json::array!(e.v(4), [(e.b(5)), e.m(6), e.c(7), e.c(8), (e.o(9))]), } }
#[inline(never)] #[allow(unused)] fn s129(e: &dyn Leaves) -> JsonValue { json::object![e.k(0) => false, "a-key-that-is-longer-than-the-inline-buffer-of-keys" => e.v(1), "" => json::array!{e.i(2) + 1, -7}, e.k(3) => e.s(4), e.k(5) => e.o(6)] }
#[inline(never)] #[allow(unused)] fn s130(e: &dyn Leaves) -> JsonValue { json::array!(e.s(0), {key: json::array!{e.v(1), e.i(2) + 1, e.s(3)}, }, ) }
#[inline(never)] #[allow(unused)] fn s131(e: &dyn Leaves) -> JsonValue { json::array!{{array: e.i(0), _u: {"a-key-that-is-longer-than-the-inline-buffer-of-keys": e.c(1), "a-key-that-is-longer-than-the-inline-buffer-of-keys": e.l(2), }, "x1": e.i(3)}, {[e.k(4)]: [e.m(5), e.m(6), null, e.v(7)], [e.k(8)]: json::object!(a: e.o(9), "quo\"te": e.i(10), [e.k(11)]: e.i(12), self_: null, "x1": e.o(13)), array: e.i(14) + 1, "key": e.m(15)}, {"\u{e9}": e.v(16), [e.k(17)]: [], "x1": (e.i(18)), b: {value: e.i(19), a: e.m(20), x1: e.m(21), }}, (e.i(22))} }
#[inline(never)] #[allow(unused)] fn s132(e: &dyn Leaves) -> JsonValue { json::array![[json::array!(e.i(0) + 1, 1 + 1, ), json::array!{e.s(1), json::array!{e.m(2), (e.o(3))}, null, null}, ], (5), {[e.k(4)]: e.v(5), }, {value: [{[e.k(6)]: e.c(7), a: (5)}, (5), [e.l(8), e.i(9), (e.c(10)), ]], array: e.t(11), }, [e.s(12), e.i(13), e.s(14)], e.v(15), ] }
#[inline(never)] #[allow(unused)] fn s133(e: &dyn Leaves) -> JsonValue { json::array![e.f(0), (e.l(1)), e.c(2), e.t(3), e.c(4), ] }
#[inline(never)] #[allow(unused)] fn s134(e: &dyn Leaves) -> JsonValue { json::object!(e.k(0) => json::object!("a-key-that-is-longer-than-the-inline-buffer-of-keys" => 1 + 1, "\u{e9}" => false, e.k(1) => json::array![[], [json::object!(foo: e.f(2), "x1": e.o(3), [e.k(4)]: e.i(5), "key": e.m(6)), "text"], ]), "quo\"te" => json::object!["with space" => e.v(7), "with space" => json::object!([e.k(8)]: e.c(9)), e.k(10) => "text", ], "with space" => json::object!["x1" => json::array![], e.k(11) => e.i(12), "x1" => e.m(13)], e.k(14) => json::array!{{}, [json::object!{"with space" => json::object!{e.k(15) => 0, "a" => e.m(16), "b" => e.v(17), e.k(18) => e.v(19), "" => e.o(20)}, "quo\"te" => e.i(21) + 1, "key" => (e.t(22)), e.k(23) => (e.c(24)), }, [{x1: e.i(25) + 1, }, ], [{object: e.i(26), array: e.b(27)}, [e.o(28), null, e.f(29)], {[e.k(30)]: null, "x1": e.m(31)}, json::array![e.c(32)]]], [[[e.s(33), e.t(34), e.m(35), e.v(36), e.c(37), ], {[e.k(38)]: e.s(39), "b": e.f(40)}], {"quo\"te": {}, [e.k(41)]: json::object!["x1": e.t(42)], [e.k(43)]: [e.i(44) + 1], "b": json::JsonValue::new_array(), _u: [e.m(45), ]}]}, ) }
#[inline(never)] #[allow(unused)] fn s135(e: &dyn Leaves) -> JsonValue { json::array![json::object!{"a": {"x1": -7, [e.k(0)]: null}, "quo\"te": e.v(1), "x1": {"a-key-that-is-longer-than-the-inline-buffer-of-keys": e.c(2), value: e.v(3), [e.k(4)]: e.l(5), [e.k(6)]: e.c(7), value: e.c(8)}, "\u{e9}": {"key": 42, "": e.l(9), "\u{e9}": e.c(10), [e.k(11)]: e.c(12), x1: e.c(13), }, key: e.s(14)}, [null, ], [e.i(15) + 1, json::array![e.c(16)], e.v(17), ], ] }
#[inline(never)] #[allow(unused)] fn s136(e: &dyn Leaves) -> JsonValue { json::object!(e.k(0) => (e.v(1)), e.k(2) => json::array![json::array!()], e.k(3) => e.i(4), "quo\"te" => json::array!{[e.v(5), e.l(6), e.i(7)], {"x1": e.f(8), b: e.s(9), [e.k(10)]: e.c(11), "a": e.b(12), }, e.s(13), e.m(14), e.m(15), }, e.k(16) => json::array!(e.o(17), (e.v(18)), (5), ), ) }
#[inline(never)] #[allow(unused)] fn s137(e: &dyn Leaves) -> JsonValue { json::object!(null: {"with space": 1 + 1, array: [{a: json::object!("x1" => e.i(0), "\u{e9}" => e.b(1), e.k(2) => e.t(3), "b" => e.f(4), "key" => (e.v(5)), ), [e.k(6)]: e.t(7), b: e.s(8)}, {}, json::object!{"with space" => json::object!([e.k(9)]: e.t(10), "b": (e.v(11)), ), e.k(12) => json::array![e.b(13), e.i(14) + 1]}, null]}, "a": [json::object![array: [e.f(15), e.i(16) + 1, ], "b": [e.o(17), (e.s(18))], object: e.v(19)], [[e.v(20)], {a: [e.c(21), e.b(22), e.b(23), ]}], json::object!{"a-key-that-is-longer-than-the-inline-buffer-of-keys" => e.m(24), "b" => json::object!{"a" => json::array!{e.v(25), e.c(26), e.c(27), e.i(28)}, "a" => json::array!(e.v(29), e.c(30), e.v(31), )}, }, e.v(32)], "key": [e.c(33), [{}, {array: "text", key: {key: (e.b(34))}, [e.k(35)]: {}, "x1": [e.v(36), e.i(37), ]}], [{}], ], b: (e.t(38)), [e.k(39)]: [[[e.t(40), (e.v(41)), [json::Null], [e.i(42), null, ], ], e.s(43), (e.m(44))], [{}, ], e.i(45), ]) }
#[inline(never)] #[allow(unused)] fn s138(e: &dyn Leaves) -> JsonValue { json::array!{[{type_: e.i(0) + 1, }, e.i(1) + 1, e.s(2), (e.o(3))], false, [e.o(4)], } }
#[inline(never)] #[allow(unused)] fn s139(e: &dyn Leaves) -> JsonValue { json::object!{foo: e.l(0), "a-key-that-is-longer-than-the-inline-buffer-of-keys": e.f(1), null: e.o(2), [e.k(3)]: {type_: {object: (e.c(4)), "with space": e.o(5), a: (e.i(6) + 1)}, "a": [e.m(7), e.i(8) + 1, ], "": e.c(9)}} }
#[inline(never)] #[allow(unused)] fn s140(e: &dyn Leaves) -> JsonValue { json::object!["with space" => json::object!(), "b" => json::object!["\u{e9}" => e.v(0), "b" => e.o(1), "a" => json::object!{"b" => json::array![e.o(2), ], "quo\"te" => e.v(3), e.k(4) => json::array!{e.i(5) + 1, e.o(6), 0}, "\u{e9}" => e.v(7), e.k(8) => json::array!(e.v(9), json::JsonValue::new_array(), (e.s(10))), }, e.k(11) => e.i(12), e.k(13) => json::object!(e.k(14) => (e.i(15)))], e.k(16) => json::array!(e.t(17), [[]]), "a-key-that-is-longer-than-the-inline-buffer-of-keys" => (e.f(18))] }
#[inline(never)] #[allow(unused)] fn s141(e: &dyn Leaves) -> JsonValue { json::array!(null, {}, e.v(0), ) }
#[inline(never)] #[allow(unused)] fn s142(e: &dyn Leaves) -> JsonValue { json::array![{key: e.i(0), [e.k(1)]: e.i(2) + 1}, [e.i(3)], e.t(4), e.i(5), null, e.i(6), [e.m(7), null, e.f(8), e.v(9)]] }
#[inline(never)] #[allow(unused)] fn s143(e: &dyn Leaves) -> JsonValue { json::object!{"a" => e.s(0), "with space" => (5), "a-key-that-is-longer-than-the-inline-buffer-of-keys" => json::array!(e.v(1), e.l(2)), e.k(3) => json::object!([e.k(4)]: e.b(5), null: [], [e.k(6)]: e.f(7)), "x1" => json::array![{a: e.t(8), _u: e.i(9), a: e.v(10)}, [e.f(11), e.i(12), (e.s(13)), (e.i(14)), ], e.f(15)], "\u{e9}" => e.l(16), } }
#[inline(never)] #[allow(unused)] fn s144(e: &dyn Leaves) -> JsonValue { json::array!(json::object![[e.k(0)]: e.t(1)], e.c(2), [e.i(3) + 1, ], [e.v(4), (e.b(5)), (e.v(6)), e.v(7), e.f(8)], ) }
#[inline(never)] #[allow(unused)] fn s145(e: &dyn Leaves) -> JsonValue { json::object!("\u{e9}" => json::object!{"quo\"te" => json::object!([e.k(0)]: {"x1": e.v(1), "a-key-that-is-longer-than-the-inline-buffer-of-keys": e.f(2)}, "quo\"te": e.c(3)), e.k(4) => json::array!{}, "" => json::object![]}, "a" => json::array!([e.c(5), json::object![x1: json::Null, value: e.o(6), [e.k(7)]: (e.f(8)), ], {"with space": e.f(9), b: e.m(10), a: e.c(11), }, null, [e.i(12) + 1, e.l(13), 0, ], ], [e.i(14), e.s(15), ], {type_: e.v(16), "a-key-that-is-longer-than-the-inline-buffer-of-keys": [e.c(17), e.f(18)], [e.k(19)]: [null, (e.c(20)), e.i(21) + 1, ]}, ), e.k(22) => json::array!{(e.f(23))}, ) }
#[inline(never)] #[allow(unused)] fn s146(e: &dyn Leaves) -> JsonValue { json::object!["a" => json::object!(self_: e.m(0), a: null), "quo\"te" => e.c(1), "a" => json::object![null: e.c(2), "a-key-that-is-longer-than-the-inline-buffer-of-keys": e.m(3), "a": e.i(4), "a": null]] }
#[inline(never)] #[allow(unused)] fn s147(e: &dyn Leaves) -> JsonValue { json::array!(e.v(0), {key: {}, self_: [e.c(1), json::array!(e.m(2), e.s(3), e.c(4)), json::object!("" => e.s(5), "\u{e9}" => e.b(6), e.k(7) => e.s(8)), [e.i(9), 0], e.v(10), ], }, json::array![[[(e.i(11))], ["text", e.t(12), e.m(13), ], [e.i(14)], [e.m(15), ], (e.l(16)), ], {"key": (e.c(17)), "a-key-that-is-longer-than-the-inline-buffer-of-keys": e.f(18), }, [-7, json::object!(array: e.t(19), "": e.m(20), value: e.s(21), null: e.v(22), ), json::object!{x1: e.i(23), type_: e.t(24), null: e.c(25), foo: null, }, ], json::object!(type_: [e.o(26), (e.s(27)), e.t(28), e.v(29), "a string literal that does not fit inline"], object: [(e.i(30)), e.v(31), ], key: json::object!(type_: (e.v(32)), foo: (e.c(33)), object: e.i(34) + 1, ), [e.k(35)]: e.b(36))], {"with space": null, [e.k(37)]: e.i(38) + 1}, null, ) }
#[inline(never)] #[allow(unused)] fn s148(e: &dyn Leaves) -> JsonValue { json::array![e.i(0) + 1, e.o(1), [0, [], {"b": json::object!{"a" => json::JsonValue::new_array()}, b: (e.b(2)), self_: (e.v(3)), b: [e.s(4), (e.b(5)), (e.b(6))]}], ] }
#[inline(never)] #[allow(unused)] fn s149(e: &dyn Leaves) -> JsonValue { json::array!{[e.c(0), [[(e.l(1)), e.v(2), e.i(3)]], [e.t(4), [null, e.i(5), (5), e.v(6), ], e.i(7), {[e.k(8)]: (e.v(9)), "x1": e.i(10) + 1, [e.k(11)]: (e.v(12))}], [e.t(13), {}, e.v(14), {key: e.t(15), [e.k(16)]: e.o(17), }], {[e.k(18)]: {"": e.c(19), }, key: null}, ], {key: [e.m(20), ], [e.k(21)]: [e.f(22), {type_: e.v(23), "": null, [e.k(24)]: e.i(25), key: e.m(26)}, (e.t(27))], "b": (e.v(28)), "a-key-that-is-longer-than-the-inline-buffer-of-keys": e.c(29)}, {"\u{e9}": e.i(30), }, e.c(31), e.m(32)} }
#[inline(never)] #[allow(unused)] fn s150(e: &dyn Leaves) -> JsonValue { json::array!{{"key": [e.v(0), {"a": e.l(1), object: e.t(2), "a": e.i(3), array: e.f(4), }, ], "b": (e.c(5))}, e.i(6) + 1} }
#[inline(never)] #[allow(unused)] fn s151(e: &dyn Leaves) -> JsonValue { json::array!({}, [e.t(0), [[e.b(1), e.v(2)]]], e.t(3), {type_: e.i(4) + 1, [e.k(5)]: e.i(6) + 1}, (e.b(7)), [e.c(8), e.m(9), e.v(10)]) }
#[inline(never)] #[allow(unused)] fn s152(e: &dyn Leaves) -> JsonValue { json::array![{[e.k(0)]: null, [e.k(1)]: e.c(2), "a-key-that-is-longer-than-the-inline-buffer-of-keys": json::array![e.v(3), [e.o(4)]]}, [e.i(5)], {a: [{[e.k(6)]: (e.b(7))}, e.b(8)], [e.k(9)]: [[(e.i(10) + 1), e.v(11), (e.l(12)), e.v(13), ], e.f(14), {x1: e.i(15) + 1, x1: e.t(16), type_: null}], }] }
#[inline(never)] #[allow(unused)] fn s153(e: &dyn Leaves) -> JsonValue { json::array!({[e.k(0)]: {_u: (e.f(1)), [e.k(2)]: e.o(3), }, [e.k(4)]: e.l(5), foo: (e.i(6) + 1)}, {x1: {}, _u: e.l(7), "key": [1 + 1, json::object!{a: e.i(8), self_: e.c(9), [e.k(10)]: e.f(11), array: e.f(12), [e.k(13)]: e.i(14) + 1}, e.l(15), {self_: e.f(16)}]}, {}, e.v(17), ) }
#[inline(never)] #[allow(unused)] fn s154(e: &dyn Leaves) -> JsonValue { json::array!(e.i(0) + 1, [e.c(1), json::object![value: {null: e.i(2), type_: (5), }, "b": {_u: e.v(3), type_: e.b(4)}, "x1": {}, array: {[e.k(5)]: e.i(6) + 1, "a": e.l(7)}, "\u{e9}": json::array![e.i(8), true, ], ], (e.c(9))], (e.v(10)), e.v(11)) }
#[inline(never)] #[allow(unused)] fn s155(e: &dyn Leaves) -> JsonValue { json::array![e.v(0), (e.c(1)), [], e.f(2)] }
#[inline(never)] #[allow(unused)] fn s156(e: &dyn Leaves) -> JsonValue { json::array![e.c(0)] }
#[inline(never)] #[allow(unused)] fn s157(e: &dyn Leaves) -> JsonValue { json::object!{e.k(0) => e.m(1), e.k(2) => e.l(3), "quo\"te" => json::array![], "quo\"te" => json::object!{"quo\"te": e.b(4)}, } }
#[inline(never)] #[allow(unused)] fn s158(e: &dyn Leaves) -> JsonValue { json::array!(e.v(0), {[e.k(1)]: e.i(2)}, [e.t(3)], {"key": null}, ) }
#[inline(never)] #[allow(unused)] fn s159(e: &dyn Leaves) -> JsonValue { json::object!("b": [json::Null, (e.o(0))], "a": json::array!({"with space": e.v(1), "x1": e.v(2)}, [e.c(3), false, e.m(4), ], (e.v(5))), "b": e.v(6), foo: {[e.k(7)]: (e.c(8)), [e.k(9)]: json::array!{1 + 1, (e.o(10))}}, ) }

pub static SHAPES: &[Shape] = &[
    Shape { text: r####"json::array![]"####, build: s0, is: Sh::Arr(&[]) },
    Shape { text: r####"json::object!{}"####, build: s1, is: Sh::Obj(&[]) },
    Shape { text: r####"json::value!(null)"####, build: s2, is: Sh::Null },
    Shape { text: r####"json::value!([e.v(0), {a: e.v(1)}])"####, build: s3, is: Sh::Arr(&[Sh::Leaf(Kind::V, 0), Sh::Obj(&[(Ky::Is("a"), Sh::Leaf(Kind::V, 1))])]) },
    Shape { text: r####"json::value!({a: e.v(0), "b": [e.i(1)]})"####, build: s4, is: Sh::Obj(&[(Ky::Is("a"), Sh::Leaf(Kind::V, 0)), (Ky::Is("b"), Sh::Arr(&[Sh::Leaf(Kind::I, 1)]))]) },
    Shape { text: r####"json::value!(e.v(0))"####, build: s5, is: Sh::Leaf(Kind::V, 0) },
    Shape { text: r####"json::array![[[[[[[[e.v(0)]]]]]]]]"####, build: s6, is: Sh::Arr(&[Sh::Arr(&[Sh::Arr(&[Sh::Arr(&[Sh::Arr(&[Sh::Arr(&[Sh::Arr(&[Sh::Arr(&[Sh::Leaf(Kind::V, 0)])])])])])])])]) },
    Shape { text: r####"json::object!{a: {a: {a: {a: {a: {a: e.c(0)}}}}}}"####, build: s7, is: Sh::Obj(&[(Ky::Is("a"), Sh::Obj(&[(Ky::Is("a"), Sh::Obj(&[(Ky::Is("a"), Sh::Obj(&[(Ky::Is("a"), Sh::Obj(&[(Ky::Is("a"), Sh::Obj(&[(Ky::Is("a"), Sh::Leaf(Kind::C, 0))]))]))]))]))]))]) },
    Shape { text: r####"json::array![e.i(0), e.i(1), e.i(2), e.i(3), e.i(4), e.i(5), e.i(6), e.i(7), e.i(8), e.i(9), e.i(10), e.i(11), e.i(12), e.i(13), e.i(14), e.i(15), e.i(16), e.i(17), e.i(18), e.i(19), e.i(20), e.i(21), e.i(22), e.i(23)]"####, build: s8, is: Sh::Arr(&[Sh::Leaf(Kind::I, 0), Sh::Leaf(Kind::I, 1), Sh::Leaf(Kind::I, 2), Sh::Leaf(Kind::I, 3), Sh::Leaf(Kind::I, 4), Sh::Leaf(Kind::I, 5), Sh::Leaf(Kind::I, 6), Sh::Leaf(Kind::I, 7), Sh::Leaf(Kind::I, 8), Sh::Leaf(Kind::I, 9), Sh::Leaf(Kind::I, 10), Sh::Leaf(Kind::I, 11), Sh::Leaf(Kind::I, 12), Sh::Leaf(Kind::I, 13), Sh::Leaf(Kind::I, 14), Sh::Leaf(Kind::I, 15), Sh::Leaf(Kind::I, 16), Sh::Leaf(Kind::I, 17), Sh::Leaf(Kind::I, 18), Sh::Leaf(Kind::I, 19), Sh::Leaf(Kind::I, 20), Sh::Leaf(Kind::I, 21), Sh::Leaf(Kind::I, 22), Sh::Leaf(Kind::I, 23)]) },
    Shape { text: r####"json::object!{[e.k(0)]: e.v(1), [e.k(2)]: e.v(3), [e.k(4)]: e.v(5), [e.k(6)]: e.v(7), [e.k(8)]: e.v(9), [e.k(10)]: e.v(11), [e.k(12)]: e.v(13), [e.k(14)]: e.v(15), [e.k(16)]: e.v(17), [e.k(18)]: e.v(19)}"####, build: s9, is: Sh::Obj(&[(Ky::Made(0), Sh::Leaf(Kind::V, 1)), (Ky::Made(2), Sh::Leaf(Kind::V, 3)), (Ky::Made(4), Sh::Leaf(Kind::V, 5)), (Ky::Made(6), Sh::Leaf(Kind::V, 7)), (Ky::Made(8), Sh::Leaf(Kind::V, 9)), (Ky::Made(10), Sh::Leaf(Kind::V, 11)), (Ky::Made(12), Sh::Leaf(Kind::V, 13)), (Ky::Made(14), Sh::Leaf(Kind::V, 15)), (Ky::Made(16), Sh::Leaf(Kind::V, 17)), (Ky::Made(18), Sh::Leaf(Kind::V, 19))]) },
    Shape { text: r####"json::object!{e.k(0) => e.c(1), e.k(2) => e.c(3), e.k(4) => e.c(5), e.k(6) => e.c(7), e.k(8) => e.c(9)}"####, build: s10, is: Sh::Obj(&[(Ky::Made(0), Sh::Leaf(Kind::C, 1)), (Ky::Made(2), Sh::Leaf(Kind::C, 3)), (Ky::Made(4), Sh::Leaf(Kind::C, 5)), (Ky::Made(6), Sh::Leaf(Kind::C, 7)), (Ky::Made(8), Sh::Leaf(Kind::C, 9))]) },
    Shape { text: r####"json::object!{a: e.v(0), b: e.v(1), a: e.v(2),}"####, build: s11, is: Sh::Obj(&[(Ky::Is("a"), Sh::Leaf(Kind::V, 0)), (Ky::Is("b"), Sh::Leaf(Kind::V, 1)), (Ky::Is("a"), Sh::Leaf(Kind::V, 2))]) },
    Shape { text: r####"json::object!{null: e.s(0), object: e.v(1), "b": e.v(2), x1: e.t(3), [e.k(4)]: [e.s(5), e.o(6), e.i(7)]}"####, build: s12, is: Sh::Obj(&[(Ky::Is("null"), Sh::Leaf(Kind::S, 0)), (Ky::Is("object"), Sh::Leaf(Kind::V, 1)), (Ky::Is("b"), Sh::Leaf(Kind::V, 2)), (Ky::Is("x1"), Sh::Leaf(Kind::S, 3)), (Ky::Made(4), Sh::Arr(&[Sh::Leaf(Kind::S, 5), Sh::Leaf(Kind::O, 6), Sh::Leaf(Kind::I, 7)]))]) },
    Shape { text: r####"json::array![e.t(0), (e.v(1)), [], {"with space": {}, [e.k(2)]: e.l(3)}, [{[e.k(4)]: {object: e.s(5), _u: (e.v(6)), }}, e.b(7), {[e.k(8)]: [e.v(9), e.c(10), e.l(11), ], [e.k(12)]: e.v(13), x1: e.v(14), "quo\"te": e.s(15), "b": json::object!{self_: e.i(16), array: e.v(17), }, }, {[e.k(18)]: [], [e.k(19)]: {"a": (e.o(20))}}, [e.o(21), e.i(22), ]], e.f(23), e.l(24)]"####, build: s13, is: Sh::Arr(&[Sh::Leaf(Kind::S, 0), Sh::Leaf(Kind::V, 1), Sh::Arr(&[]), Sh::Obj(&[(Ky::Is("with space"), Sh::Obj(&[])), (Ky::Made(2), Sh::Leaf(Kind::L, 3))]), Sh::Arr(&[Sh::Obj(&[(Ky::Made(4), Sh::Obj(&[(Ky::Is("object"), Sh::Leaf(Kind::S, 5)), (Ky::Is("_u"), Sh::Leaf(Kind::V, 6))]))]), Sh::Leaf(Kind::B, 7), Sh::Obj(&[(Ky::Made(8), Sh::Arr(&[Sh::Leaf(Kind::V, 9), Sh::Leaf(Kind::C, 10), Sh::Leaf(Kind::L, 11)])), (Ky::Made(12), Sh::Leaf(Kind::V, 13)), (Ky::Is("x1"), Sh::Leaf(Kind::V, 14)), (Ky::Is("quo\"te"), Sh::Leaf(Kind::S, 15)), (Ky::Is("b"), Sh::Obj(&[(Ky::Is("self_"), Sh::Leaf(Kind::I, 16)), (Ky::Is("array"), Sh::Leaf(Kind::V, 17))]))]), Sh::Obj(&[(Ky::Made(18), Sh::Arr(&[])), (Ky::Made(19), Sh::Obj(&[(Ky::Is("a"), Sh::Leaf(Kind::O, 20))]))]), Sh::Arr(&[Sh::Leaf(Kind::O, 21), Sh::Leaf(Kind::I, 22)])]), Sh::Leaf(Kind::F, 23), Sh::Leaf(Kind::L, 24)]) },
    Shape { text: r####"json::object!["a" => json::array!(e.v(0), {[e.k(1)]: {"x1": e.l(2), "quo\"te": (e.c(3))}, foo: e.v(4), [e.k(5)]: {[e.k(6)]: (e.b(7)), b: (e.v(8)), type_: e.m(9)}, }, [(5), e.m(10), e.m(11)]), "a" => e.m(12), "key" => json::array!(e.i(13), [null, e.s(14), ], json::object![e.k(15) => json::object!("a" => e.c(16), e.k(17) => e.v(18), "b" => e.f(19), "b" => e.i(20)), "\u{e9}" => e.f(21)], {b: [e.i(22), true], [e.k(23)]: json::object!{e.k(24) => e.v(25), "x1" => e.i(26) + 1, "x1" => e.v(27)}, "a": json::object![[e.k(28)]: e.t(29), value: (e.m(30)), a: e.s(31)], }, json::array![]), "b" => json::object!{"a": json::array!{json::array!{e.v(32), true, e.l(33)}, json::object!{self_: (e.m(34)), array: null, _u: e.i(35)}, e.m(36), {foo: e.l(37)}}, "a": e.m(38)}, "b" => json::array!{[[e.m(39), e.i(40) + 1, e.b(41), e.c(42)], e.f(43)], {[e.k(44)]: {"x1": e.c(45), }, [e.k(46)]: (e.o(47))}}, "with space" => (e.f(48)), ]"####, build: s14, is: Sh::Obj(&[(Ky::Is("a"), Sh::Arr(&[Sh::Leaf(Kind::V, 0), Sh::Obj(&[(Ky::Made(1), Sh::Obj(&[(Ky::Is("x1"), Sh::Leaf(Kind::L, 2)), (Ky::Is("quo\"te"), Sh::Leaf(Kind::C, 3))])), (Ky::Is("foo"), Sh::Leaf(Kind::V, 4)), (Ky::Made(5), Sh::Obj(&[(Ky::Made(6), Sh::Leaf(Kind::B, 7)), (Ky::Is("b"), Sh::Leaf(Kind::V, 8)), (Ky::Is("type_"), Sh::Leaf(Kind::M, 9))]))]), Sh::Arr(&[Sh::Int(5), Sh::Leaf(Kind::M, 10), Sh::Leaf(Kind::M, 11)])])), (Ky::Is("a"), Sh::Leaf(Kind::M, 12)), (Ky::Is("key"), Sh::Arr(&[Sh::Leaf(Kind::I, 13), Sh::Arr(&[Sh::Null, Sh::Leaf(Kind::S, 14)]), Sh::Obj(&[(Ky::Made(15), Sh::Obj(&[(Ky::Is("a"), Sh::Leaf(Kind::C, 16)), (Ky::Made(17), Sh::Leaf(Kind::V, 18)), (Ky::Is("b"), Sh::Leaf(Kind::F, 19)), (Ky::Is("b"), Sh::Leaf(Kind::I, 20))])), (Ky::Is("\u{e9}"), Sh::Leaf(Kind::F, 21))]), Sh::Obj(&[(Ky::Is("b"), Sh::Arr(&[Sh::Leaf(Kind::I, 22), Sh::Bool(true)])), (Ky::Made(23), Sh::Obj(&[(Ky::Made(24), Sh::Leaf(Kind::V, 25)), (Ky::Is("x1"), Sh::Leaf(Kind::Inc, 26)), (Ky::Is("x1"), Sh::Leaf(Kind::V, 27))])), (Ky::Is("a"), Sh::Obj(&[(Ky::Made(28), Sh::Leaf(Kind::S, 29)), (Ky::Is("value"), Sh::Leaf(Kind::M, 30)), (Ky::Is("a"), Sh::Leaf(Kind::S, 31))]))]), Sh::Arr(&[])])), (Ky::Is("b"), Sh::Obj(&[(Ky::Is("a"), Sh::Arr(&[Sh::Arr(&[Sh::Leaf(Kind::V, 32), Sh::Bool(true), Sh::Leaf(Kind::L, 33)]), Sh::Obj(&[(Ky::Is("self_"), Sh::Leaf(Kind::M, 34)), (Ky::Is("array"), Sh::Null), (Ky::Is("_u"), Sh::Leaf(Kind::I, 35))]), Sh::Leaf(Kind::M, 36), Sh::Obj(&[(Ky::Is("foo"), Sh::Leaf(Kind::L, 37))])])), (Ky::Is("a"), Sh::Leaf(Kind::M, 38))])), (Ky::Is("b"), Sh::Arr(&[Sh::Arr(&[Sh::Arr(&[Sh::Leaf(Kind::M, 39), Sh::Leaf(Kind::Inc, 40), Sh::Leaf(Kind::B, 41), Sh::Leaf(Kind::C, 42)]), Sh::Leaf(Kind::F, 43)]), Sh::Obj(&[(Ky::Made(44), Sh::Obj(&[(Ky::Is("x1"), Sh::Leaf(Kind::C, 45))])), (Ky::Made(46), Sh::Leaf(Kind::O, 47))])])), (Ky::Is("with space"), Sh::Leaf(Kind::F, 48))]) },
    Shape { text: r####"json::array!{e.v(0), {value: [e.s(1), [e.t(2), e.l(3)], e.b(4), ], x1: json::object!{}, "a": json::object!("key" => json::array!(e.c(5)), "b" => json::array!{e.c(6)}, e.k(7) => (e.i(8)), ), [e.k(9)]: [e.t(10), [], (e.i(11) + 1), e.v(12)], a: e.i(13)}, }"####, build: s15, is: Sh::Arr(&[Sh::Leaf(Kind::V, 0), Sh::Obj(&[(Ky::Is("value"), Sh::Arr(&[Sh::Leaf(Kind::S, 1), Sh::Arr(&[Sh::Leaf(Kind::S, 2), Sh::Leaf(Kind::L, 3)]), Sh::Leaf(Kind::B, 4)])), (Ky::Is("x1"), Sh::Obj(&[])), (Ky::Is("a"), Sh::Obj(&[(Ky::Is("key"), Sh::Arr(&[Sh::Leaf(Kind::C, 5)])), (Ky::Is("b"), Sh::Arr(&[Sh::Leaf(Kind::C, 6)])), (Ky::Made(7), Sh::Leaf(Kind::I, 8))])), (Ky::Made(9), Sh::Arr(&[Sh::Leaf(Kind::S, 10), Sh::Arr(&[]), Sh::Leaf(Kind::Inc, 11), Sh::Leaf(Kind::V, 12)])), (Ky::Is("a"), Sh::Leaf(Kind::I, 13))])]) },
    Shape { text: r####"json::object!{"quo\"te" => json::object!("with space" => e.i(0), "\u{e9}" => json::array![e.f(1), e.c(2), e.v(3)], "key" => e.o(4), "\u{e9}" => e.v(5), "" => json::object!{x1: e.b(6), object: e.s(7), [e.k(8)]: e.i(9) + 1}, ), "key" => (e.v(10)), e.k(11) => e.s(12), "key" => e.c(13), "key" => e.t(14)}"####, build: s16, is: Sh::Obj(&[(Ky::Is("quo\"te"), Sh::Obj(&[(Ky::Is("with space"), Sh::Leaf(Kind::I, 0)), (Ky::Is("\u{e9}"), Sh::Arr(&[Sh::Leaf(Kind::F, 1), Sh::Leaf(Kind::C, 2), Sh::Leaf(Kind::V, 3)])), (Ky::Is("key"), Sh::Leaf(Kind::O, 4)), (Ky::Is("\u{e9}"), Sh::Leaf(Kind::V, 5)), (Ky::Is(""), Sh::Obj(&[(Ky::Is("x1"), Sh::Leaf(Kind::B, 6)), (Ky::Is("object"), Sh::Leaf(Kind::S, 7)), (Ky::Made(8), Sh::Leaf(Kind::Inc, 9))]))])), (Ky::Is("key"), Sh::Leaf(Kind::V, 10)), (Ky::Made(11), Sh::Leaf(Kind::S, 12)), (Ky::Is("key"), Sh::Leaf(Kind::C, 13)), (Ky::Is("key"), Sh::Leaf(Kind::S, 14))]) },
    Shape { text: r####"json::array!([{}, [], (e.s(0)), (e.v(1))], {"with space": [e.m(2), e.b(3), {value: [e.c(4), e.i(5) + 1, false, e.l(6), ], null: json::object![e.k(7) => e.t(8), "key" => e.m(9), "b" => e.l(10)], "with space": {array: e.i(11) + 1, [e.k(12)]: e.t(13), a: e.v(14), "b": null}}, e.t(15), json::object!{}, ]}, null, e.m(16))"####, build: s17, is: Sh::Arr(&[Sh::Arr(&[Sh::Obj(&[]), Sh::Arr(&[]), Sh::Leaf(Kind::S, 0), Sh::Leaf(Kind::V, 1)]), Sh::Obj(&[(Ky::Is("with space"), Sh::Arr(&[Sh::Leaf(Kind::M, 2), Sh::Leaf(Kind::B, 3), Sh::Obj(&[(Ky::Is("value"), Sh::Arr(&[Sh::Leaf(Kind::C, 4), Sh::Leaf(Kind::Inc, 5), Sh::Bool(false), Sh::Leaf(Kind::L, 6)])), (Ky::Is("null"), Sh::Obj(&[(Ky::Made(7), Sh::Leaf(Kind::S, 8)), (Ky::Is("key"), Sh::Leaf(Kind::M, 9)), (Ky::Is("b"), Sh::Leaf(Kind::L, 10))])), (Ky::Is("with space"), Sh::Obj(&[(Ky::Is("array"), Sh::Leaf(Kind::Inc, 11)), (Ky::Made(12), Sh::Leaf(Kind::S, 13)), (Ky::Is("a"), Sh::Leaf(Kind::V, 14)), (Ky::Is("b"), Sh::Null)]))]), Sh::Leaf(Kind::S, 15), Sh::Obj(&[])]))]), Sh::Null, Sh::Leaf(Kind::M, 16)]) },
    Shape { text: r####"json::object!(foo: [e.f(0), e.m(1), e.i(2) + 1, e.t(3), json::array!{[], {b: (e.i(4) + 1), x1: e.v(5), x1: null, }, e.t(6)}], "with space": null, [e.k(7)]: {[e.k(8)]: [{}, e.c(9), json::object!("with space" => e.i(10) + 1, "key" => e.v(11))], self_: json::array!(json::object!(e.k(12) => e.c(13), "with space" => (e.t(14)), ), {}, true, ), "b": json::object!(x1: {"": e.b(15), [e.k(16)]: e.v(17), }, )})"####, build: s18, is: Sh::Obj(&[(Ky::Is("foo"), Sh::Arr(&[Sh::Leaf(Kind::F, 0), Sh::Leaf(Kind::M, 1), Sh::Leaf(Kind::Inc, 2), Sh::Leaf(Kind::S, 3), Sh::Arr(&[Sh::Arr(&[]), Sh::Obj(&[(Ky::Is("b"), Sh::Leaf(Kind::Inc, 4)), (Ky::Is("x1"), Sh::Leaf(Kind::V, 5)), (Ky::Is("x1"), Sh::Null)]), Sh::Leaf(Kind::S, 6)])])), (Ky::Is("with space"), Sh::Null), (Ky::Made(7), Sh::Obj(&[(Ky::Made(8), Sh::Arr(&[Sh::Obj(&[]), Sh::Leaf(Kind::C, 9), Sh::Obj(&[(Ky::Is("with space"), Sh::Leaf(Kind::Inc, 10)), (Ky::Is("key"), Sh::Leaf(Kind::V, 11))])])), (Ky::Is("self_"), Sh::Arr(&[Sh::Obj(&[(Ky::Made(12), Sh::Leaf(Kind::C, 13)), (Ky::Is("with space"), Sh::Leaf(Kind::S, 14))]), Sh::Obj(&[]), Sh::Bool(true)])), (Ky::Is("b"), Sh::Obj(&[(Ky::Is("x1"), Sh::Obj(&[(Ky::Is(""), Sh::Leaf(Kind::B, 15)), (Ky::Made(16), Sh::Leaf(Kind::V, 17))]))]))]))]) },
    Shape { text: r####"json::object!{"a" => e.c(0), "b" => json::object![e.k(1) => json::object![e.k(2) => e.i(3), e.k(4) => true, ], e.k(5) => json::array!(null, ), ], "b" => (e.s(6)), }"####, build: s19, is: Sh::Obj(&[(Ky::Is("a"), Sh::Leaf(Kind::C, 0)), (Ky::Is("b"), Sh::Obj(&[(Ky::Made(1), Sh::Obj(&[(Ky::Made(2), Sh::Leaf(Kind::I, 3)), (Ky::Made(4), Sh::Bool(true))])), (Ky::Made(5), Sh::Arr(&[Sh::Null]))])), (Ky::Is("b"), Sh::Leaf(Kind::S, 6))]) },
    Shape { text: r####"json::object!["a-key-that-is-longer-than-the-inline-buffer-of-keys" => json::array!(e.i(0) + 1, e.v(1), e.l(2), e.v(3))]"####, build: s20, is: Sh::Obj(&[(Ky::Is("a-key-that-is-longer-than-the-inline-buffer-of-keys"), Sh::Arr(&[Sh::Leaf(Kind::Inc, 0), Sh::Leaf(Kind::V, 1), Sh::Leaf(Kind::L, 2), Sh::Leaf(Kind::V, 3)]))]) },
    Shape { text: r####"json::object!("quo\"te" => json::object!(), "quo\"te" => json::object!([e.k(0)]: e.v(1), [e.k(2)]: json::Null, a: e.i(3)), "b" => json::array![[e.t(4), e.l(5), e.l(6), (e.i(7) + 1)], ], "a-key-that-is-longer-than-the-inline-buffer-of-keys" => e.c(8), e.k(9) => e.o(10), e.k(11) => e.i(12))"####, build: s21, is: Sh::Obj(&[(Ky::Is("quo\"te"), Sh::Obj(&[])), (Ky::Is("quo\"te"), Sh::Obj(&[(Ky::Made(0), Sh::Leaf(Kind::V, 1)), (Ky::Made(2), Sh::Null), (Ky::Is("a"), Sh::Leaf(Kind::I, 3))])), (Ky::Is("b"), Sh::Arr(&[Sh::Arr(&[Sh::Leaf(Kind::S, 4), Sh::Leaf(Kind::L, 5), Sh::Leaf(Kind::L, 6), Sh::Leaf(Kind::Inc, 7)])])), (Ky::Is("a-key-that-is-longer-than-the-inline-buffer-of-keys"), Sh::Leaf(Kind::C, 8)), (Ky::Made(9), Sh::Leaf(Kind::O, 10)), (Ky::Made(11), Sh::Leaf(Kind::I, 12))]) },
    Shape { text: r####"json::array!(e.m(0), json::array!{[e.i(1), json::array!(json::object!{e.k(2) => (e.v(3))}, {"x1": null}, e.v(4))], []}, e.v(5), [json::array!{e.t(6), e.v(7), [[], json::array!{e.v(8), (e.i(9)), }, [e.m(10), e.v(11), null, null]]}], )"####, build: s22, is: Sh::Arr(&[Sh::Leaf(Kind::M, 0), Sh::Arr(&[Sh::Arr(&[Sh::Leaf(Kind::I, 1), Sh::Arr(&[Sh::Obj(&[(Ky::Made(2), Sh::Leaf(Kind::V, 3))]), Sh::Obj(&[(Ky::Is("x1"), Sh::Null)]), Sh::Leaf(Kind::V, 4)])]), Sh::Arr(&[])]), Sh::Leaf(Kind::V, 5), Sh::Arr(&[Sh::Arr(&[Sh::Leaf(Kind::S, 6), Sh::Leaf(Kind::V, 7), Sh::Arr(&[Sh::Arr(&[]), Sh::Arr(&[Sh::Leaf(Kind::V, 8), Sh::Leaf(Kind::I, 9)]), Sh::Arr(&[Sh::Leaf(Kind::M, 10), Sh::Leaf(Kind::V, 11), Sh::Null, Sh::Null])])])])]) },
    Shape { text: r####"json::array![[[e.s(0), {self_: (e.o(1)), "with space": [e.m(2), e.m(3), e.c(4), null, (e.s(5))], "b": {[e.k(6)]: e.l(7), array: e.v(8)}, "b": e.s(9), key: []}], e.b(10), e.f(11)], e.o(12), (e.l(13)), e.i(14) + 1, ]"####, build: s23, is: Sh::Arr(&[Sh::Arr(&[Sh::Arr(&[Sh::Leaf(Kind::S, 0), Sh::Obj(&[(Ky::Is("self_"), Sh::Leaf(Kind::O, 1)), (Ky::Is("with space"), Sh::Arr(&[Sh::Leaf(Kind::M, 2), Sh::Leaf(Kind::M, 3), Sh::Leaf(Kind::C, 4), Sh::Null, Sh::Leaf(Kind::S, 5)])), (Ky::Is("b"), Sh::Obj(&[(Ky::Made(6), Sh::Leaf(Kind::L, 7)), (Ky::Is("array"), Sh::Leaf(Kind::V, 8))])), (Ky::Is("b"), Sh::Leaf(Kind::S, 9)), (Ky::Is("key"), Sh::Arr(&[]))])]), Sh::Leaf(Kind::B, 10), Sh::Leaf(Kind::F, 11)]), Sh::Leaf(Kind::O, 12), Sh::Leaf(Kind::L, 13), Sh::Leaf(Kind::Inc, 14)]) },
    Shape { text: r####"json::object!("\u{e9}" => json::array!(), "b" => json::array![{"quo\"te": json::object![value: e.l(0), ]}, e.i(1)], )"####, build: s24, is: Sh::Obj(&[(Ky::Is("\u{e9}"), Sh::Arr(&[])), (Ky::Is("b"), Sh::Arr(&[Sh::Obj(&[(Ky::Is("quo\"te"), Sh::Obj(&[(Ky::Is("value"), Sh::Leaf(Kind::L, 0))]))]), Sh::Leaf(Kind::I, 1)]))]) },
    Shape { text: r####"json::object!["a" => json::object!["quo\"te" => e.v(0)], "" => e.i(1) + 1, ]"####, build: s25, is: Sh::Obj(&[(Ky::Is("a"), Sh::Obj(&[(Ky::Is("quo\"te"), Sh::Leaf(Kind::V, 0))])), (Ky::Is(""), Sh::Leaf(Kind::Inc, 1))]) },
    Shape { text: r####"json::object!("a-key-that-is-longer-than-the-inline-buffer-of-keys" => json::object!("a" => json::array!((e.v(0)), {"x1": e.b(1), x1: e.i(2) + 1, [e.k(3)]: e.i(4) + 1, "": e.v(5), [e.k(6)]: e.t(7)}), "quo\"te" => json::array!(), "quo\"te" => e.i(8) + 1), "\u{e9}" => json::array![e.c(9), [{[e.k(10)]: e.b(11), x1: e.c(12), "x1": e.i(13)}, ], e.c(14), [{object: e.t(15), array: e.o(16), null: (e.i(17))}, {[e.k(18)]: e.b(19), [e.k(20)]: null}], {key: [], "a": [(e.i(21)), null, e.f(22), e.f(23), (e.l(24)), ], }, ], "b" => json::object!("" => json::array!(e.c(25), json::object!{"a": e.v(26), [e.k(27)]: e.i(28), type_: e.f(29), value: "a string literal that does not fit inline"}), ), "a" => e.o(30), "with space" => json::array!((e.f(31)), e.c(32), [], [e.v(33), [e.v(34), null, ], e.f(35)], e.m(36), ), "key" => (e.s(37)))"####, build: s26, is: Sh::Obj(&[(Ky::Is("a-key-that-is-longer-than-the-inline-buffer-of-keys"), Sh::Obj(&[(Ky::Is("a"), Sh::Arr(&[Sh::Leaf(Kind::V, 0), Sh::Obj(&[(Ky::Is("x1"), Sh::Leaf(Kind::B, 1)), (Ky::Is("x1"), Sh::Leaf(Kind::Inc, 2)), (Ky::Made(3), Sh::Leaf(Kind::Inc, 4)), (Ky::Is(""), Sh::Leaf(Kind::V, 5)), (Ky::Made(6), Sh::Leaf(Kind::S, 7))])])), (Ky::Is("quo\"te"), Sh::Arr(&[])), (Ky::Is("quo\"te"), Sh::Leaf(Kind::Inc, 8))])), (Ky::Is("\u{e9}"), Sh::Arr(&[Sh::Leaf(Kind::C, 9), Sh::Arr(&[Sh::Obj(&[(Ky::Made(10), Sh::Leaf(Kind::B, 11)), (Ky::Is("x1"), Sh::Leaf(Kind::C, 12)), (Ky::Is("x1"), Sh::Leaf(Kind::I, 13))])]), Sh::Leaf(Kind::C, 14), Sh::Arr(&[Sh::Obj(&[(Ky::Is("object"), Sh::Leaf(Kind::S, 15)), (Ky::Is("array"), Sh::Leaf(Kind::O, 16)), (Ky::Is("null"), Sh::Leaf(Kind::I, 17))]), Sh::Obj(&[(Ky::Made(18), Sh::Leaf(Kind::B, 19)), (Ky::Made(20), Sh::Null)])]), Sh::Obj(&[(Ky::Is("key"), Sh::Arr(&[])), (Ky::Is("a"), Sh::Arr(&[Sh::Leaf(Kind::I, 21), Sh::Null, Sh::Leaf(Kind::F, 22), Sh::Leaf(Kind::F, 23), Sh::Leaf(Kind::L, 24)]))])])), (Ky::Is("b"), Sh::Obj(&[(Ky::Is(""), Sh::Arr(&[Sh::Leaf(Kind::C, 25), Sh::Obj(&[(Ky::Is("a"), Sh::Leaf(Kind::V, 26)), (Ky::Made(27), Sh::Leaf(Kind::I, 28)), (Ky::Is("type_"), Sh::Leaf(Kind::F, 29)), (Ky::Is("value"), Sh::Str("a string literal that does not fit inline"))])]))])), (Ky::Is("a"), Sh::Leaf(Kind::O, 30)), (Ky::Is("with space"), Sh::Arr(&[Sh::Leaf(Kind::F, 31), Sh::Leaf(Kind::C, 32), Sh::Arr(&[]), Sh::Arr(&[Sh::Leaf(Kind::V, 33), Sh::Arr(&[Sh::Leaf(Kind::V, 34), Sh::Null]), Sh::Leaf(Kind::F, 35)]), Sh::Leaf(Kind::M, 36)])), (Ky::Is("key"), Sh::Leaf(Kind::S, 37))]) },
    Shape { text: r####"json::object!["a-key-that-is-longer-than-the-inline-buffer-of-keys" => e.c(0), "x1" => e.i(1), "x1" => json::object!("x1" => e.b(2), "a" => e.v(3), "" => json::object![e.k(4) => json::array![e.v(5), e.v(6)], "" => e.v(7), e.k(8) => e.t(9)], "key" => json::array![e.i(10) + 1, json::array!(e.v(11), e.l(12)), e.i(13) + 1, ], ), "b" => json::array![(e.c(14)), json::array![e.b(15), e.c(16), e.s(17)], [{"a": e.v(18), "quo\"te": {"": e.v(19), type_: (e.t(20)), array: null}}, e.b(21), [e.b(22), e.m(23), e.s(24), ], e.s(25), json::object![[e.k(26)]: json::object!("b" => e.s(27)), [e.k(28)]: [e.i(29) + 1, e.c(30), e.i(31), (e.t(32))], [e.k(33)]: [null], array: e.c(34)]], json::object!("": {"b": [e.t(35), e.i(36), e.l(37), ], "with space": [e.t(38), (e.v(39)), (e.v(40))], }, [e.k(41)]: json::array!(json::object!("a-key-that-is-longer-than-the-inline-buffer-of-keys" => e.c(42), "a-key-that-is-longer-than-the-inline-buffer-of-keys" => e.o(43), "a-key-that-is-longer-than-the-inline-buffer-of-keys" => e.t(44)), [e.l(45)], [e.v(46), (e.i(47) + 1)], json::array!{e.s(48), e.m(49), e.l(50)}, ), value: e.i(51)), ]]"####, build: s27, is: Sh::Obj(&[(Ky::Is("a-key-that-is-longer-than-the-inline-buffer-of-keys"), Sh::Leaf(Kind::C, 0)), (Ky::Is("x1"), Sh::Leaf(Kind::I, 1)), (Ky::Is("x1"), Sh::Obj(&[(Ky::Is("x1"), Sh::Leaf(Kind::B, 2)), (Ky::Is("a"), Sh::Leaf(Kind::V, 3)), (Ky::Is(""), Sh::Obj(&[(Ky::Made(4), Sh::Arr(&[Sh::Leaf(Kind::V, 5), Sh::Leaf(Kind::V, 6)])), (Ky::Is(""), Sh::Leaf(Kind::V, 7)), (Ky::Made(8), Sh::Leaf(Kind::S, 9))])), (Ky::Is("key"), Sh::Arr(&[Sh::Leaf(Kind::Inc, 10), Sh::Arr(&[Sh::Leaf(Kind::V, 11), Sh::Leaf(Kind::L, 12)]), Sh::Leaf(Kind::Inc, 13)]))])), (Ky::Is("b"), Sh::Arr(&[Sh::Leaf(Kind::C, 14), Sh::Arr(&[Sh::Leaf(Kind::B, 15), Sh::Leaf(Kind::C, 16), Sh::Leaf(Kind::S, 17)]), Sh::Arr(&[Sh::Obj(&[(Ky::Is("a"), Sh::Leaf(Kind::V, 18)), (Ky::Is("quo\"te"), Sh::Obj(&[(Ky::Is(""), Sh::Leaf(Kind::V, 19)), (Ky::Is("type_"), Sh::Leaf(Kind::S, 20)), (Ky::Is("array"), Sh::Null)]))]), Sh::Leaf(Kind::B, 21), Sh::Arr(&[Sh::Leaf(Kind::B, 22), Sh::Leaf(Kind::M, 23), Sh::Leaf(Kind::S, 24)]), Sh::Leaf(Kind::S, 25), Sh::Obj(&[(Ky::Made(26), Sh::Obj(&[(Ky::Is("b"), Sh::Leaf(Kind::S, 27))])), (Ky::Made(28), Sh::Arr(&[Sh::Leaf(Kind::Inc, 29), Sh::Leaf(Kind::C, 30), Sh::Leaf(Kind::I, 31), Sh::Leaf(Kind::S, 32)])), (Ky::Made(33), Sh::Arr(&[Sh::Null])), (Ky::Is("array"), Sh::Leaf(Kind::C, 34))])]), Sh::Obj(&[(Ky::Is(""), Sh::Obj(&[(Ky::Is("b"), Sh::Arr(&[Sh::Leaf(Kind::S, 35), Sh::Leaf(Kind::I, 36), Sh::Leaf(Kind::L, 37)])), (Ky::Is("with space"), Sh::Arr(&[Sh::Leaf(Kind::S, 38), Sh::Leaf(Kind::V, 39), Sh::Leaf(Kind::V, 40)]))])), (Ky::Made(41), Sh::Arr(&[Sh::Obj(&[(Ky::Is("a-key-that-is-longer-than-the-inline-buffer-of-keys"), Sh::Leaf(Kind::C, 42)), (Ky::Is("a-key-that-is-longer-than-the-inline-buffer-of-keys"), Sh::Leaf(Kind::O, 43)), (Ky::Is("a-key-that-is-longer-than-the-inline-buffer-of-keys"), Sh::Leaf(Kind::S, 44))]), Sh::Arr(&[Sh::Leaf(Kind::L, 45)]), Sh::Arr(&[Sh::Leaf(Kind::V, 46), Sh::Leaf(Kind::Inc, 47)]), Sh::Arr(&[Sh::Leaf(Kind::S, 48), Sh::Leaf(Kind::M, 49), Sh::Leaf(Kind::L, 50)])])), (Ky::Is("value"), Sh::Leaf(Kind::I, 51))])]))]) },
    Shape { text: r####"json::array![e.c(0), [e.f(1), [e.b(2), {}], ], {[e.k(3)]: 0, "b": e.b(4), null: json::object!{"\u{e9}": {"a": "text", _u: (e.v(5)), type_: e.i(6) + 1, x1: e.v(7), "a": e.b(8), }, foo: (e.i(9) + 1), [e.k(10)]: {b: 42, b: e.i(11)}}, foo: json::array!(e.t(12), {}, ), "\u{e9}": e.t(13)}, ]"####, build: s28, is: Sh::Arr(&[Sh::Leaf(Kind::C, 0), Sh::Arr(&[Sh::Leaf(Kind::F, 1), Sh::Arr(&[Sh::Leaf(Kind::B, 2), Sh::Obj(&[])])]), Sh::Obj(&[(Ky::Made(3), Sh::Int(0)), (Ky::Is("b"), Sh::Leaf(Kind::B, 4)), (Ky::Is("null"), Sh::Obj(&[(Ky::Is("\u{e9}"), Sh::Obj(&[(Ky::Is("a"), Sh::Str("text")), (Ky::Is("_u"), Sh::Leaf(Kind::V, 5)), (Ky::Is("type_"), Sh::Leaf(Kind::Inc, 6)), (Ky::Is("x1"), Sh::Leaf(Kind::V, 7)), (Ky::Is("a"), Sh::Leaf(Kind::B, 8))])), (Ky::Is("foo"), Sh::Leaf(Kind::Inc, 9)), (Ky::Made(10), Sh::Obj(&[(Ky::Is("b"), Sh::Int(42)), (Ky::Is("b"), Sh::Leaf(Kind::I, 11))]))])), (Ky::Is("foo"), Sh::Arr(&[Sh::Leaf(Kind::S, 12), Sh::Obj(&[])])), (Ky::Is("\u{e9}"), Sh::Leaf(Kind::S, 13))])]) },
    Shape { text: r####"json::object!(self_: e.i(0) + 1, "key": e.c(1), [e.k(2)]: json::object!(x1: e.i(3), x1: json::array![e.s(4), e.i(5) + 1, e.c(6)], ), [e.k(7)]: [e.i(8), json::array!{e.v(9), e.m(10), e.v(11), }, [e.i(12), e.f(13), e.t(14)], json::object![e.k(15) => e.l(16)], []], [e.k(17)]: [{}, (e.c(18)), null], )"####, build: s29, is: Sh::Obj(&[(Ky::Is("self_"), Sh::Leaf(Kind::Inc, 0)), (Ky::Is("key"), Sh::Leaf(Kind::C, 1)), (Ky::Made(2), Sh::Obj(&[(Ky::Is("x1"), Sh::Leaf(Kind::I, 3)), (Ky::Is("x1"), Sh::Arr(&[Sh::Leaf(Kind::S, 4), Sh::Leaf(Kind::Inc, 5), Sh::Leaf(Kind::C, 6)]))])), (Ky::Made(7), Sh::Arr(&[Sh::Leaf(Kind::I, 8), Sh::Arr(&[Sh::Leaf(Kind::V, 9), Sh::Leaf(Kind::M, 10), Sh::Leaf(Kind::V, 11)]), Sh::Arr(&[Sh::Leaf(Kind::I, 12), Sh::Leaf(Kind::F, 13), Sh::Leaf(Kind::S, 14)]), Sh::Obj(&[(Ky::Made(15), Sh::Leaf(Kind::L, 16))]), Sh::Arr(&[])])), (Ky::Made(17), Sh::Arr(&[Sh::Obj(&[]), Sh::Leaf(Kind::C, 18), Sh::Null]))]) },
    Shape { text: r####"json::object!["" => json::object!["b": {null: e.i(0), key: e.v(1), "\u{e9}": e.c(2)}, [e.k(3)]: e.t(4)], "" => json::object!("\u{e9}" => e.f(5), e.k(6) => e.i(7) + 1, e.k(8) => json::array![[e.c(9), e.b(10), "text", e.b(11), e.v(12)], ]), ]"####, build: s30, is: Sh::Obj(&[(Ky::Is(""), Sh::Obj(&[(Ky::Is("b"), Sh::Obj(&[(Ky::Is("null"), Sh::Leaf(Kind::I, 0)), (Ky::Is("key"), Sh::Leaf(Kind::V, 1)), (Ky::Is("\u{e9}"), Sh::Leaf(Kind::C, 2))])), (Ky::Made(3), Sh::Leaf(Kind::S, 4))])), (Ky::Is(""), Sh::Obj(&[(Ky::Is("\u{e9}"), Sh::Leaf(Kind::F, 5)), (Ky::Made(6), Sh::Leaf(Kind::Inc, 7)), (Ky::Made(8), Sh::Arr(&[Sh::Arr(&[Sh::Leaf(Kind::C, 9), Sh::Leaf(Kind::B, 10), Sh::Str("text"), Sh::Leaf(Kind::B, 11), Sh::Leaf(Kind::V, 12)])]))]))]) },
    Shape { text: r####"json::object![value: [[e.f(0), (e.v(1)), e.o(2)], json::object![null: e.c(3), "": null, ], [e.f(4)]], "": {"x1": e.f(5)}]"####, build: s31, is: Sh::Obj(&[(Ky::Is("value"), Sh::Arr(&[Sh::Arr(&[Sh::Leaf(Kind::F, 0), Sh::Leaf(Kind::V, 1), Sh::Leaf(Kind::O, 2)]), Sh::Obj(&[(Ky::Is("null"), Sh::Leaf(Kind::C, 3)), (Ky::Is(""), Sh::Null)]), Sh::Arr(&[Sh::Leaf(Kind::F, 4)])])), (Ky::Is(""), Sh::Obj(&[(Ky::Is("x1"), Sh::Leaf(Kind::F, 5))]))]) },
    Shape { text: r####"json::object!["a": e.t(0), _u: (e.v(1)), [e.k(2)]: [e.m(3), {[e.k(4)]: e.i(5), "b": e.v(6), [e.k(7)]: e.v(8)}, [e.v(9), null, ]], "\u{e9}": json::object!("quo\"te" => json::array!{e.t(10), e.c(11), e.c(12), "a string literal that does not fit inline", true}, "with space" => json::array![e.i(13) + 1, ], e.k(14) => json::object!("b" => e.s(15), "quo\"te" => (e.i(16)), e.k(17) => (e.i(18) + 1), "\u{e9}" => e.b(19))), "a-key-that-is-longer-than-the-inline-buffer-of-keys": e.b(20)]"####, build: s32, is: Sh::Obj(&[(Ky::Is("a"), Sh::Leaf(Kind::S, 0)), (Ky::Is("_u"), Sh::Leaf(Kind::V, 1)), (Ky::Made(2), Sh::Arr(&[Sh::Leaf(Kind::M, 3), Sh::Obj(&[(Ky::Made(4), Sh::Leaf(Kind::I, 5)), (Ky::Is("b"), Sh::Leaf(Kind::V, 6)), (Ky::Made(7), Sh::Leaf(Kind::V, 8))]), Sh::Arr(&[Sh::Leaf(Kind::V, 9), Sh::Null])])), (Ky::Is("\u{e9}"), Sh::Obj(&[(Ky::Is("quo\"te"), Sh::Arr(&[Sh::Leaf(Kind::S, 10), Sh::Leaf(Kind::C, 11), Sh::Leaf(Kind::C, 12), Sh::Str("a string literal that does not fit inline"), Sh::Bool(true)])), (Ky::Is("with space"), Sh::Arr(&[Sh::Leaf(Kind::Inc, 13)])), (Ky::Made(14), Sh::Obj(&[(Ky::Is("b"), Sh::Leaf(Kind::S, 15)), (Ky::Is("quo\"te"), Sh::Leaf(Kind::I, 16)), (Ky::Made(17), Sh::Leaf(Kind::Inc, 18)), (Ky::Is("\u{e9}"), Sh::Leaf(Kind::B, 19))]))])), (Ky::Is("a-key-that-is-longer-than-the-inline-buffer-of-keys"), Sh::Leaf(Kind::B, 20))]) },
    Shape { text: r####"json::object!{"a-key-that-is-longer-than-the-inline-buffer-of-keys" => json::object![], "with space" => json::object![], e.k(0) => e.l(1), }"####, build: s33, is: Sh::Obj(&[(Ky::Is("a-key-that-is-longer-than-the-inline-buffer-of-keys"), Sh::Obj(&[])), (Ky::Is("with space"), Sh::Obj(&[])), (Ky::Made(0), Sh::Leaf(Kind::L, 1))]) },
    Shape { text: r####"json::array![{[e.k(0)]: e.t(1), null: e.i(2) + 1, "with space": e.l(3), [e.k(4)]: e.b(5), b: e.s(6)}, e.b(7), [e.f(8), e.l(9)], ]"####, build: s34, is: Sh::Arr(&[Sh::Obj(&[(Ky::Made(0), Sh::Leaf(Kind::S, 1)), (Ky::Is("null"), Sh::Leaf(Kind::Inc, 2)), (Ky::Is("with space"), Sh::Leaf(Kind::L, 3)), (Ky::Made(4), Sh::Leaf(Kind::B, 5)), (Ky::Is("b"), Sh::Leaf(Kind::S, 6))]), Sh::Leaf(Kind::B, 7), Sh::Arr(&[Sh::Leaf(Kind::F, 8), Sh::Leaf(Kind::L, 9)])]) },
    Shape { text: r####"json::array![e.o(0)]"####, build: s35, is: Sh::Arr(&[Sh::Leaf(Kind::O, 0)]) },
    Shape { text: r####"json::array![e.i(0) + 1, e.i(1), [e.m(2), {b: e.i(3), [e.k(4)]: {"x1": e.c(5), array: 0, "quo\"te": {}, value: {}, }, "quo\"te": json::object!["b": {a: e.c(6), }, [e.k(7)]: {"\u{e9}": e.s(8), "": (e.i(9) + 1), "with space": e.v(10), b: e.i(11), }, "x1": [e.v(12)], value: null], _u: null}, e.i(13)], [json::array![{array: e.c(14), "b": 0, value: json::object!{x1: e.f(15), "b": e.s(16), array: e.v(17), "with space": (e.l(18)), [e.k(19)]: (5)}, }, null, e.t(20), ], e.v(21), [{value: {type_: e.i(22), [e.k(23)]: e.s(24), [e.k(25)]: e.i(26) + 1, "with space": null, }, type_: null}, e.i(27), (e.v(28))], (e.i(29) + 1), [-7], ], ]"####, build: s36, is: Sh::Arr(&[Sh::Leaf(Kind::Inc, 0), Sh::Leaf(Kind::I, 1), Sh::Arr(&[Sh::Leaf(Kind::M, 2), Sh::Obj(&[(Ky::Is("b"), Sh::Leaf(Kind::I, 3)), (Ky::Made(4), Sh::Obj(&[(Ky::Is("x1"), Sh::Leaf(Kind::C, 5)), (Ky::Is("array"), Sh::Int(0)), (Ky::Is("quo\"te"), Sh::Obj(&[])), (Ky::Is("value"), Sh::Obj(&[]))])), (Ky::Is("quo\"te"), Sh::Obj(&[(Ky::Is("b"), Sh::Obj(&[(Ky::Is("a"), Sh::Leaf(Kind::C, 6))])), (Ky::Made(7), Sh::Obj(&[(Ky::Is("\u{e9}"), Sh::Leaf(Kind::S, 8)), (Ky::Is(""), Sh::Leaf(Kind::Inc, 9)), (Ky::Is("with space"), Sh::Leaf(Kind::V, 10)), (Ky::Is("b"), Sh::Leaf(Kind::I, 11))])), (Ky::Is("x1"), Sh::Arr(&[Sh::Leaf(Kind::V, 12)])), (Ky::Is("value"), Sh::Null)])), (Ky::Is("_u"), Sh::Null)]), Sh::Leaf(Kind::I, 13)]), Sh::Arr(&[Sh::Arr(&[Sh::Obj(&[(Ky::Is("array"), Sh::Leaf(Kind::C, 14)), (Ky::Is("b"), Sh::Int(0)), (Ky::Is("value"), Sh::Obj(&[(Ky::Is("x1"), Sh::Leaf(Kind::F, 15)), (Ky::Is("b"), Sh::Leaf(Kind::S, 16)), (Ky::Is("array"), Sh::Leaf(Kind::V, 17)), (Ky::Is("with space"), Sh::Leaf(Kind::L, 18)), (Ky::Made(19), Sh::Int(5))]))]), Sh::Null, Sh::Leaf(Kind::S, 20)]), Sh::Leaf(Kind::V, 21), Sh::Arr(&[Sh::Obj(&[(Ky::Is("value"), Sh::Obj(&[(Ky::Is("type_"), Sh::Leaf(Kind::I, 22)), (Ky::Made(23), Sh::Leaf(Kind::S, 24)), (Ky::Made(25), Sh::Leaf(Kind::Inc, 26)), (Ky::Is("with space"), Sh::Null)])), (Ky::Is("type_"), Sh::Null)]), Sh::Leaf(Kind::I, 27), Sh::Leaf(Kind::V, 28)]), Sh::Leaf(Kind::Inc, 29), Sh::Arr(&[Sh::Int(-7)])])]) },
    Shape { text: r####"json::object!{e.k(0) => json::object!{e.k(1) => e.m(2), "\u{e9}" => e.v(3), "key" => true}, "\u{e9}" => json::array![e.t(4), {"\u{e9}": json::array!{}, [e.k(5)]: [], object: json::array!(e.o(6), e.t(7), e.b(8), ), }, 1 + 1]}"####, build: s37, is: Sh::Obj(&[(Ky::Made(0), Sh::Obj(&[(Ky::Made(1), Sh::Leaf(Kind::M, 2)), (Ky::Is("\u{e9}"), Sh::Leaf(Kind::V, 3)), (Ky::Is("key"), Sh::Bool(true))])), (Ky::Is("\u{e9}"), Sh::Arr(&[Sh::Leaf(Kind::S, 4), Sh::Obj(&[(Ky::Is("\u{e9}"), Sh::Arr(&[])), (Ky::Made(5), Sh::Arr(&[])), (Ky::Is("object"), Sh::Arr(&[Sh::Leaf(Kind::O, 6), Sh::Leaf(Kind::S, 7), Sh::Leaf(Kind::B, 8)]))]), Sh::Int(2)]))]) },
    Shape { text: r####"json::array![e.l(0), [e.l(1), e.v(2), e.b(3), e.m(4), e.s(5), ], ]"####, build: s38, is: Sh::Arr(&[Sh::Leaf(Kind::L, 0), Sh::Arr(&[Sh::Leaf(Kind::L, 1), Sh::Leaf(Kind::V, 2), Sh::Leaf(Kind::B, 3), Sh::Leaf(Kind::M, 4), Sh::Leaf(Kind::S, 5)])]) },
    Shape { text: r####"json::array!((e.l(0)), e.v(1), {"key": e.i(2), [e.k(3)]: e.i(4), b: e.f(5), "b": [e.f(6), e.o(7), (e.f(8)), e.s(9), e.t(10)], }, [], e.b(11))"####, build: s39, is: Sh::Arr(&[Sh::Leaf(Kind::L, 0), Sh::Leaf(Kind::V, 1), Sh::Obj(&[(Ky::Is("key"), Sh::Leaf(Kind::I, 2)), (Ky::Made(3), Sh::Leaf(Kind::I, 4)), (Ky::Is("b"), Sh::Leaf(Kind::F, 5)), (Ky::Is("b"), Sh::Arr(&[Sh::Leaf(Kind::F, 6), Sh::Leaf(Kind::O, 7), Sh::Leaf(Kind::F, 8), Sh::Leaf(Kind::S, 9), Sh::Leaf(Kind::S, 10)]))]), Sh::Arr(&[]), Sh::Leaf(Kind::B, 11)]) },
    Shape { text: r####"json::object!{"a-key-that-is-longer-than-the-inline-buffer-of-keys" => json::object!(e.k(0) => e.f(1), "a-key-that-is-longer-than-the-inline-buffer-of-keys" => e.m(2)), e.k(3) => json::array!{e.c(4), e.s(5)}, "" => json::object![e.k(6) => e.i(7), ]}"####, build: s40, is: Sh::Obj(&[(Ky::Is("a-key-that-is-longer-than-the-inline-buffer-of-keys"), Sh::Obj(&[(Ky::Made(0), Sh::Leaf(Kind::F, 1)), (Ky::Is("a-key-that-is-longer-than-the-inline-buffer-of-keys"), Sh::Leaf(Kind::M, 2))])), (Ky::Made(3), Sh::Arr(&[Sh::Leaf(Kind::C, 4), Sh::Leaf(Kind::S, 5)])), (Ky::Is(""), Sh::Obj(&[(Ky::Made(6), Sh::Leaf(Kind::I, 7))]))]) },
    Shape { text: r####"json::object![b: e.b(0), "b": json::object![object: [e.m(1), (e.t(2)), e.t(3), [], json::array!{e.t(4), }, ], "a": [[(e.v(5)), e.i(6) + 1, e.i(7) + 1, e.f(8), (e.c(9))], ], "a-key-that-is-longer-than-the-inline-buffer-of-keys": {"a-key-that-is-longer-than-the-inline-buffer-of-keys": json::object!{"with space" => "a string literal that does not fit inline", "" => (e.o(10))}, object: e.t(11), "\u{e9}": {}, b: [(e.v(12))], foo: {}}], "a": e.i(13), ]"####, build: s41, is: Sh::Obj(&[(Ky::Is("b"), Sh::Leaf(Kind::B, 0)), (Ky::Is("b"), Sh::Obj(&[(Ky::Is("object"), Sh::Arr(&[Sh::Leaf(Kind::M, 1), Sh::Leaf(Kind::S, 2), Sh::Leaf(Kind::S, 3), Sh::Arr(&[]), Sh::Arr(&[Sh::Leaf(Kind::S, 4)])])), (Ky::Is("a"), Sh::Arr(&[Sh::Arr(&[Sh::Leaf(Kind::V, 5), Sh::Leaf(Kind::Inc, 6), Sh::Leaf(Kind::Inc, 7), Sh::Leaf(Kind::F, 8), Sh::Leaf(Kind::C, 9)])])), (Ky::Is("a-key-that-is-longer-than-the-inline-buffer-of-keys"), Sh::Obj(&[(Ky::Is("a-key-that-is-longer-than-the-inline-buffer-of-keys"), Sh::Obj(&[(Ky::Is("with space"), Sh::Str("a string literal that does not fit inline")), (Ky::Is(""), Sh::Leaf(Kind::O, 10))])), (Ky::Is("object"), Sh::Leaf(Kind::S, 11)), (Ky::Is("\u{e9}"), Sh::Obj(&[])), (Ky::Is("b"), Sh::Arr(&[Sh::Leaf(Kind::V, 12)])), (Ky::Is("foo"), Sh::Obj(&[]))]))])), (Ky::Is("a"), Sh::Leaf(Kind::I, 13))]) },
    Shape { text: r####"json::object!("key" => json::array!{e.i(0) + 1, (e.s(1))}, e.k(2) => e.l(3))"####, build: s42, is: Sh::Obj(&[(Ky::Is("key"), Sh::Arr(&[Sh::Leaf(Kind::Inc, 0), Sh::Leaf(Kind::S, 1)])), (Ky::Made(2), Sh::Leaf(Kind::L, 3))]) },
    Shape { text: r####"json::array!({a: (e.f(0)), key: {[e.k(1)]: {value: e.v(2), null: e.m(3), x1: e.t(4), }, "with space": [(e.c(5)), ], array: (e.m(6)), "key": [e.m(7), "a string literal that does not fit inline", ]}})"####, build: s43, is: Sh::Arr(&[Sh::Obj(&[(Ky::Is("a"), Sh::Leaf(Kind::F, 0)), (Ky::Is("key"), Sh::Obj(&[(Ky::Made(1), Sh::Obj(&[(Ky::Is("value"), Sh::Leaf(Kind::V, 2)), (Ky::Is("null"), Sh::Leaf(Kind::M, 3)), (Ky::Is("x1"), Sh::Leaf(Kind::S, 4))])), (Ky::Is("with space"), Sh::Arr(&[Sh::Leaf(Kind::C, 5)])), (Ky::Is("array"), Sh::Leaf(Kind::M, 6)), (Ky::Is("key"), Sh::Arr(&[Sh::Leaf(Kind::M, 7), Sh::Str("a string literal that does not fit inline")]))]))])]) },
    Shape { text: r####"json::object!("key" => json::object!("a" => e.i(0)), "with space" => json::array!([{null: e.v(1), "b": (e.v(2)), "a": (e.i(3)), [e.k(4)]: e.v(5), object: e.o(6)}, (e.s(7)), json::object![foo: null, "b": e.b(8), ]], {}, e.m(9), [e.v(10), e.t(11), ], {}))"####, build: s44, is: Sh::Obj(&[(Ky::Is("key"), Sh::Obj(&[(Ky::Is("a"), Sh::Leaf(Kind::I, 0))])), (Ky::Is("with space"), Sh::Arr(&[Sh::Arr(&[Sh::Obj(&[(Ky::Is("null"), Sh::Leaf(Kind::V, 1)), (Ky::Is("b"), Sh::Leaf(Kind::V, 2)), (Ky::Is("a"), Sh::Leaf(Kind::I, 3)), (Ky::Made(4), Sh::Leaf(Kind::V, 5)), (Ky::Is("object"), Sh::Leaf(Kind::O, 6))]), Sh::Leaf(Kind::S, 7), Sh::Obj(&[(Ky::Is("foo"), Sh::Null), (Ky::Is("b"), Sh::Leaf(Kind::B, 8))])]), Sh::Obj(&[]), Sh::Leaf(Kind::M, 9), Sh::Arr(&[Sh::Leaf(Kind::V, 10), Sh::Leaf(Kind::S, 11)]), Sh::Obj(&[])]))]) },
    Shape { text: r####"json::array!(null, e.i(0) + 1)"####, build: s45, is: Sh::Arr(&[Sh::Null, Sh::Leaf(Kind::Inc, 0)]) },
    Shape { text: r####"json::array![[e.i(0), {value: (e.v(1)), "\u{e9}": {}}, {a: [e.i(2)], value: e.i(3) + 1, }, e.l(4), []], json::array!([json::object![e.k(5) => e.b(6)], e.v(7)])]"####, build: s46, is: Sh::Arr(&[Sh::Arr(&[Sh::Leaf(Kind::I, 0), Sh::Obj(&[(Ky::Is("value"), Sh::Leaf(Kind::V, 1)), (Ky::Is("\u{e9}"), Sh::Obj(&[]))]), Sh::Obj(&[(Ky::Is("a"), Sh::Arr(&[Sh::Leaf(Kind::I, 2)])), (Ky::Is("value"), Sh::Leaf(Kind::Inc, 3))]), Sh::Leaf(Kind::L, 4), Sh::Arr(&[])]), Sh::Arr(&[Sh::Arr(&[Sh::Obj(&[(Ky::Made(5), Sh::Leaf(Kind::B, 6))]), Sh::Leaf(Kind::V, 7)])])]) },
    Shape { text: r####"json::object!("quo\"te" => json::object!{b: e.i(0), "": (e.s(1))}, e.k(2) => e.b(3), e.k(4) => (e.f(5)), "" => e.v(6))"####, build: s47, is: Sh::Obj(&[(Ky::Is("quo\"te"), Sh::Obj(&[(Ky::Is("b"), Sh::Leaf(Kind::I, 0)), (Ky::Is(""), Sh::Leaf(Kind::S, 1))])), (Ky::Made(2), Sh::Leaf(Kind::B, 3)), (Ky::Made(4), Sh::Leaf(Kind::F, 5)), (Ky::Is(""), Sh::Leaf(Kind::V, 6))]) },
    Shape { text: r####"json::array!{e.m(0), {"\u{e9}": [e.o(1), {type_: e.i(2)}, (e.m(3))], a: [e.v(4), [], e.c(5), e.i(6)], type_: [null, e.v(7), ], }, e.c(8), {self_: e.i(9), "b": e.c(10), "x1": {}}, {[e.k(11)]: e.f(12), null: json::object!{"b" => (5), "with space" => json::array!{}}, "": e.c(13)}, null, }"####, build: s48, is: Sh::Arr(&[Sh::Leaf(Kind::M, 0), Sh::Obj(&[(Ky::Is("\u{e9}"), Sh::Arr(&[Sh::Leaf(Kind::O, 1), Sh::Obj(&[(Ky::Is("type_"), Sh::Leaf(Kind::I, 2))]), Sh::Leaf(Kind::M, 3)])), (Ky::Is("a"), Sh::Arr(&[Sh::Leaf(Kind::V, 4), Sh::Arr(&[]), Sh::Leaf(Kind::C, 5), Sh::Leaf(Kind::I, 6)])), (Ky::Is("type_"), Sh::Arr(&[Sh::Null, Sh::Leaf(Kind::V, 7)]))]), Sh::Leaf(Kind::C, 8), Sh::Obj(&[(Ky::Is("self_"), Sh::Leaf(Kind::I, 9)), (Ky::Is("b"), Sh::Leaf(Kind::C, 10)), (Ky::Is("x1"), Sh::Obj(&[]))]), Sh::Obj(&[(Ky::Made(11), Sh::Leaf(Kind::F, 12)), (Ky::Is("null"), Sh::Obj(&[(Ky::Is("b"), Sh::Int(5)), (Ky::Is("with space"), Sh::Arr(&[]))])), (Ky::Is(""), Sh::Leaf(Kind::C, 13))]), Sh::Null]) },
    Shape { text: r####"json::object!([e.k(0)]: e.s(1), [e.k(2)]: {key: e.c(3), [e.k(4)]: e.t(5), foo: {"key": [e.i(6), e.b(7), ], type_: e.c(8)}, [e.k(9)]: null}, [e.k(10)]: {[e.k(11)]: e.c(12), value: [[(e.v(13)), e.o(14), e.v(15), ], e.c(16), e.b(17), e.l(18), null], }, "\u{e9}": {a: json::object!("x1" => e.i(19) + 1, "" => json::array!(e.v(20), (5)), "a-key-that-is-longer-than-the-inline-buffer-of-keys" => e.v(21), "key" => e.v(22), ), })"####, build: s49, is: Sh::Obj(&[(Ky::Made(0), Sh::Leaf(Kind::S, 1)), (Ky::Made(2), Sh::Obj(&[(Ky::Is("key"), Sh::Leaf(Kind::C, 3)), (Ky::Made(4), Sh::Leaf(Kind::S, 5)), (Ky::Is("foo"), Sh::Obj(&[(Ky::Is("key"), Sh::Arr(&[Sh::Leaf(Kind::I, 6), Sh::Leaf(Kind::B, 7)])), (Ky::Is("type_"), Sh::Leaf(Kind::C, 8))])), (Ky::Made(9), Sh::Null)])), (Ky::Made(10), Sh::Obj(&[(Ky::Made(11), Sh::Leaf(Kind::C, 12)), (Ky::Is("value"), Sh::Arr(&[Sh::Arr(&[Sh::Leaf(Kind::V, 13), Sh::Leaf(Kind::O, 14), Sh::Leaf(Kind::V, 15)]), Sh::Leaf(Kind::C, 16), Sh::Leaf(Kind::B, 17), Sh::Leaf(Kind::L, 18), Sh::Null]))])), (Ky::Is("\u{e9}"), Sh::Obj(&[(Ky::Is("a"), Sh::Obj(&[(Ky::Is("x1"), Sh::Leaf(Kind::Inc, 19)), (Ky::Is(""), Sh::Arr(&[Sh::Leaf(Kind::V, 20), Sh::Int(5)])), (Ky::Is("a-key-that-is-longer-than-the-inline-buffer-of-keys"), Sh::Leaf(Kind::V, 21)), (Ky::Is("key"), Sh::Leaf(Kind::V, 22))]))]))]) },
    Shape { text: r####"json::object!([e.k(0)]: json::array!{e.i(1) + 1, {"x1": {"\u{e9}": e.v(2), "a-key-that-is-longer-than-the-inline-buffer-of-keys": e.c(3)}}, e.v(4), [e.o(5), e.v(6), [null], [(e.t(7)), ], ]}, key: [{[e.k(8)]: e.v(9), }, {self_: [(e.t(10)), e.s(11), e.c(12)], "key": json::object!([e.k(13)]: e.i(14), ), type_: (e.v(15))}, e.i(16), {foo: {"key": e.c(17)}}, {"a": [], }], x1: json::array!{e.v(18), e.c(19), null, {[e.k(20)]: {a: e.v(21)}, type_: (5)}}, a: {foo: null, [e.k(22)]: e.v(23), _u: [(e.v(24)), {[e.k(25)]: e.s(26), foo: false, "\u{e9}": e.l(27)}, e.t(28), e.i(29), ], })"####, build: s50, is: Sh::Obj(&[(Ky::Made(0), Sh::Arr(&[Sh::Leaf(Kind::Inc, 1), Sh::Obj(&[(Ky::Is("x1"), Sh::Obj(&[(Ky::Is("\u{e9}"), Sh::Leaf(Kind::V, 2)), (Ky::Is("a-key-that-is-longer-than-the-inline-buffer-of-keys"), Sh::Leaf(Kind::C, 3))]))]), Sh::Leaf(Kind::V, 4), Sh::Arr(&[Sh::Leaf(Kind::O, 5), Sh::Leaf(Kind::V, 6), Sh::Arr(&[Sh::Null]), Sh::Arr(&[Sh::Leaf(Kind::S, 7)])])])), (Ky::Is("key"), Sh::Arr(&[Sh::Obj(&[(Ky::Made(8), Sh::Leaf(Kind::V, 9))]), Sh::Obj(&[(Ky::Is("self_"), Sh::Arr(&[Sh::Leaf(Kind::S, 10), Sh::Leaf(Kind::S, 11), Sh::Leaf(Kind::C, 12)])), (Ky::Is("key"), Sh::Obj(&[(Ky::Made(13), Sh::Leaf(Kind::I, 14))])), (Ky::Is("type_"), Sh::Leaf(Kind::V, 15))]), Sh::Leaf(Kind::I, 16), Sh::Obj(&[(Ky::Is("foo"), Sh::Obj(&[(Ky::Is("key"), Sh::Leaf(Kind::C, 17))]))]), Sh::Obj(&[(Ky::Is("a"), Sh::Arr(&[]))])])), (Ky::Is("x1"), Sh::Arr(&[Sh::Leaf(Kind::V, 18), Sh::Leaf(Kind::C, 19), Sh::Null, Sh::Obj(&[(Ky::Made(20), Sh::Obj(&[(Ky::Is("a"), Sh::Leaf(Kind::V, 21))])), (Ky::Is("type_"), Sh::Int(5))])])), (Ky::Is("a"), Sh::Obj(&[(Ky::Is("foo"), Sh::Null), (Ky::Made(22), Sh::Leaf(Kind::V, 23)), (Ky::Is("_u"), Sh::Arr(&[Sh::Leaf(Kind::V, 24), Sh::Obj(&[(Ky::Made(25), Sh::Leaf(Kind::S, 26)), (Ky::Is("foo"), Sh::Bool(false)), (Ky::Is("\u{e9}"), Sh::Leaf(Kind::L, 27))]), Sh::Leaf(Kind::S, 28), Sh::Leaf(Kind::I, 29)]))]))]) },
    Shape { text: r####"json::object!{e.k(0) => e.v(1), "\u{e9}" => (e.l(2)), "quo\"te" => json::array!(), e.k(3) => e.t(4), "\u{e9}" => json::object!{"quo\"te" => 0, "x1" => json::object!([e.k(5)]: e.t(6), _u: 1 + 1, foo: e.b(7), _u: {_u: e.m(8), [e.k(9)]: e.t(10), a: (e.c(11))}, "b": [(e.c(12)), (e.v(13)), (e.t(14)), ]), }, "x1" => json::object![e.k(15) => e.t(16), e.k(17) => e.b(18), "quo\"te" => e.i(19), ], }"####, build: s51, is: Sh::Obj(&[(Ky::Made(0), Sh::Leaf(Kind::V, 1)), (Ky::Is("\u{e9}"), Sh::Leaf(Kind::L, 2)), (Ky::Is("quo\"te"), Sh::Arr(&[])), (Ky::Made(3), Sh::Leaf(Kind::S, 4)), (Ky::Is("\u{e9}"), Sh::Obj(&[(Ky::Is("quo\"te"), Sh::Int(0)), (Ky::Is("x1"), Sh::Obj(&[(Ky::Made(5), Sh::Leaf(Kind::S, 6)), (Ky::Is("_u"), Sh::Int(2)), (Ky::Is("foo"), Sh::Leaf(Kind::B, 7)), (Ky::Is("_u"), Sh::Obj(&[(Ky::Is("_u"), Sh::Leaf(Kind::M, 8)), (Ky::Made(9), Sh::Leaf(Kind::S, 10)), (Ky::Is("a"), Sh::Leaf(Kind::C, 11))])), (Ky::Is("b"), Sh::Arr(&[Sh::Leaf(Kind::C, 12), Sh::Leaf(Kind::V, 13), Sh::Leaf(Kind::S, 14)]))]))])), (Ky::Is("x1"), Sh::Obj(&[(Ky::Made(15), Sh::Leaf(Kind::S, 16)), (Ky::Made(17), Sh::Leaf(Kind::B, 18)), (Ky::Is("quo\"te"), Sh::Leaf(Kind::I, 19))]))]) },
    Shape { text: r####"json::object!("" => json::object!("key" => json::object!([e.k(0)]: {}), "key" => json::array!(e.o(1), {"\u{e9}": e.i(2) + 1, foo: e.v(3), "a-key-that-is-longer-than-the-inline-buffer-of-keys": e.b(4)}), "quo\"te" => e.c(5), ), "quo\"te" => json::array!([]), "x1" => e.f(6), e.k(7) => false, e.k(8) => json::object!["with space" => json::array!(e.b(9), e.i(10), {"a-key-that-is-longer-than-the-inline-buffer-of-keys": e.i(11) + 1, [e.k(12)]: (e.f(13))}, json::object![[e.k(14)]: e.c(15), ], [e.c(16), e.b(17)]), "" => e.v(18), "key" => e.t(19), e.k(20) => json::object![e.k(21) => e.i(22), e.k(23) => json::array![(e.l(24)), e.v(25), e.i(26) + 1, (e.l(27)), ], "b" => e.i(28) + 1, e.k(29) => json::array!{1 + 1}]], "key" => json::object!{"b" => (e.m(30))}, )"####, build: s52, is: Sh::Obj(&[(Ky::Is(""), Sh::Obj(&[(Ky::Is("key"), Sh::Obj(&[(Ky::Made(0), Sh::Obj(&[]))])), (Ky::Is("key"), Sh::Arr(&[Sh::Leaf(Kind::O, 1), Sh::Obj(&[(Ky::Is("\u{e9}"), Sh::Leaf(Kind::Inc, 2)), (Ky::Is("foo"), Sh::Leaf(Kind::V, 3)), (Ky::Is("a-key-that-is-longer-than-the-inline-buffer-of-keys"), Sh::Leaf(Kind::B, 4))])])), (Ky::Is("quo\"te"), Sh::Leaf(Kind::C, 5))])), (Ky::Is("quo\"te"), Sh::Arr(&[Sh::Arr(&[])])), (Ky::Is("x1"), Sh::Leaf(Kind::F, 6)), (Ky::Made(7), Sh::Bool(false)), (Ky::Made(8), Sh::Obj(&[(Ky::Is("with space"), Sh::Arr(&[Sh::Leaf(Kind::B, 9), Sh::Leaf(Kind::I, 10), Sh::Obj(&[(Ky::Is("a-key-that-is-longer-than-the-inline-buffer-of-keys"), Sh::Leaf(Kind::Inc, 11)), (Ky::Made(12), Sh::Leaf(Kind::F, 13))]), Sh::Obj(&[(Ky::Made(14), Sh::Leaf(Kind::C, 15))]), Sh::Arr(&[Sh::Leaf(Kind::C, 16), Sh::Leaf(Kind::B, 17)])])), (Ky::Is(""), Sh::Leaf(Kind::V, 18)), (Ky::Is("key"), Sh::Leaf(Kind::S, 19)), (Ky::Made(20), Sh::Obj(&[(Ky::Made(21), Sh::Leaf(Kind::I, 22)), (Ky::Made(23), Sh::Arr(&[Sh::Leaf(Kind::L, 24), Sh::Leaf(Kind::V, 25), Sh::Leaf(Kind::Inc, 26), Sh::Leaf(Kind::L, 27)])), (Ky::Is("b"), Sh::Leaf(Kind::Inc, 28)), (Ky::Made(29), Sh::Arr(&[Sh::Int(2)]))]))])), (Ky::Is("key"), Sh::Obj(&[(Ky::Is("b"), Sh::Leaf(Kind::M, 30))]))]) },
    Shape { text: r####"json::array![e.c(0), [json::Null, [e.b(1), (e.s(2))], e.v(3), {[e.k(4)]: e.i(5), "\u{e9}": [e.c(6), e.f(7)], }, e.v(8)], json::object!["x1": (e.c(9)), "a": "text", object: e.o(10), ], ]"####, build: s53, is: Sh::Arr(&[Sh::Leaf(Kind::C, 0), Sh::Arr(&[Sh::Null, Sh::Arr(&[Sh::Leaf(Kind::B, 1), Sh::Leaf(Kind::S, 2)]), Sh::Leaf(Kind::V, 3), Sh::Obj(&[(Ky::Made(4), Sh::Leaf(Kind::I, 5)), (Ky::Is("\u{e9}"), Sh::Arr(&[Sh::Leaf(Kind::C, 6), Sh::Leaf(Kind::F, 7)]))]), Sh::Leaf(Kind::V, 8)]), Sh::Obj(&[(Ky::Is("x1"), Sh::Leaf(Kind::C, 9)), (Ky::Is("a"), Sh::Str("text")), (Ky::Is("object"), Sh::Leaf(Kind::O, 10))])]) },
    Shape { text: r####"json::array!({}, e.o(0), [e.c(1), json::object!(), e.c(2), ], [[e.v(3), e.c(4)], {}, [(e.f(5))], e.c(6), (e.v(7)), ], [{a: e.i(8), "with space": e.t(9), }], json::object!{type_: [e.i(10) + 1, e.b(11), ]}, {array: {array: e.v(12)}, _u: {"x1": (e.i(13)), [e.k(14)]: e.m(15)}, value: e.c(16), key: "a string literal that does not fit inline", }, {x1: null})"####, build: s54, is: Sh::Arr(&[Sh::Obj(&[]), Sh::Leaf(Kind::O, 0), Sh::Arr(&[Sh::Leaf(Kind::C, 1), Sh::Obj(&[]), Sh::Leaf(Kind::C, 2)]), Sh::Arr(&[Sh::Arr(&[Sh::Leaf(Kind::V, 3), Sh::Leaf(Kind::C, 4)]), Sh::Obj(&[]), Sh::Arr(&[Sh::Leaf(Kind::F, 5)]), Sh::Leaf(Kind::C, 6), Sh::Leaf(Kind::V, 7)]), Sh::Arr(&[Sh::Obj(&[(Ky::Is("a"), Sh::Leaf(Kind::I, 8)), (Ky::Is("with space"), Sh::Leaf(Kind::S, 9))])]), Sh::Obj(&[(Ky::Is("type_"), Sh::Arr(&[Sh::Leaf(Kind::Inc, 10), Sh::Leaf(Kind::B, 11)]))]), Sh::Obj(&[(Ky::Is("array"), Sh::Obj(&[(Ky::Is("array"), Sh::Leaf(Kind::V, 12))])), (Ky::Is("_u"), Sh::Obj(&[(Ky::Is("x1"), Sh::Leaf(Kind::I, 13)), (Ky::Made(14), Sh::Leaf(Kind::M, 15))])), (Ky::Is("value"), Sh::Leaf(Kind::C, 16)), (Ky::Is("key"), Sh::Str("a string literal that does not fit inline"))]), Sh::Obj(&[(Ky::Is("x1"), Sh::Null)])]) },
    Shape { text: r####"json::array![{[e.k(0)]: e.c(1), key: null, "\u{e9}": [], }, e.b(2), {}, []]"####, build: s55, is: Sh::Arr(&[Sh::Obj(&[(Ky::Made(0), Sh::Leaf(Kind::C, 1)), (Ky::Is("key"), Sh::Null), (Ky::Is("\u{e9}"), Sh::Arr(&[]))]), Sh::Leaf(Kind::B, 2), Sh::Obj(&[]), Sh::Arr(&[])]) },
    Shape { text: r####"json::array!([{[e.k(0)]: [e.l(1), e.m(2), null, e.b(3)], [e.k(4)]: json::object!{"\u{e9}" => (5), e.k(5) => e.l(6), "a" => e.i(7), "\u{e9}" => (e.i(8)), e.k(9) => e.v(10), }, [e.k(11)]: {_u: null}, "": [e.o(12), e.o(13)], [e.k(14)]: {key: e.s(15), array: e.b(16), }}, [e.l(17), ], {[e.k(18)]: json::array![], [e.k(19)]: [e.v(20), e.m(21), (e.v(22)), ], "key": json::array![], null: null, "\u{e9}": e.m(23)}, {[e.k(24)]: e.v(25), null: (e.f(26)), }, [e.o(27), {"\u{e9}": e.l(28), "key": e.c(29), null: e.s(30), "\u{e9}": e.m(31), "key": e.o(32)}, (e.b(33))]], e.v(34), e.c(35), {key: e.i(36) + 1, "\u{e9}": json::array!{e.f(37), null, {[e.k(38)]: e.v(39), }, json::object!(x1: e.f(40), [e.k(41)]: e.v(42), "key": e.c(43), object: e.v(44), "b": e.o(45), )}})"####, build: s56, is: Sh::Arr(&[Sh::Arr(&[Sh::Obj(&[(Ky::Made(0), Sh::Arr(&[Sh::Leaf(Kind::L, 1), Sh::Leaf(Kind::M, 2), Sh::Null, Sh::Leaf(Kind::B, 3)])), (Ky::Made(4), Sh::Obj(&[(Ky::Is("\u{e9}"), Sh::Int(5)), (Ky::Made(5), Sh::Leaf(Kind::L, 6)), (Ky::Is("a"), Sh::Leaf(Kind::I, 7)), (Ky::Is("\u{e9}"), Sh::Leaf(Kind::I, 8)), (Ky::Made(9), Sh::Leaf(Kind::V, 10))])), (Ky::Made(11), Sh::Obj(&[(Ky::Is("_u"), Sh::Null)])), (Ky::Is(""), Sh::Arr(&[Sh::Leaf(Kind::O, 12), Sh::Leaf(Kind::O, 13)])), (Ky::Made(14), Sh::Obj(&[(Ky::Is("key"), Sh::Leaf(Kind::S, 15)), (Ky::Is("array"), Sh::Leaf(Kind::B, 16))]))]), Sh::Arr(&[Sh::Leaf(Kind::L, 17)]), Sh::Obj(&[(Ky::Made(18), Sh::Arr(&[])), (Ky::Made(19), Sh::Arr(&[Sh::Leaf(Kind::V, 20), Sh::Leaf(Kind::M, 21), Sh::Leaf(Kind::V, 22)])), (Ky::Is("key"), Sh::Arr(&[])), (Ky::Is("null"), Sh::Null), (Ky::Is("\u{e9}"), Sh::Leaf(Kind::M, 23))]), Sh::Obj(&[(Ky::Made(24), Sh::Leaf(Kind::V, 25)), (Ky::Is("null"), Sh::Leaf(Kind::F, 26))]), Sh::Arr(&[Sh::Leaf(Kind::O, 27), Sh::Obj(&[(Ky::Is("\u{e9}"), Sh::Leaf(Kind::L, 28)), (Ky::Is("key"), Sh::Leaf(Kind::C, 29)), (Ky::Is("null"), Sh::Leaf(Kind::S, 30)), (Ky::Is("\u{e9}"), Sh::Leaf(Kind::M, 31)), (Ky::Is("key"), Sh::Leaf(Kind::O, 32))]), Sh::Leaf(Kind::B, 33)])]), Sh::Leaf(Kind::V, 34), Sh::Leaf(Kind::C, 35), Sh::Obj(&[(Ky::Is("key"), Sh::Leaf(Kind::Inc, 36)), (Ky::Is("\u{e9}"), Sh::Arr(&[Sh::Leaf(Kind::F, 37), Sh::Null, Sh::Obj(&[(Ky::Made(38), Sh::Leaf(Kind::V, 39))]), Sh::Obj(&[(Ky::Is("x1"), Sh::Leaf(Kind::F, 40)), (Ky::Made(41), Sh::Leaf(Kind::V, 42)), (Ky::Is("key"), Sh::Leaf(Kind::C, 43)), (Ky::Is("object"), Sh::Leaf(Kind::V, 44)), (Ky::Is("b"), Sh::Leaf(Kind::O, 45))])]))])]) },
    Shape { text: r####"json::array!{null, e.i(0), e.i(1) + 1}"####, build: s57, is: Sh::Arr(&[Sh::Null, Sh::Leaf(Kind::I, 0), Sh::Leaf(Kind::Inc, 1)]) },
    Shape { text: r####"json::array!(e.v(0), e.v(1), [json::array![e.m(2)]], )"####, build: s58, is: Sh::Arr(&[Sh::Leaf(Kind::V, 0), Sh::Leaf(Kind::V, 1), Sh::Arr(&[Sh::Arr(&[Sh::Leaf(Kind::M, 2)])])]) },
    Shape { text: r####"json::object!["with space": json::object![[e.k(0)]: {}, array: (e.c(1)), "a": (e.i(2))], [e.k(3)]: e.v(4), [e.k(5)]: e.v(6), [e.k(7)]: {[e.k(8)]: (e.c(9)), key: [e.v(10), [e.b(11), {a: e.o(12), x1: e.v(13)}, {[e.k(14)]: e.v(15), null: e.c(16), [e.k(17)]: e.v(18), _u: e.c(19)}, {"": e.c(20), }, ]], "": {}, }, _u: []]"####, build: s59, is: Sh::Obj(&[(Ky::Is("with space"), Sh::Obj(&[(Ky::Made(0), Sh::Obj(&[])), (Ky::Is("array"), Sh::Leaf(Kind::C, 1)), (Ky::Is("a"), Sh::Leaf(Kind::I, 2))])), (Ky::Made(3), Sh::Leaf(Kind::V, 4)), (Ky::Made(5), Sh::Leaf(Kind::V, 6)), (Ky::Made(7), Sh::Obj(&[(Ky::Made(8), Sh::Leaf(Kind::C, 9)), (Ky::Is("key"), Sh::Arr(&[Sh::Leaf(Kind::V, 10), Sh::Arr(&[Sh::Leaf(Kind::B, 11), Sh::Obj(&[(Ky::Is("a"), Sh::Leaf(Kind::O, 12)), (Ky::Is("x1"), Sh::Leaf(Kind::V, 13))]), Sh::Obj(&[(Ky::Made(14), Sh::Leaf(Kind::V, 15)), (Ky::Is("null"), Sh::Leaf(Kind::C, 16)), (Ky::Made(17), Sh::Leaf(Kind::V, 18)), (Ky::Is("_u"), Sh::Leaf(Kind::C, 19))]), Sh::Obj(&[(Ky::Is(""), Sh::Leaf(Kind::C, 20))])])])), (Ky::Is(""), Sh::Obj(&[]))])), (Ky::Is("_u"), Sh::Arr(&[]))]) },
    Shape { text: r####"json::object![array: e.b(0), array: [{"quo\"te": {null: (e.i(1)), "a": e.o(2), [e.k(3)]: e.f(4), value: e.o(5)}, "a": [(e.i(6))]}], ]"####, build: s60, is: Sh::Obj(&[(Ky::Is("array"), Sh::Leaf(Kind::B, 0)), (Ky::Is("array"), Sh::Arr(&[Sh::Obj(&[(Ky::Is("quo\"te"), Sh::Obj(&[(Ky::Is("null"), Sh::Leaf(Kind::I, 1)), (Ky::Is("a"), Sh::Leaf(Kind::O, 2)), (Ky::Made(3), Sh::Leaf(Kind::F, 4)), (Ky::Is("value"), Sh::Leaf(Kind::O, 5))])), (Ky::Is("a"), Sh::Arr(&[Sh::Leaf(Kind::I, 6)]))])]))]) },
    Shape { text: r####"json::array![[json::array!(e.c(0), ), {"\u{e9}": e.f(1), object: e.t(2)}], [json::object!{e.k(3) => e.l(4), "a" => e.v(5), "\u{e9}" => e.v(6), "a" => e.i(7), "with space" => e.t(8)}, json::object!["quo\"te": e.i(9), [e.k(10)]: null, ], ], {null: {b: e.l(11), }, "with space": e.i(12), object: json::array!(e.s(13), )}, {"quo\"te": e.s(14), [e.k(15)]: e.v(16), }, json::array!{e.o(17), json::array!{e.f(18), e.t(19), e.c(20), }, e.i(21) + 1, }, ]"####, build: s61, is: Sh::Arr(&[Sh::Arr(&[Sh::Arr(&[Sh::Leaf(Kind::C, 0)]), Sh::Obj(&[(Ky::Is("\u{e9}"), Sh::Leaf(Kind::F, 1)), (Ky::Is("object"), Sh::Leaf(Kind::S, 2))])]), Sh::Arr(&[Sh::Obj(&[(Ky::Made(3), Sh::Leaf(Kind::L, 4)), (Ky::Is("a"), Sh::Leaf(Kind::V, 5)), (Ky::Is("\u{e9}"), Sh::Leaf(Kind::V, 6)), (Ky::Is("a"), Sh::Leaf(Kind::I, 7)), (Ky::Is("with space"), Sh::Leaf(Kind::S, 8))]), Sh::Obj(&[(Ky::Is("quo\"te"), Sh::Leaf(Kind::I, 9)), (Ky::Made(10), Sh::Null)])]), Sh::Obj(&[(Ky::Is("null"), Sh::Obj(&[(Ky::Is("b"), Sh::Leaf(Kind::L, 11))])), (Ky::Is("with space"), Sh::Leaf(Kind::I, 12)), (Ky::Is("object"), Sh::Arr(&[Sh::Leaf(Kind::S, 13)]))]), Sh::Obj(&[(Ky::Is("quo\"te"), Sh::Leaf(Kind::S, 14)), (Ky::Made(15), Sh::Leaf(Kind::V, 16))]), Sh::Arr(&[Sh::Leaf(Kind::O, 17), Sh::Arr(&[Sh::Leaf(Kind::F, 18), Sh::Leaf(Kind::S, 19), Sh::Leaf(Kind::C, 20)]), Sh::Leaf(Kind::Inc, 21)])]) },
    Shape { text: r####"json::object!{x1: [e.i(0), {value: (e.f(1)), _u: e.f(2), "x1": e.v(3)}, json::object![[e.k(4)]: e.c(5), array: null, type_: e.m(6)]], foo: 1 + 1, [e.k(7)]: [e.i(8), {b: e.i(9) + 1, "with space": e.c(10), "a-key-that-is-longer-than-the-inline-buffer-of-keys": (e.s(11)), }], value: {array: {"quo\"te": e.v(12), "a-key-that-is-longer-than-the-inline-buffer-of-keys": e.o(13)}}, null: {}, null: [[e.l(14), e.i(15) + 1, e.o(16), (e.t(17))], e.v(18), [e.o(19), e.c(20), e.t(21)], {}, ], }"####, build: s62, is: Sh::Obj(&[(Ky::Is("x1"), Sh::Arr(&[Sh::Leaf(Kind::I, 0), Sh::Obj(&[(Ky::Is("value"), Sh::Leaf(Kind::F, 1)), (Ky::Is("_u"), Sh::Leaf(Kind::F, 2)), (Ky::Is("x1"), Sh::Leaf(Kind::V, 3))]), Sh::Obj(&[(Ky::Made(4), Sh::Leaf(Kind::C, 5)), (Ky::Is("array"), Sh::Null), (Ky::Is("type_"), Sh::Leaf(Kind::M, 6))])])), (Ky::Is("foo"), Sh::Int(2)), (Ky::Made(7), Sh::Arr(&[Sh::Leaf(Kind::I, 8), Sh::Obj(&[(Ky::Is("b"), Sh::Leaf(Kind::Inc, 9)), (Ky::Is("with space"), Sh::Leaf(Kind::C, 10)), (Ky::Is("a-key-that-is-longer-than-the-inline-buffer-of-keys"), Sh::Leaf(Kind::S, 11))])])), (Ky::Is("value"), Sh::Obj(&[(Ky::Is("array"), Sh::Obj(&[(Ky::Is("quo\"te"), Sh::Leaf(Kind::V, 12)), (Ky::Is("a-key-that-is-longer-than-the-inline-buffer-of-keys"), Sh::Leaf(Kind::O, 13))]))])), (Ky::Is("null"), Sh::Obj(&[])), (Ky::Is("null"), Sh::Arr(&[Sh::Arr(&[Sh::Leaf(Kind::L, 14), Sh::Leaf(Kind::Inc, 15), Sh::Leaf(Kind::O, 16), Sh::Leaf(Kind::S, 17)]), Sh::Leaf(Kind::V, 18), Sh::Arr(&[Sh::Leaf(Kind::O, 19), Sh::Leaf(Kind::C, 20), Sh::Leaf(Kind::S, 21)]), Sh::Obj(&[])]))]) },
    Shape { text: r####"json::object!("with space" => json::object![e.k(0) => json::object!("b" => e.i(1) + 1, e.k(2) => json::array!{e.i(3), e.l(4), e.m(5), })], e.k(6) => e.i(7), e.k(8) => json::object!("" => json::object!()), "a" => json::array!{e.i(9), e.t(10), {[e.k(11)]: (e.s(12)), "with space": e.l(13), "b": e.i(14) + 1, object: {a: null, [e.k(15)]: e.c(16)}, "with space": json::array![e.l(17), e.c(18), e.c(19), ]}, e.b(20), json::object!["\u{e9}": e.v(21), [e.k(22)]: e.b(23), ], }, "" => (e.v(24)), "with space" => json::array![[null]])"####, build: s63, is: Sh::Obj(&[(Ky::Is("with space"), Sh::Obj(&[(Ky::Made(0), Sh::Obj(&[(Ky::Is("b"), Sh::Leaf(Kind::Inc, 1)), (Ky::Made(2), Sh::Arr(&[Sh::Leaf(Kind::I, 3), Sh::Leaf(Kind::L, 4), Sh::Leaf(Kind::M, 5)]))]))])), (Ky::Made(6), Sh::Leaf(Kind::I, 7)), (Ky::Made(8), Sh::Obj(&[(Ky::Is(""), Sh::Obj(&[]))])), (Ky::Is("a"), Sh::Arr(&[Sh::Leaf(Kind::I, 9), Sh::Leaf(Kind::S, 10), Sh::Obj(&[(Ky::Made(11), Sh::Leaf(Kind::S, 12)), (Ky::Is("with space"), Sh::Leaf(Kind::L, 13)), (Ky::Is("b"), Sh::Leaf(Kind::Inc, 14)), (Ky::Is("object"), Sh::Obj(&[(Ky::Is("a"), Sh::Null), (Ky::Made(15), Sh::Leaf(Kind::C, 16))])), (Ky::Is("with space"), Sh::Arr(&[Sh::Leaf(Kind::L, 17), Sh::Leaf(Kind::C, 18), Sh::Leaf(Kind::C, 19)]))]), Sh::Leaf(Kind::B, 20), Sh::Obj(&[(Ky::Is("\u{e9}"), Sh::Leaf(Kind::V, 21)), (Ky::Made(22), Sh::Leaf(Kind::B, 23))])])), (Ky::Is(""), Sh::Leaf(Kind::V, 24)), (Ky::Is("with space"), Sh::Arr(&[Sh::Arr(&[Sh::Null])]))]) },
    Shape { text: r####"json::array!{[e.l(0), [{a: {}}, ]], e.v(1), e.b(2), [e.v(3), e.c(4), [json::object!{"key" => json::object!["a": e.m(5), "quo\"te": e.i(6), _u: e.v(7)], "a-key-that-is-longer-than-the-inline-buffer-of-keys" => json::object!["a" => (5), "with space" => e.l(8)], "\u{e9}" => json::array!(e.v(9), e.v(10), e.c(11), null, e.m(12))}, [e.v(13), e.t(14), null]], [[e.l(15)], e.o(16), [], (e.v(17)), (e.i(18))]], e.i(19) + 1}"####, build: s64, is: Sh::Arr(&[Sh::Arr(&[Sh::Leaf(Kind::L, 0), Sh::Arr(&[Sh::Obj(&[(Ky::Is("a"), Sh::Obj(&[]))])])]), Sh::Leaf(Kind::V, 1), Sh::Leaf(Kind::B, 2), Sh::Arr(&[Sh::Leaf(Kind::V, 3), Sh::Leaf(Kind::C, 4), Sh::Arr(&[Sh::Obj(&[(Ky::Is("key"), Sh::Obj(&[(Ky::Is("a"), Sh::Leaf(Kind::M, 5)), (Ky::Is("quo\"te"), Sh::Leaf(Kind::I, 6)), (Ky::Is("_u"), Sh::Leaf(Kind::V, 7))])), (Ky::Is("a-key-that-is-longer-than-the-inline-buffer-of-keys"), Sh::Obj(&[(Ky::Is("a"), Sh::Int(5)), (Ky::Is("with space"), Sh::Leaf(Kind::L, 8))])), (Ky::Is("\u{e9}"), Sh::Arr(&[Sh::Leaf(Kind::V, 9), Sh::Leaf(Kind::V, 10), Sh::Leaf(Kind::C, 11), Sh::Null, Sh::Leaf(Kind::M, 12)]))]), Sh::Arr(&[Sh::Leaf(Kind::V, 13), Sh::Leaf(Kind::S, 14), Sh::Null])]), Sh::Arr(&[Sh::Arr(&[Sh::Leaf(Kind::L, 15)]), Sh::Leaf(Kind::O, 16), Sh::Arr(&[]), Sh::Leaf(Kind::V, 17), Sh::Leaf(Kind::I, 18)])]), Sh::Leaf(Kind::Inc, 19)]) },
    Shape { text: r####"json::array!{{foo: e.v(0), "a": e.c(1), array: e.i(2) + 1}, e.i(3) + 1, e.o(4), [], json::object!(key: (e.l(5)), [e.k(6)]: json::array!(e.m(7), e.i(8), e.v(9), )), null, }"####, build: s65, is: Sh::Arr(&[Sh::Obj(&[(Ky::Is("foo"), Sh::Leaf(Kind::V, 0)), (Ky::Is("a"), Sh::Leaf(Kind::C, 1)), (Ky::Is("array"), Sh::Leaf(Kind::Inc, 2))]), Sh::Leaf(Kind::Inc, 3), Sh::Leaf(Kind::O, 4), Sh::Arr(&[]), Sh::Obj(&[(Ky::Is("key"), Sh::Leaf(Kind::L, 5)), (Ky::Made(6), Sh::Arr(&[Sh::Leaf(Kind::M, 7), Sh::Leaf(Kind::I, 8), Sh::Leaf(Kind::V, 9)]))]), Sh::Null]) },
    Shape { text: r####"json::array!{null, (e.i(0)), [], [e.i(1)], e.l(2), }"####, build: s66, is: Sh::Arr(&[Sh::Null, Sh::Leaf(Kind::I, 0), Sh::Arr(&[]), Sh::Arr(&[Sh::Leaf(Kind::I, 1)]), Sh::Leaf(Kind::L, 2)]) },
    Shape { text: r####"json::array!(e.s(0), [{value: e.v(1), [e.k(2)]: {self_: {"key": e.v(3), }}, "x1": null}, [json::object!(), ]], e.v(4), {x1: e.v(5)})"####, build: s67, is: Sh::Arr(&[Sh::Leaf(Kind::S, 0), Sh::Arr(&[Sh::Obj(&[(Ky::Is("value"), Sh::Leaf(Kind::V, 1)), (Ky::Made(2), Sh::Obj(&[(Ky::Is("self_"), Sh::Obj(&[(Ky::Is("key"), Sh::Leaf(Kind::V, 3))]))])), (Ky::Is("x1"), Sh::Null)]), Sh::Arr(&[Sh::Obj(&[])])]), Sh::Leaf(Kind::V, 4), Sh::Obj(&[(Ky::Is("x1"), Sh::Leaf(Kind::V, 5))])]) },
    Shape { text: r####"json::object!(e.k(0) => e.o(1), e.k(2) => json::array![e.m(3), e.v(4), {"x1": e.i(5) + 1, "b": e.t(6), [e.k(7)]: (e.i(8) + 1), key: e.i(9), foo: e.s(10)}], e.k(11) => json::object!{[e.k(12)]: e.m(13), type_: [(e.c(14)), e.v(15)], [e.k(16)]: e.t(17)}, "a-key-that-is-longer-than-the-inline-buffer-of-keys" => e.i(18))"####, build: s68, is: Sh::Obj(&[(Ky::Made(0), Sh::Leaf(Kind::O, 1)), (Ky::Made(2), Sh::Arr(&[Sh::Leaf(Kind::M, 3), Sh::Leaf(Kind::V, 4), Sh::Obj(&[(Ky::Is("x1"), Sh::Leaf(Kind::Inc, 5)), (Ky::Is("b"), Sh::Leaf(Kind::S, 6)), (Ky::Made(7), Sh::Leaf(Kind::Inc, 8)), (Ky::Is("key"), Sh::Leaf(Kind::I, 9)), (Ky::Is("foo"), Sh::Leaf(Kind::S, 10))])])), (Ky::Made(11), Sh::Obj(&[(Ky::Made(12), Sh::Leaf(Kind::M, 13)), (Ky::Is("type_"), Sh::Arr(&[Sh::Leaf(Kind::C, 14), Sh::Leaf(Kind::V, 15)])), (Ky::Made(16), Sh::Leaf(Kind::S, 17))])), (Ky::Is("a-key-that-is-longer-than-the-inline-buffer-of-keys"), Sh::Leaf(Kind::I, 18))]) },
    Shape { text: r####"json::object!{a: [{b: (e.v(0)), "a-key-that-is-longer-than-the-inline-buffer-of-keys": e.v(1), _u: e.t(2), }, json::array![], [e.v(3), json::object!("\u{e9}" => e.b(4), e.k(5) => e.f(6), e.k(7) => (e.b(8))), "a string literal that does not fit inline"], json::array!({"": e.t(9), foo: e.v(10), "with space": (e.v(11)), [e.k(12)]: e.v(13), value: e.v(14)}, (e.o(15)), e.b(16), e.c(17), e.v(18))], foo: {a: [], }, "a-key-that-is-longer-than-the-inline-buffer-of-keys": {"quo\"te": null}, "b": [e.b(19), e.v(20), e.o(21), ]}"####, build: s69, is: Sh::Obj(&[(Ky::Is("a"), Sh::Arr(&[Sh::Obj(&[(Ky::Is("b"), Sh::Leaf(Kind::V, 0)), (Ky::Is("a-key-that-is-longer-than-the-inline-buffer-of-keys"), Sh::Leaf(Kind::V, 1)), (Ky::Is("_u"), Sh::Leaf(Kind::S, 2))]), Sh::Arr(&[]), Sh::Arr(&[Sh::Leaf(Kind::V, 3), Sh::Obj(&[(Ky::Is("\u{e9}"), Sh::Leaf(Kind::B, 4)), (Ky::Made(5), Sh::Leaf(Kind::F, 6)), (Ky::Made(7), Sh::Leaf(Kind::B, 8))]), Sh::Str("a string literal that does not fit inline")]), Sh::Arr(&[Sh::Obj(&[(Ky::Is(""), Sh::Leaf(Kind::S, 9)), (Ky::Is("foo"), Sh::Leaf(Kind::V, 10)), (Ky::Is("with space"), Sh::Leaf(Kind::V, 11)), (Ky::Made(12), Sh::Leaf(Kind::V, 13)), (Ky::Is("value"), Sh::Leaf(Kind::V, 14))]), Sh::Leaf(Kind::O, 15), Sh::Leaf(Kind::B, 16), Sh::Leaf(Kind::C, 17), Sh::Leaf(Kind::V, 18)])])), (Ky::Is("foo"), Sh::Obj(&[(Ky::Is("a"), Sh::Arr(&[]))])), (Ky::Is("a-key-that-is-longer-than-the-inline-buffer-of-keys"), Sh::Obj(&[(Ky::Is("quo\"te"), Sh::Null)])), (Ky::Is("b"), Sh::Arr(&[Sh::Leaf(Kind::B, 19), Sh::Leaf(Kind::V, 20), Sh::Leaf(Kind::O, 21)]))]) },
    Shape { text: r####"json::array!{e.i(0), {"\u{e9}": (e.v(1)), array: json::array!{e.b(2), e.o(3), "text", }, }, 42, {}, [[(e.c(4)), e.c(5), ], e.i(6), {key: e.v(7), "b": e.f(8)}], [[(e.t(9))], [e.b(10)]]}"####, build: s70, is: Sh::Arr(&[Sh::Leaf(Kind::I, 0), Sh::Obj(&[(Ky::Is("\u{e9}"), Sh::Leaf(Kind::V, 1)), (Ky::Is("array"), Sh::Arr(&[Sh::Leaf(Kind::B, 2), Sh::Leaf(Kind::O, 3), Sh::Str("text")]))]), Sh::Int(42), Sh::Obj(&[]), Sh::Arr(&[Sh::Arr(&[Sh::Leaf(Kind::C, 4), Sh::Leaf(Kind::C, 5)]), Sh::Leaf(Kind::I, 6), Sh::Obj(&[(Ky::Is("key"), Sh::Leaf(Kind::V, 7)), (Ky::Is("b"), Sh::Leaf(Kind::F, 8))])]), Sh::Arr(&[Sh::Arr(&[Sh::Leaf(Kind::S, 9)]), Sh::Arr(&[Sh::Leaf(Kind::B, 10)])])]) },
    Shape { text: r####"json::object!["a" => e.v(0), "a-key-that-is-longer-than-the-inline-buffer-of-keys" => (e.c(1)), "" => e.c(2), e.k(3) => json::object!["a" => json::array!{{x1: json::Null, object: e.v(4), self_: e.i(5)}, json::object!["a" => e.v(6), "key" => e.m(7), "b" => e.c(8), "with space" => e.l(9), ]}, "b" => e.v(10), "b" => json::object!{object: e.i(11) + 1, "x1": {[e.k(12)]: e.f(13), x1: e.c(14), "key": e.s(15), "a-key-that-is-longer-than-the-inline-buffer-of-keys": null, x1: e.i(16)}, a: {key: e.o(17), }, value: {object: e.f(18)}, a: json::array!(e.c(19)), }, "with space" => json::array!{e.l(20), (e.b(21))}], "with space" => json::object!{"a-key-that-is-longer-than-the-inline-buffer-of-keys" => e.i(22)}, "with space" => e.m(23), ]"####, build: s71, is: Sh::Obj(&[(Ky::Is("a"), Sh::Leaf(Kind::V, 0)), (Ky::Is("a-key-that-is-longer-than-the-inline-buffer-of-keys"), Sh::Leaf(Kind::C, 1)), (Ky::Is(""), Sh::Leaf(Kind::C, 2)), (Ky::Made(3), Sh::Obj(&[(Ky::Is("a"), Sh::Arr(&[Sh::Obj(&[(Ky::Is("x1"), Sh::Null), (Ky::Is("object"), Sh::Leaf(Kind::V, 4)), (Ky::Is("self_"), Sh::Leaf(Kind::I, 5))]), Sh::Obj(&[(Ky::Is("a"), Sh::Leaf(Kind::V, 6)), (Ky::Is("key"), Sh::Leaf(Kind::M, 7)), (Ky::Is("b"), Sh::Leaf(Kind::C, 8)), (Ky::Is("with space"), Sh::Leaf(Kind::L, 9))])])), (Ky::Is("b"), Sh::Leaf(Kind::V, 10)), (Ky::Is("b"), Sh::Obj(&[(Ky::Is("object"), Sh::Leaf(Kind::Inc, 11)), (Ky::Is("x1"), Sh::Obj(&[(Ky::Made(12), Sh::Leaf(Kind::F, 13)), (Ky::Is("x1"), Sh::Leaf(Kind::C, 14)), (Ky::Is("key"), Sh::Leaf(Kind::S, 15)), (Ky::Is("a-key-that-is-longer-than-the-inline-buffer-of-keys"), Sh::Null), (Ky::Is("x1"), Sh::Leaf(Kind::I, 16))])), (Ky::Is("a"), Sh::Obj(&[(Ky::Is("key"), Sh::Leaf(Kind::O, 17))])), (Ky::Is("value"), Sh::Obj(&[(Ky::Is("object"), Sh::Leaf(Kind::F, 18))])), (Ky::Is("a"), Sh::Arr(&[Sh::Leaf(Kind::C, 19)]))])), (Ky::Is("with space"), Sh::Arr(&[Sh::Leaf(Kind::L, 20), Sh::Leaf(Kind::B, 21)]))])), (Ky::Is("with space"), Sh::Obj(&[(Ky::Is("a-key-that-is-longer-than-the-inline-buffer-of-keys"), Sh::Leaf(Kind::I, 22))])), (Ky::Is("with space"), Sh::Leaf(Kind::M, 23))]) },
    Shape { text: r####"json::object!{e.k(0) => json::object!("with space" => json::object!("" => e.o(1), "" => json::array!(json::object!("key" => e.s(2), e.k(3) => e.o(4)), [e.l(5), e.v(6), e.l(7)], e.v(8), e.s(9)), ), e.k(10) => json::array![(e.o(11))], "key" => (e.c(12)), ), e.k(13) => json::array![{type_: e.i(14) + 1, null: e.i(15), }, (e.f(16)), [e.c(17), (e.l(18)), e.o(19), e.c(20)], e.v(21), ], e.k(22) => e.i(23) + 1, "x1" => e.l(24), "" => json::object![e.k(25) => json::object!("key" => e.i(26), "quo\"te" => json::object!["\u{e9}" => json::object![e.k(27) => e.i(28) + 1, e.k(29) => e.v(30), "" => e.i(31) + 1, "x1" => e.c(32)], e.k(33) => json::array!{e.t(34), e.c(35), e.v(36), e.i(37), e.s(38)}, "quo\"te" => e.l(39), "with space" => json::array!(e.v(40), e.b(41)), "b" => json::object!{}])], e.k(42) => (5), }"####, build: s72, is: Sh::Obj(&[(Ky::Made(0), Sh::Obj(&[(Ky::Is("with space"), Sh::Obj(&[(Ky::Is(""), Sh::Leaf(Kind::O, 1)), (Ky::Is(""), Sh::Arr(&[Sh::Obj(&[(Ky::Is("key"), Sh::Leaf(Kind::S, 2)), (Ky::Made(3), Sh::Leaf(Kind::O, 4))]), Sh::Arr(&[Sh::Leaf(Kind::L, 5), Sh::Leaf(Kind::V, 6), Sh::Leaf(Kind::L, 7)]), Sh::Leaf(Kind::V, 8), Sh::Leaf(Kind::S, 9)]))])), (Ky::Made(10), Sh::Arr(&[Sh::Leaf(Kind::O, 11)])), (Ky::Is("key"), Sh::Leaf(Kind::C, 12))])), (Ky::Made(13), Sh::Arr(&[Sh::Obj(&[(Ky::Is("type_"), Sh::Leaf(Kind::Inc, 14)), (Ky::Is("null"), Sh::Leaf(Kind::I, 15))]), Sh::Leaf(Kind::F, 16), Sh::Arr(&[Sh::Leaf(Kind::C, 17), Sh::Leaf(Kind::L, 18), Sh::Leaf(Kind::O, 19), Sh::Leaf(Kind::C, 20)]), Sh::Leaf(Kind::V, 21)])), (Ky::Made(22), Sh::Leaf(Kind::Inc, 23)), (Ky::Is("x1"), Sh::Leaf(Kind::L, 24)), (Ky::Is(""), Sh::Obj(&[(Ky::Made(25), Sh::Obj(&[(Ky::Is("key"), Sh::Leaf(Kind::I, 26)), (Ky::Is("quo\"te"), Sh::Obj(&[(Ky::Is("\u{e9}"), Sh::Obj(&[(Ky::Made(27), Sh::Leaf(Kind::Inc, 28)), (Ky::Made(29), Sh::Leaf(Kind::V, 30)), (Ky::Is(""), Sh::Leaf(Kind::Inc, 31)), (Ky::Is("x1"), Sh::Leaf(Kind::C, 32))])), (Ky::Made(33), Sh::Arr(&[Sh::Leaf(Kind::S, 34), Sh::Leaf(Kind::C, 35), Sh::Leaf(Kind::V, 36), Sh::Leaf(Kind::I, 37), Sh::Leaf(Kind::S, 38)])), (Ky::Is("quo\"te"), Sh::Leaf(Kind::L, 39)), (Ky::Is("with space"), Sh::Arr(&[Sh::Leaf(Kind::V, 40), Sh::Leaf(Kind::B, 41)])), (Ky::Is("b"), Sh::Obj(&[]))]))]))])), (Ky::Made(42), Sh::Int(5))]) },
    Shape { text: r####"json::object!{object: e.o(0), key: {"": [{a: null, b: e.b(1), [e.k(2)]: e.c(3)}, e.t(4), e.f(5), (e.v(6))], [e.k(7)]: "a string literal that does not fit inline"}, type_: json::object!(key: e.i(8), "quo\"te": json::object!("key" => json::array!((e.f(9)), e.o(10), null), "key" => e.v(11), "b" => json::object![e.k(12) => e.m(13), e.k(14) => e.i(15), "\u{e9}" => e.t(16), "\u{e9}" => e.o(17), "b" => e.o(18)], "quo\"te" => e.c(19)), [e.k(20)]: ["a string literal that does not fit inline", (e.i(21)), ], "": e.f(22)), [e.k(23)]: null}"####, build: s73, is: Sh::Obj(&[(Ky::Is("object"), Sh::Leaf(Kind::O, 0)), (Ky::Is("key"), Sh::Obj(&[(Ky::Is(""), Sh::Arr(&[Sh::Obj(&[(Ky::Is("a"), Sh::Null), (Ky::Is("b"), Sh::Leaf(Kind::B, 1)), (Ky::Made(2), Sh::Leaf(Kind::C, 3))]), Sh::Leaf(Kind::S, 4), Sh::Leaf(Kind::F, 5), Sh::Leaf(Kind::V, 6)])), (Ky::Made(7), Sh::Str("a string literal that does not fit inline"))])), (Ky::Is("type_"), Sh::Obj(&[(Ky::Is("key"), Sh::Leaf(Kind::I, 8)), (Ky::Is("quo\"te"), Sh::Obj(&[(Ky::Is("key"), Sh::Arr(&[Sh::Leaf(Kind::F, 9), Sh::Leaf(Kind::O, 10), Sh::Null])), (Ky::Is("key"), Sh::Leaf(Kind::V, 11)), (Ky::Is("b"), Sh::Obj(&[(Ky::Made(12), Sh::Leaf(Kind::M, 13)), (Ky::Made(14), Sh::Leaf(Kind::I, 15)), (Ky::Is("\u{e9}"), Sh::Leaf(Kind::S, 16)), (Ky::Is("\u{e9}"), Sh::Leaf(Kind::O, 17)), (Ky::Is("b"), Sh::Leaf(Kind::O, 18))])), (Ky::Is("quo\"te"), Sh::Leaf(Kind::C, 19))])), (Ky::Made(20), Sh::Arr(&[Sh::Str("a string literal that does not fit inline"), Sh::Leaf(Kind::I, 21)])), (Ky::Is(""), Sh::Leaf(Kind::F, 22))])), (Ky::Made(23), Sh::Null)]) },
    Shape { text: r####"json::array![e.i(0)]"####, build: s74, is: Sh::Arr(&[Sh::Leaf(Kind::I, 0)]) },
    Shape { text: r####"json::object!(null: e.c(0), a: [e.l(1), e.i(2), e.i(3), e.v(4), 1 + 1], [e.k(5)]: e.f(6))"####, build: s75, is: Sh::Obj(&[(Ky::Is("null"), Sh::Leaf(Kind::C, 0)), (Ky::Is("a"), Sh::Arr(&[Sh::Leaf(Kind::L, 1), Sh::Leaf(Kind::I, 2), Sh::Leaf(Kind::I, 3), Sh::Leaf(Kind::V, 4), Sh::Int(2)])), (Ky::Made(5), Sh::Leaf(Kind::F, 6))]) },
    Shape { text: r####"json::array![[[[(e.c(0))], e.v(1)], null, {value: json::object!("quo\"te" => e.i(2), e.k(3) => e.t(4), "b" => "a string literal that does not fit inline"), [e.k(5)]: {[e.k(6)]: e.i(7), key: e.t(8)}, null: [e.i(9)], "x1": [e.v(10), e.l(11), e.b(12), null, (e.b(13))], "\u{e9}": [null, e.c(14), e.l(15), e.s(16), e.i(17), ], }], [], json::object!["\u{e9}" => (e.c(18)), "a" => json::array![json::array![e.l(19), false, ], [e.f(20), e.v(21), e.v(22), e.i(23)], e.v(24)], "with space" => json::array![], "a" => json::object!{"quo\"te" => e.i(25), "" => e.m(26)}]]"####, build: s76, is: Sh::Arr(&[Sh::Arr(&[Sh::Arr(&[Sh::Arr(&[Sh::Leaf(Kind::C, 0)]), Sh::Leaf(Kind::V, 1)]), Sh::Null, Sh::Obj(&[(Ky::Is("value"), Sh::Obj(&[(Ky::Is("quo\"te"), Sh::Leaf(Kind::I, 2)), (Ky::Made(3), Sh::Leaf(Kind::S, 4)), (Ky::Is("b"), Sh::Str("a string literal that does not fit inline"))])), (Ky::Made(5), Sh::Obj(&[(Ky::Made(6), Sh::Leaf(Kind::I, 7)), (Ky::Is("key"), Sh::Leaf(Kind::S, 8))])), (Ky::Is("null"), Sh::Arr(&[Sh::Leaf(Kind::I, 9)])), (Ky::Is("x1"), Sh::Arr(&[Sh::Leaf(Kind::V, 10), Sh::Leaf(Kind::L, 11), Sh::Leaf(Kind::B, 12), Sh::Null, Sh::Leaf(Kind::B, 13)])), (Ky::Is("\u{e9}"), Sh::Arr(&[Sh::Null, Sh::Leaf(Kind::C, 14), Sh::Leaf(Kind::L, 15), Sh::Leaf(Kind::S, 16), Sh::Leaf(Kind::I, 17)]))])]), Sh::Arr(&[]), Sh::Obj(&[(Ky::Is("\u{e9}"), Sh::Leaf(Kind::C, 18)), (Ky::Is("a"), Sh::Arr(&[Sh::Arr(&[Sh::Leaf(Kind::L, 19), Sh::Bool(false)]), Sh::Arr(&[Sh::Leaf(Kind::F, 20), Sh::Leaf(Kind::V, 21), Sh::Leaf(Kind::V, 22), Sh::Leaf(Kind::I, 23)]), Sh::Leaf(Kind::V, 24)])), (Ky::Is("with space"), Sh::Arr(&[])), (Ky::Is("a"), Sh::Obj(&[(Ky::Is("quo\"te"), Sh::Leaf(Kind::I, 25)), (Ky::Is(""), Sh::Leaf(Kind::M, 26))]))])]) },
    Shape { text: r####"json::array!([e.m(0), [(e.b(1))], e.s(2), json::object!{e.k(3) => e.f(4), e.k(5) => e.c(6), e.k(7) => e.b(8)}, [e.v(9), e.o(10), ]], e.t(11), [[e.s(12), e.s(13)], json::object!(null: e.l(14), "key": json::JsonValue::new_array(), "key": e.t(15), ), ], [[e.s(16), e.c(17)], e.b(18)], {[e.k(19)]: (e.o(20))}, json::array![], )"####, build: s77, is: Sh::Arr(&[Sh::Arr(&[Sh::Leaf(Kind::M, 0), Sh::Arr(&[Sh::Leaf(Kind::B, 1)]), Sh::Leaf(Kind::S, 2), Sh::Obj(&[(Ky::Made(3), Sh::Leaf(Kind::F, 4)), (Ky::Made(5), Sh::Leaf(Kind::C, 6)), (Ky::Made(7), Sh::Leaf(Kind::B, 8))]), Sh::Arr(&[Sh::Leaf(Kind::V, 9), Sh::Leaf(Kind::O, 10)])]), Sh::Leaf(Kind::S, 11), Sh::Arr(&[Sh::Arr(&[Sh::Leaf(Kind::S, 12), Sh::Leaf(Kind::S, 13)]), Sh::Obj(&[(Ky::Is("null"), Sh::Leaf(Kind::L, 14)), (Ky::Is("key"), Sh::Arr(&[])), (Ky::Is("key"), Sh::Leaf(Kind::S, 15))])]), Sh::Arr(&[Sh::Arr(&[Sh::Leaf(Kind::S, 16), Sh::Leaf(Kind::C, 17)]), Sh::Leaf(Kind::B, 18)]), Sh::Obj(&[(Ky::Made(19), Sh::Leaf(Kind::O, 20))]), Sh::Arr(&[])]) },
    Shape { text: r####"json::object!(e.k(0) => e.o(1), "x1" => json::object!["quo\"te" => e.v(2), "x1" => json::Null], )"####, build: s78, is: Sh::Obj(&[(Ky::Made(0), Sh::Leaf(Kind::O, 1)), (Ky::Is("x1"), Sh::Obj(&[(Ky::Is("quo\"te"), Sh::Leaf(Kind::V, 2)), (Ky::Is("x1"), Sh::Null)]))]) },
    Shape { text: r####"json::object!["\u{e9}": [{}, e.l(0), [e.l(1), e.t(2), e.i(3), "a string literal that does not fit inline", e.v(4)], null, {"\u{e9}": e.v(5), "a-key-that-is-longer-than-the-inline-buffer-of-keys": e.v(6)}]]"####, build: s79, is: Sh::Obj(&[(Ky::Is("\u{e9}"), Sh::Arr(&[Sh::Obj(&[]), Sh::Leaf(Kind::L, 0), Sh::Arr(&[Sh::Leaf(Kind::L, 1), Sh::Leaf(Kind::S, 2), Sh::Leaf(Kind::I, 3), Sh::Str("a string literal that does not fit inline"), Sh::Leaf(Kind::V, 4)]), Sh::Null, Sh::Obj(&[(Ky::Is("\u{e9}"), Sh::Leaf(Kind::V, 5)), (Ky::Is("a-key-that-is-longer-than-the-inline-buffer-of-keys"), Sh::Leaf(Kind::V, 6))])]))]) },
    Shape { text: r####"json::array![json::object![x1: e.c(0), ], null, json::array![], e.s(1), json::object!(e.k(2) => (e.v(3)), "a" => json::object!{value: json::object!{"\u{e9}" => e.i(4), "a-key-that-is-longer-than-the-inline-buffer-of-keys" => e.v(5), e.k(6) => (e.t(7))}, "with space": {key: null, "": e.t(8), [e.k(9)]: e.i(10), self_: e.l(11)}, }, "x1" => e.f(12), "a-key-that-is-longer-than-the-inline-buffer-of-keys" => json::object!{[e.k(13)]: e.c(14)}, "b" => json::object!{}, ), ]"####, build: s80, is: Sh::Arr(&[Sh::Obj(&[(Ky::Is("x1"), Sh::Leaf(Kind::C, 0))]), Sh::Null, Sh::Arr(&[]), Sh::Leaf(Kind::S, 1), Sh::Obj(&[(Ky::Made(2), Sh::Leaf(Kind::V, 3)), (Ky::Is("a"), Sh::Obj(&[(Ky::Is("value"), Sh::Obj(&[(Ky::Is("\u{e9}"), Sh::Leaf(Kind::I, 4)), (Ky::Is("a-key-that-is-longer-than-the-inline-buffer-of-keys"), Sh::Leaf(Kind::V, 5)), (Ky::Made(6), Sh::Leaf(Kind::S, 7))])), (Ky::Is("with space"), Sh::Obj(&[(Ky::Is("key"), Sh::Null), (Ky::Is(""), Sh::Leaf(Kind::S, 8)), (Ky::Made(9), Sh::Leaf(Kind::I, 10)), (Ky::Is("self_"), Sh::Leaf(Kind::L, 11))]))])), (Ky::Is("x1"), Sh::Leaf(Kind::F, 12)), (Ky::Is("a-key-that-is-longer-than-the-inline-buffer-of-keys"), Sh::Obj(&[(Ky::Made(13), Sh::Leaf(Kind::C, 14))])), (Ky::Is("b"), Sh::Obj(&[]))])]) },
    Shape { text: r####"json::object!["with space" => e.s(0), "a-key-that-is-longer-than-the-inline-buffer-of-keys" => json::array![e.o(1), {_u: {"b": e.i(2), "a": [e.m(3), e.s(4), null], "b": {"a": e.v(5), "\u{e9}": e.m(6), [e.k(7)]: e.i(8) + 1, array: (e.i(9) + 1), "with space": e.m(10), }, }, [e.k(11)]: e.v(12), }, e.v(13), [e.c(14), json::array!((e.s(15)), [e.o(16), (5), e.i(17) + 1], [e.i(18) + 1], {"\u{e9}": e.l(19), null: e.b(20)}, e.l(21)), (e.f(22)), ]], "key" => e.i(23) + 1, e.k(24) => e.m(25), "a" => e.i(26) + 1, e.k(27) => e.i(28), ]"####, build: s81, is: Sh::Obj(&[(Ky::Is("with space"), Sh::Leaf(Kind::S, 0)), (Ky::Is("a-key-that-is-longer-than-the-inline-buffer-of-keys"), Sh::Arr(&[Sh::Leaf(Kind::O, 1), Sh::Obj(&[(Ky::Is("_u"), Sh::Obj(&[(Ky::Is("b"), Sh::Leaf(Kind::I, 2)), (Ky::Is("a"), Sh::Arr(&[Sh::Leaf(Kind::M, 3), Sh::Leaf(Kind::S, 4), Sh::Null])), (Ky::Is("b"), Sh::Obj(&[(Ky::Is("a"), Sh::Leaf(Kind::V, 5)), (Ky::Is("\u{e9}"), Sh::Leaf(Kind::M, 6)), (Ky::Made(7), Sh::Leaf(Kind::Inc, 8)), (Ky::Is("array"), Sh::Leaf(Kind::Inc, 9)), (Ky::Is("with space"), Sh::Leaf(Kind::M, 10))]))])), (Ky::Made(11), Sh::Leaf(Kind::V, 12))]), Sh::Leaf(Kind::V, 13), Sh::Arr(&[Sh::Leaf(Kind::C, 14), Sh::Arr(&[Sh::Leaf(Kind::S, 15), Sh::Arr(&[Sh::Leaf(Kind::O, 16), Sh::Int(5), Sh::Leaf(Kind::Inc, 17)]), Sh::Arr(&[Sh::Leaf(Kind::Inc, 18)]), Sh::Obj(&[(Ky::Is("\u{e9}"), Sh::Leaf(Kind::L, 19)), (Ky::Is("null"), Sh::Leaf(Kind::B, 20))]), Sh::Leaf(Kind::L, 21)]), Sh::Leaf(Kind::F, 22)])])), (Ky::Is("key"), Sh::Leaf(Kind::Inc, 23)), (Ky::Made(24), Sh::Leaf(Kind::M, 25)), (Ky::Is("a"), Sh::Leaf(Kind::Inc, 26)), (Ky::Made(27), Sh::Leaf(Kind::I, 28))]) },
    Shape { text: r####"json::object!["a" => e.o(0), "with space" => e.c(1), ]"####, build: s82, is: Sh::Obj(&[(Ky::Is("a"), Sh::Leaf(Kind::O, 0)), (Ky::Is("with space"), Sh::Leaf(Kind::C, 1))]) },
    Shape { text: r####"json::object!{"a": {"quo\"te": null, [e.k(0)]: {"b": {object: e.b(1)}, type_: {}, [e.k(2)]: [[(e.v(3)), e.v(4), e.c(5), ], [null, e.i(6), e.l(7), (e.i(8)), ], e.s(9), ], }, "x1": [], [e.k(10)]: 0, b: 1 + 1, }, type_: json::object!("a": {value: {[e.k(11)]: {object: e.o(12), [e.k(13)]: e.i(14) + 1, null: e.m(15)}, "key": e.c(16), object: (e.i(17))}}, [e.k(18)]: [e.v(19), [e.v(20), {"": e.c(21), "b": e.b(22)}, [e.v(23), e.f(24)], e.c(25)], [{[e.k(26)]: null}, e.b(27), (5)]], type_: e.v(28), "": e.c(29))}"####, build: s83, is: Sh::Obj(&[(Ky::Is("a"), Sh::Obj(&[(Ky::Is("quo\"te"), Sh::Null), (Ky::Made(0), Sh::Obj(&[(Ky::Is("b"), Sh::Obj(&[(Ky::Is("object"), Sh::Leaf(Kind::B, 1))])), (Ky::Is("type_"), Sh::Obj(&[])), (Ky::Made(2), Sh::Arr(&[Sh::Arr(&[Sh::Leaf(Kind::V, 3), Sh::Leaf(Kind::V, 4), Sh::Leaf(Kind::C, 5)]), Sh::Arr(&[Sh::Null, Sh::Leaf(Kind::I, 6), Sh::Leaf(Kind::L, 7), Sh::Leaf(Kind::I, 8)]), Sh::Leaf(Kind::S, 9)]))])), (Ky::Is("x1"), Sh::Arr(&[])), (Ky::Made(10), Sh::Int(0)), (Ky::Is("b"), Sh::Int(2))])), (Ky::Is("type_"), Sh::Obj(&[(Ky::Is("a"), Sh::Obj(&[(Ky::Is("value"), Sh::Obj(&[(Ky::Made(11), Sh::Obj(&[(Ky::Is("object"), Sh::Leaf(Kind::O, 12)), (Ky::Made(13), Sh::Leaf(Kind::Inc, 14)), (Ky::Is("null"), Sh::Leaf(Kind::M, 15))])), (Ky::Is("key"), Sh::Leaf(Kind::C, 16)), (Ky::Is("object"), Sh::Leaf(Kind::I, 17))]))])), (Ky::Made(18), Sh::Arr(&[Sh::Leaf(Kind::V, 19), Sh::Arr(&[Sh::Leaf(Kind::V, 20), Sh::Obj(&[(Ky::Is(""), Sh::Leaf(Kind::C, 21)), (Ky::Is("b"), Sh::Leaf(Kind::B, 22))]), Sh::Arr(&[Sh::Leaf(Kind::V, 23), Sh::Leaf(Kind::F, 24)]), Sh::Leaf(Kind::C, 25)]), Sh::Arr(&[Sh::Obj(&[(Ky::Made(26), Sh::Null)]), Sh::Leaf(Kind::B, 27), Sh::Int(5)])])), (Ky::Is("type_"), Sh::Leaf(Kind::V, 28)), (Ky::Is(""), Sh::Leaf(Kind::C, 29))]))]) },
    Shape { text: r####"json::object!{"x1": e.b(0), "x1": {}, "key": json::object![self_: null], [e.k(1)]: [e.f(2), [], ], a: (e.c(3)), }"####, build: s84, is: Sh::Obj(&[(Ky::Is("x1"), Sh::Leaf(Kind::B, 0)), (Ky::Is("x1"), Sh::Obj(&[])), (Ky::Is("key"), Sh::Obj(&[(Ky::Is("self_"), Sh::Null)])), (Ky::Made(1), Sh::Arr(&[Sh::Leaf(Kind::F, 2), Sh::Arr(&[])])), (Ky::Is("a"), Sh::Leaf(Kind::C, 3))]) },
    Shape { text: r####"json::array!{{[e.k(0)]: [e.i(1) + 1, e.i(2), e.f(3)]}, e.v(4), e.v(5), {[e.k(6)]: {"\u{e9}": e.f(7), [e.k(8)]: e.i(9)}, [e.k(10)]: e.s(11), key: e.i(12) + 1}, [null, [(e.o(13)), e.i(14), e.l(15), ]], e.s(16), [{[e.k(17)]: (5), key: e.s(18), "with space": e.c(19), x1: e.s(20)}, ]}"####, build: s85, is: Sh::Arr(&[Sh::Obj(&[(Ky::Made(0), Sh::Arr(&[Sh::Leaf(Kind::Inc, 1), Sh::Leaf(Kind::I, 2), Sh::Leaf(Kind::F, 3)]))]), Sh::Leaf(Kind::V, 4), Sh::Leaf(Kind::V, 5), Sh::Obj(&[(Ky::Made(6), Sh::Obj(&[(Ky::Is("\u{e9}"), Sh::Leaf(Kind::F, 7)), (Ky::Made(8), Sh::Leaf(Kind::I, 9))])), (Ky::Made(10), Sh::Leaf(Kind::S, 11)), (Ky::Is("key"), Sh::Leaf(Kind::Inc, 12))]), Sh::Arr(&[Sh::Null, Sh::Arr(&[Sh::Leaf(Kind::O, 13), Sh::Leaf(Kind::I, 14), Sh::Leaf(Kind::L, 15)])]), Sh::Leaf(Kind::S, 16), Sh::Arr(&[Sh::Obj(&[(Ky::Made(17), Sh::Int(5)), (Ky::Is("key"), Sh::Leaf(Kind::S, 18)), (Ky::Is("with space"), Sh::Leaf(Kind::C, 19)), (Ky::Is("x1"), Sh::Leaf(Kind::S, 20))])])]) },
    Shape { text: r####"json::array!{e.i(0), e.s(1)}"####, build: s86, is: Sh::Arr(&[Sh::Leaf(Kind::I, 0), Sh::Leaf(Kind::S, 1)]) },
    Shape { text: r####"json::object!("": json::object!{"a": {}, "b": json::array!{}, "a": {"": e.o(0), a: e.c(1), value: e.l(2), [e.k(3)]: (5), [e.k(4)]: e.s(5), }, object: {foo: e.i(6), self_: 0, }, x1: e.m(7)}, [e.k(8)]: e.s(9), [e.k(10)]: [{a: e.c(11), "quo\"te": e.s(12)}, e.m(13)], [e.k(14)]: {"": json::object![], array: json::Null, "key": [e.s(15), (e.s(16))], }, array: e.o(17), b: {"a": e.i(18)})"####, build: s87, is: Sh::Obj(&[(Ky::Is(""), Sh::Obj(&[(Ky::Is("a"), Sh::Obj(&[])), (Ky::Is("b"), Sh::Arr(&[])), (Ky::Is("a"), Sh::Obj(&[(Ky::Is(""), Sh::Leaf(Kind::O, 0)), (Ky::Is("a"), Sh::Leaf(Kind::C, 1)), (Ky::Is("value"), Sh::Leaf(Kind::L, 2)), (Ky::Made(3), Sh::Int(5)), (Ky::Made(4), Sh::Leaf(Kind::S, 5))])), (Ky::Is("object"), Sh::Obj(&[(Ky::Is("foo"), Sh::Leaf(Kind::I, 6)), (Ky::Is("self_"), Sh::Int(0))])), (Ky::Is("x1"), Sh::Leaf(Kind::M, 7))])), (Ky::Made(8), Sh::Leaf(Kind::S, 9)), (Ky::Made(10), Sh::Arr(&[Sh::Obj(&[(Ky::Is("a"), Sh::Leaf(Kind::C, 11)), (Ky::Is("quo\"te"), Sh::Leaf(Kind::S, 12))]), Sh::Leaf(Kind::M, 13)])), (Ky::Made(14), Sh::Obj(&[(Ky::Is(""), Sh::Obj(&[])), (Ky::Is("array"), Sh::Null), (Ky::Is("key"), Sh::Arr(&[Sh::Leaf(Kind::S, 15), Sh::Leaf(Kind::S, 16)]))])), (Ky::Is("array"), Sh::Leaf(Kind::O, 17)), (Ky::Is("b"), Sh::Obj(&[(Ky::Is("a"), Sh::Leaf(Kind::I, 18))]))]) },
    Shape { text: r####"json::array![e.o(0), e.c(1), {self_: null, "with space": e.v(2), }, e.c(3), e.m(4)]"####, build: s88, is: Sh::Arr(&[Sh::Leaf(Kind::O, 0), Sh::Leaf(Kind::C, 1), Sh::Obj(&[(Ky::Is("self_"), Sh::Null), (Ky::Is("with space"), Sh::Leaf(Kind::V, 2))]), Sh::Leaf(Kind::C, 3), Sh::Leaf(Kind::M, 4)]) },
    Shape { text: r####"json::array!(e.f(0), null, e.c(1), [json::object!("key" => e.b(2))], {"key": {"b": null, [e.k(3)]: json::object!{x1: e.i(4), b: e.f(5)}}}, )"####, build: s89, is: Sh::Arr(&[Sh::Leaf(Kind::F, 0), Sh::Null, Sh::Leaf(Kind::C, 1), Sh::Arr(&[Sh::Obj(&[(Ky::Is("key"), Sh::Leaf(Kind::B, 2))])]), Sh::Obj(&[(Ky::Is("key"), Sh::Obj(&[(Ky::Is("b"), Sh::Null), (Ky::Made(3), Sh::Obj(&[(Ky::Is("x1"), Sh::Leaf(Kind::I, 4)), (Ky::Is("b"), Sh::Leaf(Kind::F, 5))]))]))])]) },
    Shape { text: r####"json::object!["quo\"te" => json::object!{value: [e.i(0), e.c(1), e.v(2), e.v(3), (e.v(4))], x1: e.f(5), "a-key-that-is-longer-than-the-inline-buffer-of-keys": 1 + 1, }, "\u{e9}" => e.i(6) + 1]"####, build: s90, is: Sh::Obj(&[(Ky::Is("quo\"te"), Sh::Obj(&[(Ky::Is("value"), Sh::Arr(&[Sh::Leaf(Kind::I, 0), Sh::Leaf(Kind::C, 1), Sh::Leaf(Kind::V, 2), Sh::Leaf(Kind::V, 3), Sh::Leaf(Kind::V, 4)])), (Ky::Is("x1"), Sh::Leaf(Kind::F, 5)), (Ky::Is("a-key-that-is-longer-than-the-inline-buffer-of-keys"), Sh::Int(2))])), (Ky::Is("\u{e9}"), Sh::Leaf(Kind::Inc, 6))]) },
    Shape { text: r####"json::object!["x1": [[e.v(0)], {[e.k(1)]: e.m(2)}, ], [e.k(3)]: e.i(4), [e.k(5)]: e.m(6), self_: [(e.o(7)), [e.t(8), [e.s(9), e.t(10)], [e.f(11)], e.m(12), {[e.k(13)]: e.l(14)}], e.i(15), ], [e.k(16)]: {object: json::object!([e.k(17)]: (5), "quo\"te": [e.c(18)], "with space": []), foo: [{_u: e.i(19), value: e.i(20), }], }]"####, build: s91, is: Sh::Obj(&[(Ky::Is("x1"), Sh::Arr(&[Sh::Arr(&[Sh::Leaf(Kind::V, 0)]), Sh::Obj(&[(Ky::Made(1), Sh::Leaf(Kind::M, 2))])])), (Ky::Made(3), Sh::Leaf(Kind::I, 4)), (Ky::Made(5), Sh::Leaf(Kind::M, 6)), (Ky::Is("self_"), Sh::Arr(&[Sh::Leaf(Kind::O, 7), Sh::Arr(&[Sh::Leaf(Kind::S, 8), Sh::Arr(&[Sh::Leaf(Kind::S, 9), Sh::Leaf(Kind::S, 10)]), Sh::Arr(&[Sh::Leaf(Kind::F, 11)]), Sh::Leaf(Kind::M, 12), Sh::Obj(&[(Ky::Made(13), Sh::Leaf(Kind::L, 14))])]), Sh::Leaf(Kind::I, 15)])), (Ky::Made(16), Sh::Obj(&[(Ky::Is("object"), Sh::Obj(&[(Ky::Made(17), Sh::Int(5)), (Ky::Is("quo\"te"), Sh::Arr(&[Sh::Leaf(Kind::C, 18)])), (Ky::Is("with space"), Sh::Arr(&[]))])), (Ky::Is("foo"), Sh::Arr(&[Sh::Obj(&[(Ky::Is("_u"), Sh::Leaf(Kind::I, 19)), (Ky::Is("value"), Sh::Leaf(Kind::I, 20))])]))]))]) },
    Shape { text: r####"json::array![json::object![], json::object!(a: e.i(0)), e.i(1) + 1, [e.l(2), e.i(3) + 1, ]]"####, build: s92, is: Sh::Arr(&[Sh::Obj(&[]), Sh::Obj(&[(Ky::Is("a"), Sh::Leaf(Kind::I, 0))]), Sh::Leaf(Kind::Inc, 1), Sh::Arr(&[Sh::Leaf(Kind::L, 2), Sh::Leaf(Kind::Inc, 3)])]) },
    Shape { text: r####"json::array!([{a: e.b(0), }, {a: e.c(1), object: e.v(2), }, e.c(3), [e.i(4) + 1, e.m(5), -7, -7, e.b(6)], (e.i(7)), ], [{"with space": e.m(8), b: e.m(9), "a-key-that-is-longer-than-the-inline-buffer-of-keys": e.s(10)}], {_u: [e.v(11), e.o(12), e.o(13), e.o(14), ], "a-key-that-is-longer-than-the-inline-buffer-of-keys": (5)})"####, build: s93, is: Sh::Arr(&[Sh::Arr(&[Sh::Obj(&[(Ky::Is("a"), Sh::Leaf(Kind::B, 0))]), Sh::Obj(&[(Ky::Is("a"), Sh::Leaf(Kind::C, 1)), (Ky::Is("object"), Sh::Leaf(Kind::V, 2))]), Sh::Leaf(Kind::C, 3), Sh::Arr(&[Sh::Leaf(Kind::Inc, 4), Sh::Leaf(Kind::M, 5), Sh::Int(-7), Sh::Int(-7), Sh::Leaf(Kind::B, 6)]), Sh::Leaf(Kind::I, 7)]), Sh::Arr(&[Sh::Obj(&[(Ky::Is("with space"), Sh::Leaf(Kind::M, 8)), (Ky::Is("b"), Sh::Leaf(Kind::M, 9)), (Ky::Is("a-key-that-is-longer-than-the-inline-buffer-of-keys"), Sh::Leaf(Kind::S, 10))])]), Sh::Obj(&[(Ky::Is("_u"), Sh::Arr(&[Sh::Leaf(Kind::V, 11), Sh::Leaf(Kind::O, 12), Sh::Leaf(Kind::O, 13), Sh::Leaf(Kind::O, 14)])), (Ky::Is("a-key-that-is-longer-than-the-inline-buffer-of-keys"), Sh::Int(5))])]) },
    Shape { text: r####"json::array!{(e.i(0)), e.i(1) + 1, e.b(2), e.f(3), e.c(4)}"####, build: s94, is: Sh::Arr(&[Sh::Leaf(Kind::I, 0), Sh::Leaf(Kind::Inc, 1), Sh::Leaf(Kind::B, 2), Sh::Leaf(Kind::F, 3), Sh::Leaf(Kind::C, 4)]) },
    Shape { text: r####"json::object!(e.k(0) => e.t(1), e.k(2) => json::object![e.k(3) => json::object!("quo\"te" => json::array!(null, e.o(4), e.c(5)), e.k(6) => e.l(7), "a" => json::array!(e.c(8))), e.k(9) => e.c(10)], e.k(11) => json::array!{e.i(12) + 1, json::object!("a" => e.s(13)), [{"b": e.c(14), }, e.i(15), ], e.c(16)}, "\u{e9}" => json::array!(json::object!("a-key-that-is-longer-than-the-inline-buffer-of-keys" => json::object!{"" => (e.l(17)), e.k(18) => e.i(19) + 1}, "" => json::array![e.t(20), e.l(21), e.m(22), e.s(23), (e.c(24))]), [[e.s(25), e.m(26), e.b(27)], e.b(28), json::object!{x1: null, "a": e.i(29), type_: e.c(30), "b": e.f(31), type_: null}, ], (e.i(32)), [e.i(33), {x1: e.i(34)}], ))"####, build: s95, is: Sh::Obj(&[(Ky::Made(0), Sh::Leaf(Kind::S, 1)), (Ky::Made(2), Sh::Obj(&[(Ky::Made(3), Sh::Obj(&[(Ky::Is("quo\"te"), Sh::Arr(&[Sh::Null, Sh::Leaf(Kind::O, 4), Sh::Leaf(Kind::C, 5)])), (Ky::Made(6), Sh::Leaf(Kind::L, 7)), (Ky::Is("a"), Sh::Arr(&[Sh::Leaf(Kind::C, 8)]))])), (Ky::Made(9), Sh::Leaf(Kind::C, 10))])), (Ky::Made(11), Sh::Arr(&[Sh::Leaf(Kind::Inc, 12), Sh::Obj(&[(Ky::Is("a"), Sh::Leaf(Kind::S, 13))]), Sh::Arr(&[Sh::Obj(&[(Ky::Is("b"), Sh::Leaf(Kind::C, 14))]), Sh::Leaf(Kind::I, 15)]), Sh::Leaf(Kind::C, 16)])), (Ky::Is("\u{e9}"), Sh::Arr(&[Sh::Obj(&[(Ky::Is("a-key-that-is-longer-than-the-inline-buffer-of-keys"), Sh::Obj(&[(Ky::Is(""), Sh::Leaf(Kind::L, 17)), (Ky::Made(18), Sh::Leaf(Kind::Inc, 19))])), (Ky::Is(""), Sh::Arr(&[Sh::Leaf(Kind::S, 20), Sh::Leaf(Kind::L, 21), Sh::Leaf(Kind::M, 22), Sh::Leaf(Kind::S, 23), Sh::Leaf(Kind::C, 24)]))]), Sh::Arr(&[Sh::Arr(&[Sh::Leaf(Kind::S, 25), Sh::Leaf(Kind::M, 26), Sh::Leaf(Kind::B, 27)]), Sh::Leaf(Kind::B, 28), Sh::Obj(&[(Ky::Is("x1"), Sh::Null), (Ky::Is("a"), Sh::Leaf(Kind::I, 29)), (Ky::Is("type_"), Sh::Leaf(Kind::C, 30)), (Ky::Is("b"), Sh::Leaf(Kind::F, 31)), (Ky::Is("type_"), Sh::Null)])]), Sh::Leaf(Kind::I, 32), Sh::Arr(&[Sh::Leaf(Kind::I, 33), Sh::Obj(&[(Ky::Is("x1"), Sh::Leaf(Kind::I, 34))])])]))]) },
    Shape { text: r####"json::array![e.c(0), e.i(1), e.l(2), [0, ], {object: [e.m(3), e.c(4), e.t(5), e.t(6), ], "\u{e9}": {"": e.v(7), [e.k(8)]: "text"}, key: {"key": e.f(9), [e.k(10)]: e.v(11), "a": e.i(12) + 1, foo: e.v(13)}, [e.k(14)]: e.m(15), null: e.i(16)}, e.v(17)]"####, build: s96, is: Sh::Arr(&[Sh::Leaf(Kind::C, 0), Sh::Leaf(Kind::I, 1), Sh::Leaf(Kind::L, 2), Sh::Arr(&[Sh::Int(0)]), Sh::Obj(&[(Ky::Is("object"), Sh::Arr(&[Sh::Leaf(Kind::M, 3), Sh::Leaf(Kind::C, 4), Sh::Leaf(Kind::S, 5), Sh::Leaf(Kind::S, 6)])), (Ky::Is("\u{e9}"), Sh::Obj(&[(Ky::Is(""), Sh::Leaf(Kind::V, 7)), (Ky::Made(8), Sh::Str("text"))])), (Ky::Is("key"), Sh::Obj(&[(Ky::Is("key"), Sh::Leaf(Kind::F, 9)), (Ky::Made(10), Sh::Leaf(Kind::V, 11)), (Ky::Is("a"), Sh::Leaf(Kind::Inc, 12)), (Ky::Is("foo"), Sh::Leaf(Kind::V, 13))])), (Ky::Made(14), Sh::Leaf(Kind::M, 15)), (Ky::Is("null"), Sh::Leaf(Kind::I, 16))]), Sh::Leaf(Kind::V, 17)]) },
    Shape { text: r####"json::array!{e.v(0), {null: {[e.k(1)]: e.i(2), [e.k(3)]: {value: (e.i(4) + 1), key: e.i(5)}}, a: {"a": e.i(6)}}, e.m(7), }"####, build: s97, is: Sh::Arr(&[Sh::Leaf(Kind::V, 0), Sh::Obj(&[(Ky::Is("null"), Sh::Obj(&[(Ky::Made(1), Sh::Leaf(Kind::I, 2)), (Ky::Made(3), Sh::Obj(&[(Ky::Is("value"), Sh::Leaf(Kind::Inc, 4)), (Ky::Is("key"), Sh::Leaf(Kind::I, 5))]))])), (Ky::Is("a"), Sh::Obj(&[(Ky::Is("a"), Sh::Leaf(Kind::I, 6))]))]), Sh::Leaf(Kind::M, 7)]) },
    Shape { text: r####"json::array!(json::object!["a-key-that-is-longer-than-the-inline-buffer-of-keys": [[e.c(0), ], e.f(1), e.o(2), {x1: e.f(3), }], b: {[e.k(4)]: null, "with space": {object: (e.i(5))}, }, ], (e.v(6)), {b: [{object: e.s(7), key: null, a: e.i(8), array: null, key: e.o(9)}, json::object![a: e.v(10), [e.k(11)]: e.c(12)], [e.t(13), e.m(14), (e.c(15)), ]], foo: e.c(16)}, {self_: {null: [(e.b(17)), e.s(18), ], self_: e.v(19), [e.k(20)]: {}, }, "\u{e9}": {"with space": e.i(21)}}, )"####, build: s98, is: Sh::Arr(&[Sh::Obj(&[(Ky::Is("a-key-that-is-longer-than-the-inline-buffer-of-keys"), Sh::Arr(&[Sh::Arr(&[Sh::Leaf(Kind::C, 0)]), Sh::Leaf(Kind::F, 1), Sh::Leaf(Kind::O, 2), Sh::Obj(&[(Ky::Is("x1"), Sh::Leaf(Kind::F, 3))])])), (Ky::Is("b"), Sh::Obj(&[(Ky::Made(4), Sh::Null), (Ky::Is("with space"), Sh::Obj(&[(Ky::Is("object"), Sh::Leaf(Kind::I, 5))]))]))]), Sh::Leaf(Kind::V, 6), Sh::Obj(&[(Ky::Is("b"), Sh::Arr(&[Sh::Obj(&[(Ky::Is("object"), Sh::Leaf(Kind::S, 7)), (Ky::Is("key"), Sh::Null), (Ky::Is("a"), Sh::Leaf(Kind::I, 8)), (Ky::Is("array"), Sh::Null), (Ky::Is("key"), Sh::Leaf(Kind::O, 9))]), Sh::Obj(&[(Ky::Is("a"), Sh::Leaf(Kind::V, 10)), (Ky::Made(11), Sh::Leaf(Kind::C, 12))]), Sh::Arr(&[Sh::Leaf(Kind::S, 13), Sh::Leaf(Kind::M, 14), Sh::Leaf(Kind::C, 15)])])), (Ky::Is("foo"), Sh::Leaf(Kind::C, 16))]), Sh::Obj(&[(Ky::Is("self_"), Sh::Obj(&[(Ky::Is("null"), Sh::Arr(&[Sh::Leaf(Kind::B, 17), Sh::Leaf(Kind::S, 18)])), (Ky::Is("self_"), Sh::Leaf(Kind::V, 19)), (Ky::Made(20), Sh::Obj(&[]))])), (Ky::Is("\u{e9}"), Sh::Obj(&[(Ky::Is("with space"), Sh::Leaf(Kind::I, 21))]))])]) },
    Shape { text: r####"json::object!{e.k(0) => e.t(1), e.k(2) => json::object!{[e.k(3)]: null, [e.k(4)]: e.v(5), "a": e.o(6), type_: e.v(7), _u: "text", }, "quo\"te" => json::array!{(e.o(8)), e.t(9), }, "b" => json::array!{e.s(10), }, "quo\"te" => e.v(11), }"####, build: s99, is: Sh::Obj(&[(Ky::Made(0), Sh::Leaf(Kind::S, 1)), (Ky::Made(2), Sh::Obj(&[(Ky::Made(3), Sh::Null), (Ky::Made(4), Sh::Leaf(Kind::V, 5)), (Ky::Is("a"), Sh::Leaf(Kind::O, 6)), (Ky::Is("type_"), Sh::Leaf(Kind::V, 7)), (Ky::Is("_u"), Sh::Str("text"))])), (Ky::Is("quo\"te"), Sh::Arr(&[Sh::Leaf(Kind::O, 8), Sh::Leaf(Kind::S, 9)])), (Ky::Is("b"), Sh::Arr(&[Sh::Leaf(Kind::S, 10)])), (Ky::Is("quo\"te"), Sh::Leaf(Kind::V, 11))]) },
    Shape { text: r####"json::array!([e.o(0), e.f(1), {"key": e.c(2), [e.k(3)]: {[e.k(4)]: -7, _u: (e.i(5))}}, ], ["a string literal that does not fit inline", ], (e.i(6)), null, e.i(7) + 1, {"with space": {[e.k(8)]: json::array!{e.s(9), e.v(10), (e.f(11)), e.f(12), }}, self_: [[e.i(13) + 1, (e.f(14)), e.s(15), e.l(16), ], ], "key": e.i(17) + 1}, [], {value: e.m(18), type_: e.i(19), [e.k(20)]: null, value: e.v(21), self_: e.c(22), }, )"####, build: s100, is: Sh::Arr(&[Sh::Arr(&[Sh::Leaf(Kind::O, 0), Sh::Leaf(Kind::F, 1), Sh::Obj(&[(Ky::Is("key"), Sh::Leaf(Kind::C, 2)), (Ky::Made(3), Sh::Obj(&[(Ky::Made(4), Sh::Int(-7)), (Ky::Is("_u"), Sh::Leaf(Kind::I, 5))]))])]), Sh::Arr(&[Sh::Str("a string literal that does not fit inline")]), Sh::Leaf(Kind::I, 6), Sh::Null, Sh::Leaf(Kind::Inc, 7), Sh::Obj(&[(Ky::Is("with space"), Sh::Obj(&[(Ky::Made(8), Sh::Arr(&[Sh::Leaf(Kind::S, 9), Sh::Leaf(Kind::V, 10), Sh::Leaf(Kind::F, 11), Sh::Leaf(Kind::F, 12)]))])), (Ky::Is("self_"), Sh::Arr(&[Sh::Arr(&[Sh::Leaf(Kind::Inc, 13), Sh::Leaf(Kind::F, 14), Sh::Leaf(Kind::S, 15), Sh::Leaf(Kind::L, 16)])])), (Ky::Is("key"), Sh::Leaf(Kind::Inc, 17))]), Sh::Arr(&[]), Sh::Obj(&[(Ky::Is("value"), Sh::Leaf(Kind::M, 18)), (Ky::Is("type_"), Sh::Leaf(Kind::I, 19)), (Ky::Made(20), Sh::Null), (Ky::Is("value"), Sh::Leaf(Kind::V, 21)), (Ky::Is("self_"), Sh::Leaf(Kind::C, 22))])]) },
    Shape { text: r####"json::object![x1: [e.b(0), {}, {[e.k(1)]: e.c(2), foo: null, object: e.s(3), [e.k(4)]: (e.b(5)), null: (e.c(6)), }, ], _u: json::object!{"with space" => e.i(7)}, a: e.f(8), self_: [null]]"####, build: s101, is: Sh::Obj(&[(Ky::Is("x1"), Sh::Arr(&[Sh::Leaf(Kind::B, 0), Sh::Obj(&[]), Sh::Obj(&[(Ky::Made(1), Sh::Leaf(Kind::C, 2)), (Ky::Is("foo"), Sh::Null), (Ky::Is("object"), Sh::Leaf(Kind::S, 3)), (Ky::Made(4), Sh::Leaf(Kind::B, 5)), (Ky::Is("null"), Sh::Leaf(Kind::C, 6))])])), (Ky::Is("_u"), Sh::Obj(&[(Ky::Is("with space"), Sh::Leaf(Kind::I, 7))])), (Ky::Is("a"), Sh::Leaf(Kind::F, 8)), (Ky::Is("self_"), Sh::Arr(&[Sh::Null]))]) },
    Shape { text: r####"json::object!([e.k(0)]: [{object: json::object!{[e.k(1)]: e.i(2), [e.k(3)]: e.f(4), [e.k(5)]: null, a: e.b(6), x1: null}, type_: {[e.k(7)]: e.t(8), "a": e.v(9)}, [e.k(10)]: e.i(11)}, e.v(12), {[e.k(13)]: [e.c(14), e.i(15) + 1, e.f(16), e.v(17), ], [e.k(18)]: e.i(19), "a": null, [e.k(20)]: [false, e.s(21), e.i(22), ]}, ], array: e.f(23), "quo\"te": null, array: e.o(24), "quo\"te": [json::array!(), e.v(25), ])"####, build: s102, is: Sh::Obj(&[(Ky::Made(0), Sh::Arr(&[Sh::Obj(&[(Ky::Is("object"), Sh::Obj(&[(Ky::Made(1), Sh::Leaf(Kind::I, 2)), (Ky::Made(3), Sh::Leaf(Kind::F, 4)), (Ky::Made(5), Sh::Null), (Ky::Is("a"), Sh::Leaf(Kind::B, 6)), (Ky::Is("x1"), Sh::Null)])), (Ky::Is("type_"), Sh::Obj(&[(Ky::Made(7), Sh::Leaf(Kind::S, 8)), (Ky::Is("a"), Sh::Leaf(Kind::V, 9))])), (Ky::Made(10), Sh::Leaf(Kind::I, 11))]), Sh::Leaf(Kind::V, 12), Sh::Obj(&[(Ky::Made(13), Sh::Arr(&[Sh::Leaf(Kind::C, 14), Sh::Leaf(Kind::Inc, 15), Sh::Leaf(Kind::F, 16), Sh::Leaf(Kind::V, 17)])), (Ky::Made(18), Sh::Leaf(Kind::I, 19)), (Ky::Is("a"), Sh::Null), (Ky::Made(20), Sh::Arr(&[Sh::Bool(false), Sh::Leaf(Kind::S, 21), Sh::Leaf(Kind::I, 22)]))])])), (Ky::Is("array"), Sh::Leaf(Kind::F, 23)), (Ky::Is("quo\"te"), Sh::Null), (Ky::Is("array"), Sh::Leaf(Kind::O, 24)), (Ky::Is("quo\"te"), Sh::Arr(&[Sh::Arr(&[]), Sh::Leaf(Kind::V, 25)]))]) },
    Shape { text: r####"json::object!("x1" => json::array!(e.v(0), e.o(1), e.f(2)), "with space" => json::object!("a" => json::object!{"key" => e.v(3), "x1" => (e.v(4)), "\u{e9}" => e.m(5)}, "a-key-that-is-longer-than-the-inline-buffer-of-keys" => json::array!(e.f(6), e.i(7)), "a-key-that-is-longer-than-the-inline-buffer-of-keys" => e.b(8)), )"####, build: s103, is: Sh::Obj(&[(Ky::Is("x1"), Sh::Arr(&[Sh::Leaf(Kind::V, 0), Sh::Leaf(Kind::O, 1), Sh::Leaf(Kind::F, 2)])), (Ky::Is("with space"), Sh::Obj(&[(Ky::Is("a"), Sh::Obj(&[(Ky::Is("key"), Sh::Leaf(Kind::V, 3)), (Ky::Is("x1"), Sh::Leaf(Kind::V, 4)), (Ky::Is("\u{e9}"), Sh::Leaf(Kind::M, 5))])), (Ky::Is("a-key-that-is-longer-than-the-inline-buffer-of-keys"), Sh::Arr(&[Sh::Leaf(Kind::F, 6), Sh::Leaf(Kind::I, 7)])), (Ky::Is("a-key-that-is-longer-than-the-inline-buffer-of-keys"), Sh::Leaf(Kind::B, 8))]))]) },
    Shape { text: r####"json::array![[e.m(0), [e.i(1) + 1], {"quo\"te": e.i(2), null: e.v(3), "quo\"te": e.t(4), a: e.i(5) + 1, }, {[e.k(6)]: e.v(7), value: e.m(8)}], e.o(9)]"####, build: s104, is: Sh::Arr(&[Sh::Arr(&[Sh::Leaf(Kind::M, 0), Sh::Arr(&[Sh::Leaf(Kind::Inc, 1)]), Sh::Obj(&[(Ky::Is("quo\"te"), Sh::Leaf(Kind::I, 2)), (Ky::Is("null"), Sh::Leaf(Kind::V, 3)), (Ky::Is("quo\"te"), Sh::Leaf(Kind::S, 4)), (Ky::Is("a"), Sh::Leaf(Kind::Inc, 5))]), Sh::Obj(&[(Ky::Made(6), Sh::Leaf(Kind::V, 7)), (Ky::Is("value"), Sh::Leaf(Kind::M, 8))])]), Sh::Leaf(Kind::O, 9)]) },
    Shape { text: r####"json::array![[false, e.b(0), e.i(1), (e.i(2)), e.o(3)], {}, (e.v(4)), (e.i(5) + 1), (e.m(6)), e.b(7), ]"####, build: s105, is: Sh::Arr(&[Sh::Arr(&[Sh::Bool(false), Sh::Leaf(Kind::B, 0), Sh::Leaf(Kind::I, 1), Sh::Leaf(Kind::I, 2), Sh::Leaf(Kind::O, 3)]), Sh::Obj(&[]), Sh::Leaf(Kind::V, 4), Sh::Leaf(Kind::Inc, 5), Sh::Leaf(Kind::M, 6), Sh::Leaf(Kind::B, 7)]) },
    Shape { text: r####"json::object!["" => (e.c(0)), e.k(1) => json::array!(e.c(2), e.i(3), e.s(4)), ]"####, build: s106, is: Sh::Obj(&[(Ky::Is(""), Sh::Leaf(Kind::C, 0)), (Ky::Made(1), Sh::Arr(&[Sh::Leaf(Kind::C, 2), Sh::Leaf(Kind::I, 3), Sh::Leaf(Kind::S, 4)]))]) },
    Shape { text: r####"json::array!{[(e.c(0)), (e.s(1)), json::object!["with space": e.i(2), [e.k(3)]: e.v(4), "quo\"te": e.v(5)], e.c(6), [e.f(7), e.m(8)]], {"with space": e.c(9), [e.k(10)]: {"": e.t(11)}, }, e.o(12), e.i(13)}"####, build: s107, is: Sh::Arr(&[Sh::Arr(&[Sh::Leaf(Kind::C, 0), Sh::Leaf(Kind::S, 1), Sh::Obj(&[(Ky::Is("with space"), Sh::Leaf(Kind::I, 2)), (Ky::Made(3), Sh::Leaf(Kind::V, 4)), (Ky::Is("quo\"te"), Sh::Leaf(Kind::V, 5))]), Sh::Leaf(Kind::C, 6), Sh::Arr(&[Sh::Leaf(Kind::F, 7), Sh::Leaf(Kind::M, 8)])]), Sh::Obj(&[(Ky::Is("with space"), Sh::Leaf(Kind::C, 9)), (Ky::Made(10), Sh::Obj(&[(Ky::Is(""), Sh::Leaf(Kind::S, 11))]))]), Sh::Leaf(Kind::O, 12), Sh::Leaf(Kind::I, 13)]) },
    Shape { text: r####"json::array![e.l(0), {"": e.i(1)}, e.s(2)]"####, build: s108, is: Sh::Arr(&[Sh::Leaf(Kind::L, 0), Sh::Obj(&[(Ky::Is(""), Sh::Leaf(Kind::I, 1))]), Sh::Leaf(Kind::S, 2)]) },
    Shape { text: r####"json::object!["a-key-that-is-longer-than-the-inline-buffer-of-keys": e.i(0) + 1, ]"####, build: s109, is: Sh::Obj(&[(Ky::Is("a-key-that-is-longer-than-the-inline-buffer-of-keys"), Sh::Leaf(Kind::Inc, 0))]) },
    Shape { text: r####"json::array![json::object![e.k(0) => json::array!(e.l(1), e.f(2)), "quo\"te" => e.v(3)], e.b(4), e.m(5), e.i(6), e.s(7), ]"####, build: s110, is: Sh::Arr(&[Sh::Obj(&[(Ky::Made(0), Sh::Arr(&[Sh::Leaf(Kind::L, 1), Sh::Leaf(Kind::F, 2)])), (Ky::Is("quo\"te"), Sh::Leaf(Kind::V, 3))]), Sh::Leaf(Kind::B, 4), Sh::Leaf(Kind::M, 5), Sh::Leaf(Kind::I, 6), Sh::Leaf(Kind::S, 7)]) },
    Shape { text: r####"json::array![e.v(0), e.t(1), e.o(2), [{[e.k(3)]: [e.m(4), (e.l(5))], }], [json::array!{e.v(6), {}, (5), {}, []}, {"a": (e.m(7)), "x1": {x1: e.i(8) + 1, "key": e.c(9), value: e.b(10)}, [e.k(11)]: [(e.m(12)), e.m(13), null, e.c(14)]}, [[e.o(15), e.o(16), (e.i(17)), ], e.i(18), {}, ], ], {self_: e.m(19)}, e.l(20)]"####, build: s111, is: Sh::Arr(&[Sh::Leaf(Kind::V, 0), Sh::Leaf(Kind::S, 1), Sh::Leaf(Kind::O, 2), Sh::Arr(&[Sh::Obj(&[(Ky::Made(3), Sh::Arr(&[Sh::Leaf(Kind::M, 4), Sh::Leaf(Kind::L, 5)]))])]), Sh::Arr(&[Sh::Arr(&[Sh::Leaf(Kind::V, 6), Sh::Obj(&[]), Sh::Int(5), Sh::Obj(&[]), Sh::Arr(&[])]), Sh::Obj(&[(Ky::Is("a"), Sh::Leaf(Kind::M, 7)), (Ky::Is("x1"), Sh::Obj(&[(Ky::Is("x1"), Sh::Leaf(Kind::Inc, 8)), (Ky::Is("key"), Sh::Leaf(Kind::C, 9)), (Ky::Is("value"), Sh::Leaf(Kind::B, 10))])), (Ky::Made(11), Sh::Arr(&[Sh::Leaf(Kind::M, 12), Sh::Leaf(Kind::M, 13), Sh::Null, Sh::Leaf(Kind::C, 14)]))]), Sh::Arr(&[Sh::Arr(&[Sh::Leaf(Kind::O, 15), Sh::Leaf(Kind::O, 16), Sh::Leaf(Kind::I, 17)]), Sh::Leaf(Kind::I, 18), Sh::Obj(&[])])]), Sh::Obj(&[(Ky::Is("self_"), Sh::Leaf(Kind::M, 19))]), Sh::Leaf(Kind::L, 20)]) },
    Shape { text: r####"json::object!{"" => json::array![-7, e.v(0), e.i(1), e.o(2)], "a" => json::array!{e.m(3)}, }"####, build: s112, is: Sh::Obj(&[(Ky::Is(""), Sh::Arr(&[Sh::Int(-7), Sh::Leaf(Kind::V, 0), Sh::Leaf(Kind::I, 1), Sh::Leaf(Kind::O, 2)])), (Ky::Is("a"), Sh::Arr(&[Sh::Leaf(Kind::M, 3)]))]) },
    Shape { text: r####"json::object!["a": e.v(0), value: (e.i(1)), null: json::object!["a-key-that-is-longer-than-the-inline-buffer-of-keys" => json::array![], "a-key-that-is-longer-than-the-inline-buffer-of-keys" => e.f(2)], [e.k(3)]: [], self_: e.s(4)]"####, build: s113, is: Sh::Obj(&[(Ky::Is("a"), Sh::Leaf(Kind::V, 0)), (Ky::Is("value"), Sh::Leaf(Kind::I, 1)), (Ky::Is("null"), Sh::Obj(&[(Ky::Is("a-key-that-is-longer-than-the-inline-buffer-of-keys"), Sh::Arr(&[])), (Ky::Is("a-key-that-is-longer-than-the-inline-buffer-of-keys"), Sh::Leaf(Kind::F, 2))])), (Ky::Made(3), Sh::Arr(&[])), (Ky::Is("self_"), Sh::Leaf(Kind::S, 4))]) },
    Shape { text: r####"json::array![e.l(0), e.m(1), ]"####, build: s114, is: Sh::Arr(&[Sh::Leaf(Kind::L, 0), Sh::Leaf(Kind::M, 1)]) },
    Shape { text: r####"json::array!(e.c(0), e.l(1), )"####, build: s115, is: Sh::Arr(&[Sh::Leaf(Kind::C, 0), Sh::Leaf(Kind::L, 1)]) },
    Shape { text: r####"json::array!{json::object!["a": {value: e.f(0), _u: {_u: (e.i(1)), [e.k(2)]: e.s(3), null: e.s(4), }, "a-key-that-is-longer-than-the-inline-buffer-of-keys": e.i(5) + 1, "": json::array![e.v(6), e.v(7), e.i(8), e.v(9), (e.v(10))], x1: {b: e.b(11), b: e.v(12), "": null, }}, b: e.c(13), foo: (e.i(14)), key: e.c(15), self_: e.m(16)], e.s(17), json::array!{[e.v(18), {}, {[e.k(19)]: null}, [e.s(20)], {[e.k(21)]: e.c(22), }, ], (e.t(23))}, {[e.k(24)]: (e.c(25)), value: e.l(26)}, (e.i(27) + 1), json::object![[e.k(28)]: (e.s(29)), object: {[e.k(30)]: {[e.k(31)]: e.m(32), value: (e.l(33))}, [e.k(34)]: [e.i(35), e.i(36), e.t(37), (e.i(38) + 1)]}]}"####, build: s116, is: Sh::Arr(&[Sh::Obj(&[(Ky::Is("a"), Sh::Obj(&[(Ky::Is("value"), Sh::Leaf(Kind::F, 0)), (Ky::Is("_u"), Sh::Obj(&[(Ky::Is("_u"), Sh::Leaf(Kind::I, 1)), (Ky::Made(2), Sh::Leaf(Kind::S, 3)), (Ky::Is("null"), Sh::Leaf(Kind::S, 4))])), (Ky::Is("a-key-that-is-longer-than-the-inline-buffer-of-keys"), Sh::Leaf(Kind::Inc, 5)), (Ky::Is(""), Sh::Arr(&[Sh::Leaf(Kind::V, 6), Sh::Leaf(Kind::V, 7), Sh::Leaf(Kind::I, 8), Sh::Leaf(Kind::V, 9), Sh::Leaf(Kind::V, 10)])), (Ky::Is("x1"), Sh::Obj(&[(Ky::Is("b"), Sh::Leaf(Kind::B, 11)), (Ky::Is("b"), Sh::Leaf(Kind::V, 12)), (Ky::Is(""), Sh::Null)]))])), (Ky::Is("b"), Sh::Leaf(Kind::C, 13)), (Ky::Is("foo"), Sh::Leaf(Kind::I, 14)), (Ky::Is("key"), Sh::Leaf(Kind::C, 15)), (Ky::Is("self_"), Sh::Leaf(Kind::M, 16))]), Sh::Leaf(Kind::S, 17), Sh::Arr(&[Sh::Arr(&[Sh::Leaf(Kind::V, 18), Sh::Obj(&[]), Sh::Obj(&[(Ky::Made(19), Sh::Null)]), Sh::Arr(&[Sh::Leaf(Kind::S, 20)]), Sh::Obj(&[(Ky::Made(21), Sh::Leaf(Kind::C, 22))])]), Sh::Leaf(Kind::S, 23)]), Sh::Obj(&[(Ky::Made(24), Sh::Leaf(Kind::C, 25)), (Ky::Is("value"), Sh::Leaf(Kind::L, 26))]), Sh::Leaf(Kind::Inc, 27), Sh::Obj(&[(Ky::Made(28), Sh::Leaf(Kind::S, 29)), (Ky::Is("object"), Sh::Obj(&[(Ky::Made(30), Sh::Obj(&[(Ky::Made(31), Sh::Leaf(Kind::M, 32)), (Ky::Is("value"), Sh::Leaf(Kind::L, 33))])), (Ky::Made(34), Sh::Arr(&[Sh::Leaf(Kind::I, 35), Sh::Leaf(Kind::I, 36), Sh::Leaf(Kind::S, 37), Sh::Leaf(Kind::Inc, 38)]))]))])]) },
    Shape { text: r####"json::object!{array: [e.t(0), e.o(1)], x1: e.v(2), null: [null], x1: {"\u{e9}": json::array!([], e.o(3), {}, ), type_: [[e.m(4), e.v(5), e.s(6)], e.i(7)], }, foo: [e.v(8), [{value: (e.f(9)), foo: e.f(10), [e.k(11)]: (e.v(12)), value: e.o(13), array: e.i(14), }, [(e.v(15)), ]], [e.v(16), json::array![0, "text", e.c(17), e.c(18)], e.i(19)], e.m(20), ], value: (e.t(21)), }"####, build: s117, is: Sh::Obj(&[(Ky::Is("array"), Sh::Arr(&[Sh::Leaf(Kind::S, 0), Sh::Leaf(Kind::O, 1)])), (Ky::Is("x1"), Sh::Leaf(Kind::V, 2)), (Ky::Is("null"), Sh::Arr(&[Sh::Null])), (Ky::Is("x1"), Sh::Obj(&[(Ky::Is("\u{e9}"), Sh::Arr(&[Sh::Arr(&[]), Sh::Leaf(Kind::O, 3), Sh::Obj(&[])])), (Ky::Is("type_"), Sh::Arr(&[Sh::Arr(&[Sh::Leaf(Kind::M, 4), Sh::Leaf(Kind::V, 5), Sh::Leaf(Kind::S, 6)]), Sh::Leaf(Kind::I, 7)]))])), (Ky::Is("foo"), Sh::Arr(&[Sh::Leaf(Kind::V, 8), Sh::Arr(&[Sh::Obj(&[(Ky::Is("value"), Sh::Leaf(Kind::F, 9)), (Ky::Is("foo"), Sh::Leaf(Kind::F, 10)), (Ky::Made(11), Sh::Leaf(Kind::V, 12)), (Ky::Is("value"), Sh::Leaf(Kind::O, 13)), (Ky::Is("array"), Sh::Leaf(Kind::I, 14))]), Sh::Arr(&[Sh::Leaf(Kind::V, 15)])]), Sh::Arr(&[Sh::Leaf(Kind::V, 16), Sh::Arr(&[Sh::Int(0), Sh::Str("text"), Sh::Leaf(Kind::C, 17), Sh::Leaf(Kind::C, 18)]), Sh::Leaf(Kind::I, 19)]), Sh::Leaf(Kind::M, 20)])), (Ky::Is("value"), Sh::Leaf(Kind::S, 21))]) },
    Shape { text: r####"json::object!("x1" => e.i(0), "quo\"te" => e.b(1), "a" => e.i(2), e.k(3) => json::object!{[e.k(4)]: [e.m(5), e.t(6), (e.i(7) + 1)], type_: e.o(8), }, "with space" => e.f(9), e.k(10) => e.v(11), e.k(12) => e.i(13) + 1, )"####, build: s118, is: Sh::Obj(&[(Ky::Is("x1"), Sh::Leaf(Kind::I, 0)), (Ky::Is("quo\"te"), Sh::Leaf(Kind::B, 1)), (Ky::Is("a"), Sh::Leaf(Kind::I, 2)), (Ky::Made(3), Sh::Obj(&[(Ky::Made(4), Sh::Arr(&[Sh::Leaf(Kind::M, 5), Sh::Leaf(Kind::S, 6), Sh::Leaf(Kind::Inc, 7)])), (Ky::Is("type_"), Sh::Leaf(Kind::O, 8))])), (Ky::Is("with space"), Sh::Leaf(Kind::F, 9)), (Ky::Made(10), Sh::Leaf(Kind::V, 11)), (Ky::Made(12), Sh::Leaf(Kind::Inc, 13))]) },
    Shape { text: r####"json::object!{type_: e.c(0), "": e.t(1), object: json::object!{foo: {[e.k(2)]: [e.s(3), json::JsonValue::new_array(), e.c(4)], _u: [(e.t(5)), e.i(6) + 1, ], "": e.c(7), [e.k(8)]: {[e.k(9)]: (e.c(10)), [e.k(11)]: e.i(12) + 1, "key": (e.v(13)), }, _u: e.c(14), }, [e.k(15)]: [], value: e.i(16), }, x1: [(e.i(17) + 1), [[e.v(18), ], e.c(19), e.c(20), []], [null, (e.t(21)), {[e.k(22)]: e.c(23), null: e.v(24), "a-key-that-is-longer-than-the-inline-buffer-of-keys": e.i(25)}]], }"####, build: s119, is: Sh::Obj(&[(Ky::Is("type_"), Sh::Leaf(Kind::C, 0)), (Ky::Is(""), Sh::Leaf(Kind::S, 1)), (Ky::Is("object"), Sh::Obj(&[(Ky::Is("foo"), Sh::Obj(&[(Ky::Made(2), Sh::Arr(&[Sh::Leaf(Kind::S, 3), Sh::Arr(&[]), Sh::Leaf(Kind::C, 4)])), (Ky::Is("_u"), Sh::Arr(&[Sh::Leaf(Kind::S, 5), Sh::Leaf(Kind::Inc, 6)])), (Ky::Is(""), Sh::Leaf(Kind::C, 7)), (Ky::Made(8), Sh::Obj(&[(Ky::Made(9), Sh::Leaf(Kind::C, 10)), (Ky::Made(11), Sh::Leaf(Kind::Inc, 12)), (Ky::Is("key"), Sh::Leaf(Kind::V, 13))])), (Ky::Is("_u"), Sh::Leaf(Kind::C, 14))])), (Ky::Made(15), Sh::Arr(&[])), (Ky::Is("value"), Sh::Leaf(Kind::I, 16))])), (Ky::Is("x1"), Sh::Arr(&[Sh::Leaf(Kind::Inc, 17), Sh::Arr(&[Sh::Arr(&[Sh::Leaf(Kind::V, 18)]), Sh::Leaf(Kind::C, 19), Sh::Leaf(Kind::C, 20), Sh::Arr(&[])]), Sh::Arr(&[Sh::Null, Sh::Leaf(Kind::S, 21), Sh::Obj(&[(Ky::Made(22), Sh::Leaf(Kind::C, 23)), (Ky::Is("null"), Sh::Leaf(Kind::V, 24)), (Ky::Is("a-key-that-is-longer-than-the-inline-buffer-of-keys"), Sh::Leaf(Kind::I, 25))])])]))]) },
    Shape { text: r####"json::array!(e.s(0), "a string literal that does not fit inline", e.s(1), [[e.b(2), "text"], [e.c(3), null, (e.c(4)), ], {[e.k(5)]: null}, [e.i(6), ], {foo: e.m(7), array: e.v(8), }], json::object!(x1: e.l(9), "quo\"te": {_u: e.i(10), array: e.v(11), type_: e.l(12), [e.k(13)]: e.v(14), }), )"####, build: s120, is: Sh::Arr(&[Sh::Leaf(Kind::S, 0), Sh::Str("a string literal that does not fit inline"), Sh::Leaf(Kind::S, 1), Sh::Arr(&[Sh::Arr(&[Sh::Leaf(Kind::B, 2), Sh::Str("text")]), Sh::Arr(&[Sh::Leaf(Kind::C, 3), Sh::Null, Sh::Leaf(Kind::C, 4)]), Sh::Obj(&[(Ky::Made(5), Sh::Null)]), Sh::Arr(&[Sh::Leaf(Kind::I, 6)]), Sh::Obj(&[(Ky::Is("foo"), Sh::Leaf(Kind::M, 7)), (Ky::Is("array"), Sh::Leaf(Kind::V, 8))])]), Sh::Obj(&[(Ky::Is("x1"), Sh::Leaf(Kind::L, 9)), (Ky::Is("quo\"te"), Sh::Obj(&[(Ky::Is("_u"), Sh::Leaf(Kind::I, 10)), (Ky::Is("array"), Sh::Leaf(Kind::V, 11)), (Ky::Is("type_"), Sh::Leaf(Kind::L, 12)), (Ky::Made(13), Sh::Leaf(Kind::V, 14))]))])]) },
    Shape { text: r####"json::array!(e.f(0), [{}, json::object!{"b" => e.l(1), "with space" => e.f(2), "quo\"te" => 0}, e.c(3)], [[e.c(4)], e.c(5)], )"####, build: s121, is: Sh::Arr(&[Sh::Leaf(Kind::F, 0), Sh::Arr(&[Sh::Obj(&[]), Sh::Obj(&[(Ky::Is("b"), Sh::Leaf(Kind::L, 1)), (Ky::Is("with space"), Sh::Leaf(Kind::F, 2)), (Ky::Is("quo\"te"), Sh::Int(0))]), Sh::Leaf(Kind::C, 3)]), Sh::Arr(&[Sh::Arr(&[Sh::Leaf(Kind::C, 4)]), Sh::Leaf(Kind::C, 5)])]) },
    Shape { text: r####"json::array!{[[e.i(0), (e.f(1)), e.v(2), e.c(3), e.s(4), ], e.i(5) + 1, e.v(6), ], (e.s(7)), {"quo\"te": null, [e.k(8)]: {array: e.o(9), null: e.c(10), "\u{e9}": e.c(11), b: e.v(12), [e.k(13)]: e.o(14)}}}"####, build: s122, is: Sh::Arr(&[Sh::Arr(&[Sh::Arr(&[Sh::Leaf(Kind::I, 0), Sh::Leaf(Kind::F, 1), Sh::Leaf(Kind::V, 2), Sh::Leaf(Kind::C, 3), Sh::Leaf(Kind::S, 4)]), Sh::Leaf(Kind::Inc, 5), Sh::Leaf(Kind::V, 6)]), Sh::Leaf(Kind::S, 7), Sh::Obj(&[(Ky::Is("quo\"te"), Sh::Null), (Ky::Made(8), Sh::Obj(&[(Ky::Is("array"), Sh::Leaf(Kind::O, 9)), (Ky::Is("null"), Sh::Leaf(Kind::C, 10)), (Ky::Is("\u{e9}"), Sh::Leaf(Kind::C, 11)), (Ky::Is("b"), Sh::Leaf(Kind::V, 12)), (Ky::Made(13), Sh::Leaf(Kind::O, 14))]))])]) },
    Shape { text: r####"json::object!{"a": [e.c(0), e.v(1), e.o(2), e.i(3), ], array: (e.b(4)), a: json::object!("": e.v(5), [e.k(6)]: null, [e.k(7)]: e.i(8) + 1, ), object: null, [e.k(9)]: json::object!(object: e.v(10)), [e.k(11)]: e.i(12), array: e.t(13), [e.k(14)]: [e.f(15)]}"####, build: s123, is: Sh::Obj(&[(Ky::Is("a"), Sh::Arr(&[Sh::Leaf(Kind::C, 0), Sh::Leaf(Kind::V, 1), Sh::Leaf(Kind::O, 2), Sh::Leaf(Kind::I, 3)])), (Ky::Is("array"), Sh::Leaf(Kind::B, 4)), (Ky::Is("a"), Sh::Obj(&[(Ky::Is(""), Sh::Leaf(Kind::V, 5)), (Ky::Made(6), Sh::Null), (Ky::Made(7), Sh::Leaf(Kind::Inc, 8))])), (Ky::Is("object"), Sh::Null), (Ky::Made(9), Sh::Obj(&[(Ky::Is("object"), Sh::Leaf(Kind::V, 10))])), (Ky::Made(11), Sh::Leaf(Kind::I, 12)), (Ky::Is("array"), Sh::Leaf(Kind::S, 13)), (Ky::Made(14), Sh::Arr(&[Sh::Leaf(Kind::F, 15)]))]) },
    Shape { text: r####"json::array!(json::object!(_u: {null: [e.l(0), e.s(1)], type_: [true]}), (e.o(2)), {foo: json::object![null: e.i(3) + 1, value: {[e.k(4)]: e.v(5), foo: e.m(6), }, "b": e.f(7), "": e.o(8), ]}, e.f(9), [(e.v(10)), json::object!("a": json::object!([e.k(11)]: e.i(12), )), (e.l(13)), e.s(14), e.i(15) + 1, ])"####, build: s124, is: Sh::Arr(&[Sh::Obj(&[(Ky::Is("_u"), Sh::Obj(&[(Ky::Is("null"), Sh::Arr(&[Sh::Leaf(Kind::L, 0), Sh::Leaf(Kind::S, 1)])), (Ky::Is("type_"), Sh::Arr(&[Sh::Bool(true)]))]))]), Sh::Leaf(Kind::O, 2), Sh::Obj(&[(Ky::Is("foo"), Sh::Obj(&[(Ky::Is("null"), Sh::Leaf(Kind::Inc, 3)), (Ky::Is("value"), Sh::Obj(&[(Ky::Made(4), Sh::Leaf(Kind::V, 5)), (Ky::Is("foo"), Sh::Leaf(Kind::M, 6))])), (Ky::Is("b"), Sh::Leaf(Kind::F, 7)), (Ky::Is(""), Sh::Leaf(Kind::O, 8))]))]), Sh::Leaf(Kind::F, 9), Sh::Arr(&[Sh::Leaf(Kind::V, 10), Sh::Obj(&[(Ky::Is("a"), Sh::Obj(&[(Ky::Made(11), Sh::Leaf(Kind::I, 12))]))]), Sh::Leaf(Kind::L, 13), Sh::Leaf(Kind::S, 14), Sh::Leaf(Kind::Inc, 15)])]) },
    Shape { text: r####"json::array!{true, {}, {key: [{key: e.c(0), "with space": (e.v(1)), b: {type_: e.s(2), x1: (e.c(3)), [e.k(4)]: e.i(5) + 1}, null: {"a": (e.v(6)), x1: e.l(7)}}, {}, {x1: e.s(8), foo: e.l(9), b: {b: (e.t(10)), array: e.l(11), x1: (e.m(12))}}, [[json::JsonValue::new_array(), null], e.i(13) + 1, e.v(14)], ], "": {value: [{"b": e.t(15), [e.k(16)]: (e.i(17)), }, ], foo: []}, }}"####, build: s125, is: Sh::Arr(&[Sh::Bool(true), Sh::Obj(&[]), Sh::Obj(&[(Ky::Is("key"), Sh::Arr(&[Sh::Obj(&[(Ky::Is("key"), Sh::Leaf(Kind::C, 0)), (Ky::Is("with space"), Sh::Leaf(Kind::V, 1)), (Ky::Is("b"), Sh::Obj(&[(Ky::Is("type_"), Sh::Leaf(Kind::S, 2)), (Ky::Is("x1"), Sh::Leaf(Kind::C, 3)), (Ky::Made(4), Sh::Leaf(Kind::Inc, 5))])), (Ky::Is("null"), Sh::Obj(&[(Ky::Is("a"), Sh::Leaf(Kind::V, 6)), (Ky::Is("x1"), Sh::Leaf(Kind::L, 7))]))]), Sh::Obj(&[]), Sh::Obj(&[(Ky::Is("x1"), Sh::Leaf(Kind::S, 8)), (Ky::Is("foo"), Sh::Leaf(Kind::L, 9)), (Ky::Is("b"), Sh::Obj(&[(Ky::Is("b"), Sh::Leaf(Kind::S, 10)), (Ky::Is("array"), Sh::Leaf(Kind::L, 11)), (Ky::Is("x1"), Sh::Leaf(Kind::M, 12))]))]), Sh::Arr(&[Sh::Arr(&[Sh::Arr(&[]), Sh::Null]), Sh::Leaf(Kind::Inc, 13), Sh::Leaf(Kind::V, 14)])])), (Ky::Is(""), Sh::Obj(&[(Ky::Is("value"), Sh::Arr(&[Sh::Obj(&[(Ky::Is("b"), Sh::Leaf(Kind::S, 15)), (Ky::Made(16), Sh::Leaf(Kind::I, 17))])])), (Ky::Is("foo"), Sh::Arr(&[]))]))])]) },
    Shape { text: r####"json::array!{{a: e.o(0), "": e.c(1), }, [e.i(2) + 1, e.m(3), (e.i(4)), e.c(5)], e.v(6), e.v(7), json::object!["\u{e9}" => 42, "a" => e.f(8), "b" => e.i(9), "b" => e.o(10), "\u{e9}" => e.b(11)], e.v(12)}"####, build: s126, is: Sh::Arr(&[Sh::Obj(&[(Ky::Is("a"), Sh::Leaf(Kind::O, 0)), (Ky::Is(""), Sh::Leaf(Kind::C, 1))]), Sh::Arr(&[Sh::Leaf(Kind::Inc, 2), Sh::Leaf(Kind::M, 3), Sh::Leaf(Kind::I, 4), Sh::Leaf(Kind::C, 5)]), Sh::Leaf(Kind::V, 6), Sh::Leaf(Kind::V, 7), Sh::Obj(&[(Ky::Is("\u{e9}"), Sh::Int(42)), (Ky::Is("a"), Sh::Leaf(Kind::F, 8)), (Ky::Is("b"), Sh::Leaf(Kind::I, 9)), (Ky::Is("b"), Sh::Leaf(Kind::O, 10)), (Ky::Is("\u{e9}"), Sh::Leaf(Kind::B, 11))]), Sh::Leaf(Kind::V, 12)]) },
    Shape { text: r####"json::array!{e.m(0), e.c(1), json::array![[(e.o(2)), e.t(3), {"x1": e.l(4), [e.k(5)]: e.f(6), x1: json::object!["key" => e.i(7)], }, e.v(8), ], {[e.k(9)]: [json::object!["key" => e.m(10), "x1" => e.c(11), "a" => e.v(12)], json::object![[e.k(13)]: e.c(14), "a": e.o(15), null: e.s(16), null: e.o(17), [e.k(18)]: e.v(19)], [e.t(20), e.m(21)]], a: e.l(22), type_: json::array!{e.i(23), e.b(24), }}, ], json::object!{"with space" => e.c(25), "key" => json::object!["" => json::array!{[(e.t(26)), e.s(27), e.v(28)], "text", null}], e.k(29) => json::array![[{"with space": e.o(30), "\u{e9}": e.m(31), "with space": -7, "a-key-that-is-longer-than-the-inline-buffer-of-keys": e.i(32) + 1}, ], [[e.i(33), e.m(34), e.l(35), ], [e.i(36) + 1, e.t(37), e.l(38), ], ]]}, }"####, build: s127, is: Sh::Arr(&[Sh::Leaf(Kind::M, 0), Sh::Leaf(Kind::C, 1), Sh::Arr(&[Sh::Arr(&[Sh::Leaf(Kind::O, 2), Sh::Leaf(Kind::S, 3), Sh::Obj(&[(Ky::Is("x1"), Sh::Leaf(Kind::L, 4)), (Ky::Made(5), Sh::Leaf(Kind::F, 6)), (Ky::Is("x1"), Sh::Obj(&[(Ky::Is("key"), Sh::Leaf(Kind::I, 7))]))]), Sh::Leaf(Kind::V, 8)]), Sh::Obj(&[(Ky::Made(9), Sh::Arr(&[Sh::Obj(&[(Ky::Is("key"), Sh::Leaf(Kind::M, 10)), (Ky::Is("x1"), Sh::Leaf(Kind::C, 11)), (Ky::Is("a"), Sh::Leaf(Kind::V, 12))]), Sh::Obj(&[(Ky::Made(13), Sh::Leaf(Kind::C, 14)), (Ky::Is("a"), Sh::Leaf(Kind::O, 15)), (Ky::Is("null"), Sh::Leaf(Kind::S, 16)), (Ky::Is("null"), Sh::Leaf(Kind::O, 17)), (Ky::Made(18), Sh::Leaf(Kind::V, 19))]), Sh::Arr(&[Sh::Leaf(Kind::S, 20), Sh::Leaf(Kind::M, 21)])])), (Ky::Is("a"), Sh::Leaf(Kind::L, 22)), (Ky::Is("type_"), Sh::Arr(&[Sh::Leaf(Kind::I, 23), Sh::Leaf(Kind::B, 24)]))])]), Sh::Obj(&[(Ky::Is("with space"), Sh::Leaf(Kind::C, 25)), (Ky::Is("key"), Sh::Obj(&[(Ky::Is(""), Sh::Arr(&[Sh::Arr(&[Sh::Leaf(Kind::S, 26), Sh::Leaf(Kind::S, 27), Sh::Leaf(Kind::V, 28)]), Sh::Str("text"), Sh::Null]))])), (Ky::Made(29), Sh::Arr(&[Sh::Arr(&[Sh::Obj(&[(Ky::Is("with space"), Sh::Leaf(Kind::O, 30)), (Ky::Is("\u{e9}"), Sh::Leaf(Kind::M, 31)), (Ky::Is("with space"), Sh::Int(-7)), (Ky::Is("a-key-that-is-longer-than-the-inline-buffer-of-keys"), Sh::Leaf(Kind::Inc, 32))])]), Sh::Arr(&[Sh::Arr(&[Sh::Leaf(Kind::I, 33), Sh::Leaf(Kind::M, 34), Sh::Leaf(Kind::L, 35)]), Sh::Arr(&[Sh::Leaf(Kind::Inc, 36), Sh::Leaf(Kind::S, 37), Sh::Leaf(Kind::L, 38)])])]))])]) },
    Shape { text: r####"json::object!{"a-key-that-is-longer-than-the-inline-buffer-of-keys" => e.i(0) + 1, "" => (e.i(1) + 1), "with space" => e.b(2), e.k(3) => json::array!(e.v(4), [(e.b(5)), e.m(6), e.c(7), e.c(8), (e.o(9))]), }"####, build: s128, is: Sh::Obj(&[(Ky::Is("a-key-that-is-longer-than-the-inline-buffer-of-keys"), Sh::Leaf(Kind::Inc, 0)), (Ky::Is(""), Sh::Leaf(Kind::Inc, 1)), (Ky::Is("with space"), Sh::Leaf(Kind::B, 2)), (Ky::Made(3), Sh::Arr(&[Sh::Leaf(Kind::V, 4), Sh::Arr(&[Sh::Leaf(Kind::B, 5), Sh::Leaf(Kind::M, 6), Sh::Leaf(Kind::C, 7), Sh::Leaf(Kind::C, 8), Sh::Leaf(Kind::O, 9)])]))]) },
    Shape { text: r####"json::object![e.k(0) => false, "a-key-that-is-longer-than-the-inline-buffer-of-keys" => e.v(1), "" => json::array!{e.i(2) + 1, -7}, e.k(3) => e.s(4), e.k(5) => e.o(6)]"####, build: s129, is: Sh::Obj(&[(Ky::Made(0), Sh::Bool(false)), (Ky::Is("a-key-that-is-longer-than-the-inline-buffer-of-keys"), Sh::Leaf(Kind::V, 1)), (Ky::Is(""), Sh::Arr(&[Sh::Leaf(Kind::Inc, 2), Sh::Int(-7)])), (Ky::Made(3), Sh::Leaf(Kind::S, 4)), (Ky::Made(5), Sh::Leaf(Kind::O, 6))]) },
    Shape { text: r####"json::array!(e.s(0), {key: json::array!{e.v(1), e.i(2) + 1, e.s(3)}, }, )"####, build: s130, is: Sh::Arr(&[Sh::Leaf(Kind::S, 0), Sh::Obj(&[(Ky::Is("key"), Sh::Arr(&[Sh::Leaf(Kind::V, 1), Sh::Leaf(Kind::Inc, 2), Sh::Leaf(Kind::S, 3)]))])]) },
    Shape { text: r####"json::array!{{array: e.i(0), _u: {"a-key-that-is-longer-than-the-inline-buffer-of-keys": e.c(1), "a-key-that-is-longer-than-the-inline-buffer-of-keys": e.l(2), }, "x1": e.i(3)}, {[e.k(4)]: [e.m(5), e.m(6), null, e.v(7)], [e.k(8)]: json::object!(a: e.o(9), "quo\"te": e.i(10), [e.k(11)]: e.i(12), self_: null, "x1": e.o(13)), array: e.i(14) + 1, "key": e.m(15)}, {"\u{e9}": e.v(16), [e.k(17)]: [], "x1": (e.i(18)), b: {value: e.i(19), a: e.m(20), x1: e.m(21), }}, (e.i(22))}"####, build: s131, is: Sh::Arr(&[Sh::Obj(&[(Ky::Is("array"), Sh::Leaf(Kind::I, 0)), (Ky::Is("_u"), Sh::Obj(&[(Ky::Is("a-key-that-is-longer-than-the-inline-buffer-of-keys"), Sh::Leaf(Kind::C, 1)), (Ky::Is("a-key-that-is-longer-than-the-inline-buffer-of-keys"), Sh::Leaf(Kind::L, 2))])), (Ky::Is("x1"), Sh::Leaf(Kind::I, 3))]), Sh::Obj(&[(Ky::Made(4), Sh::Arr(&[Sh::Leaf(Kind::M, 5), Sh::Leaf(Kind::M, 6), Sh::Null, Sh::Leaf(Kind::V, 7)])), (Ky::Made(8), Sh::Obj(&[(Ky::Is("a"), Sh::Leaf(Kind::O, 9)), (Ky::Is("quo\"te"), Sh::Leaf(Kind::I, 10)), (Ky::Made(11), Sh::Leaf(Kind::I, 12)), (Ky::Is("self_"), Sh::Null), (Ky::Is("x1"), Sh::Leaf(Kind::O, 13))])), (Ky::Is("array"), Sh::Leaf(Kind::Inc, 14)), (Ky::Is("key"), Sh::Leaf(Kind::M, 15))]), Sh::Obj(&[(Ky::Is("\u{e9}"), Sh::Leaf(Kind::V, 16)), (Ky::Made(17), Sh::Arr(&[])), (Ky::Is("x1"), Sh::Leaf(Kind::I, 18)), (Ky::Is("b"), Sh::Obj(&[(Ky::Is("value"), Sh::Leaf(Kind::I, 19)), (Ky::Is("a"), Sh::Leaf(Kind::M, 20)), (Ky::Is("x1"), Sh::Leaf(Kind::M, 21))]))]), Sh::Leaf(Kind::I, 22)]) },
    Shape { text: r####"json::array![[json::array!(e.i(0) + 1, 1 + 1, ), json::array!{e.s(1), json::array!{e.m(2), (e.o(3))}, null, null}, ], (5), {[e.k(4)]: e.v(5), }, {value: [{[e.k(6)]: e.c(7), a: (5)}, (5), [e.l(8), e.i(9), (e.c(10)), ]], array: e.t(11), }, [e.s(12), e.i(13), e.s(14)], e.v(15), ]"####, build: s132, is: Sh::Arr(&[Sh::Arr(&[Sh::Arr(&[Sh::Leaf(Kind::Inc, 0), Sh::Int(2)]), Sh::Arr(&[Sh::Leaf(Kind::S, 1), Sh::Arr(&[Sh::Leaf(Kind::M, 2), Sh::Leaf(Kind::O, 3)]), Sh::Null, Sh::Null])]), Sh::Int(5), Sh::Obj(&[(Ky::Made(4), Sh::Leaf(Kind::V, 5))]), Sh::Obj(&[(Ky::Is("value"), Sh::Arr(&[Sh::Obj(&[(Ky::Made(6), Sh::Leaf(Kind::C, 7)), (Ky::Is("a"), Sh::Int(5))]), Sh::Int(5), Sh::Arr(&[Sh::Leaf(Kind::L, 8), Sh::Leaf(Kind::I, 9), Sh::Leaf(Kind::C, 10)])])), (Ky::Is("array"), Sh::Leaf(Kind::S, 11))]), Sh::Arr(&[Sh::Leaf(Kind::S, 12), Sh::Leaf(Kind::I, 13), Sh::Leaf(Kind::S, 14)]), Sh::Leaf(Kind::V, 15)]) },
    Shape { text: r####"json::array![e.f(0), (e.l(1)), e.c(2), e.t(3), e.c(4), ]"####, build: s133, is: Sh::Arr(&[Sh::Leaf(Kind::F, 0), Sh::Leaf(Kind::L, 1), Sh::Leaf(Kind::C, 2), Sh::Leaf(Kind::S, 3), Sh::Leaf(Kind::C, 4)]) },
    Shape { text: r####"json::object!(e.k(0) => json::object!("a-key-that-is-longer-than-the-inline-buffer-of-keys" => 1 + 1, "\u{e9}" => false, e.k(1) => json::array![[], [json::object!(foo: e.f(2), "x1": e.o(3), [e.k(4)]: e.i(5), "key": e.m(6)), "text"], ]), "quo\"te" => json::object!["with space" => e.v(7), "with space" => json::object!([e.k(8)]: e.c(9)), e.k(10) => "text", ], "with space" => json::object!["x1" => json::array![], e.k(11) => e.i(12), "x1" => e.m(13)], e.k(14) => json::array!{{}, [json::object!{"with space" => json::object!{e.k(15) => 0, "a" => e.m(16), "b" => e.v(17), e.k(18) => e.v(19), "" => e.o(20)}, "quo\"te" => e.i(21) + 1, "key" => (e.t(22)), e.k(23) => (e.c(24)), }, [{x1: e.i(25) + 1, }, ], [{object: e.i(26), array: e.b(27)}, [e.o(28), null, e.f(29)], {[e.k(30)]: null, "x1": e.m(31)}, json::array![e.c(32)]]], [[[e.s(33), e.t(34), e.m(35), e.v(36), e.c(37), ], {[e.k(38)]: e.s(39), "b": e.f(40)}], {"quo\"te": {}, [e.k(41)]: json::object!["x1": e.t(42)], [e.k(43)]: [e.i(44) + 1], "b": json::JsonValue::new_array(), _u: [e.m(45), ]}]}, )"####, build: s134, is: Sh::Obj(&[(Ky::Made(0), Sh::Obj(&[(Ky::Is("a-key-that-is-longer-than-the-inline-buffer-of-keys"), Sh::Int(2)), (Ky::Is("\u{e9}"), Sh::Bool(false)), (Ky::Made(1), Sh::Arr(&[Sh::Arr(&[]), Sh::Arr(&[Sh::Obj(&[(Ky::Is("foo"), Sh::Leaf(Kind::F, 2)), (Ky::Is("x1"), Sh::Leaf(Kind::O, 3)), (Ky::Made(4), Sh::Leaf(Kind::I, 5)), (Ky::Is("key"), Sh::Leaf(Kind::M, 6))]), Sh::Str("text")])]))])), (Ky::Is("quo\"te"), Sh::Obj(&[(Ky::Is("with space"), Sh::Leaf(Kind::V, 7)), (Ky::Is("with space"), Sh::Obj(&[(Ky::Made(8), Sh::Leaf(Kind::C, 9))])), (Ky::Made(10), Sh::Str("text"))])), (Ky::Is("with space"), Sh::Obj(&[(Ky::Is("x1"), Sh::Arr(&[])), (Ky::Made(11), Sh::Leaf(Kind::I, 12)), (Ky::Is("x1"), Sh::Leaf(Kind::M, 13))])), (Ky::Made(14), Sh::Arr(&[Sh::Obj(&[]), Sh::Arr(&[Sh::Obj(&[(Ky::Is("with space"), Sh::Obj(&[(Ky::Made(15), Sh::Int(0)), (Ky::Is("a"), Sh::Leaf(Kind::M, 16)), (Ky::Is("b"), Sh::Leaf(Kind::V, 17)), (Ky::Made(18), Sh::Leaf(Kind::V, 19)), (Ky::Is(""), Sh::Leaf(Kind::O, 20))])), (Ky::Is("quo\"te"), Sh::Leaf(Kind::Inc, 21)), (Ky::Is("key"), Sh::Leaf(Kind::S, 22)), (Ky::Made(23), Sh::Leaf(Kind::C, 24))]), Sh::Arr(&[Sh::Obj(&[(Ky::Is("x1"), Sh::Leaf(Kind::Inc, 25))])]), Sh::Arr(&[Sh::Obj(&[(Ky::Is("object"), Sh::Leaf(Kind::I, 26)), (Ky::Is("array"), Sh::Leaf(Kind::B, 27))]), Sh::Arr(&[Sh::Leaf(Kind::O, 28), Sh::Null, Sh::Leaf(Kind::F, 29)]), Sh::Obj(&[(Ky::Made(30), Sh::Null), (Ky::Is("x1"), Sh::Leaf(Kind::M, 31))]), Sh::Arr(&[Sh::Leaf(Kind::C, 32)])])]), Sh::Arr(&[Sh::Arr(&[Sh::Arr(&[Sh::Leaf(Kind::S, 33), Sh::Leaf(Kind::S, 34), Sh::Leaf(Kind::M, 35), Sh::Leaf(Kind::V, 36), Sh::Leaf(Kind::C, 37)]), Sh::Obj(&[(Ky::Made(38), Sh::Leaf(Kind::S, 39)), (Ky::Is("b"), Sh::Leaf(Kind::F, 40))])]), Sh::Obj(&[(Ky::Is("quo\"te"), Sh::Obj(&[])), (Ky::Made(41), Sh::Obj(&[(Ky::Is("x1"), Sh::Leaf(Kind::S, 42))])), (Ky::Made(43), Sh::Arr(&[Sh::Leaf(Kind::Inc, 44)])), (Ky::Is("b"), Sh::Arr(&[])), (Ky::Is("_u"), Sh::Arr(&[Sh::Leaf(Kind::M, 45)]))])])]))]) },
    Shape { text: r####"json::array![json::object!{"a": {"x1": -7, [e.k(0)]: null}, "quo\"te": e.v(1), "x1": {"a-key-that-is-longer-than-the-inline-buffer-of-keys": e.c(2), value: e.v(3), [e.k(4)]: e.l(5), [e.k(6)]: e.c(7), value: e.c(8)}, "\u{e9}": {"key": 42, "": e.l(9), "\u{e9}": e.c(10), [e.k(11)]: e.c(12), x1: e.c(13), }, key: e.s(14)}, [null, ], [e.i(15) + 1, json::array![e.c(16)], e.v(17), ], ]"####, build: s135, is: Sh::Arr(&[Sh::Obj(&[(Ky::Is("a"), Sh::Obj(&[(Ky::Is("x1"), Sh::Int(-7)), (Ky::Made(0), Sh::Null)])), (Ky::Is("quo\"te"), Sh::Leaf(Kind::V, 1)), (Ky::Is("x1"), Sh::Obj(&[(Ky::Is("a-key-that-is-longer-than-the-inline-buffer-of-keys"), Sh::Leaf(Kind::C, 2)), (Ky::Is("value"), Sh::Leaf(Kind::V, 3)), (Ky::Made(4), Sh::Leaf(Kind::L, 5)), (Ky::Made(6), Sh::Leaf(Kind::C, 7)), (Ky::Is("value"), Sh::Leaf(Kind::C, 8))])), (Ky::Is("\u{e9}"), Sh::Obj(&[(Ky::Is("key"), Sh::Int(42)), (Ky::Is(""), Sh::Leaf(Kind::L, 9)), (Ky::Is("\u{e9}"), Sh::Leaf(Kind::C, 10)), (Ky::Made(11), Sh::Leaf(Kind::C, 12)), (Ky::Is("x1"), Sh::Leaf(Kind::C, 13))])), (Ky::Is("key"), Sh::Leaf(Kind::S, 14))]), Sh::Arr(&[Sh::Null]), Sh::Arr(&[Sh::Leaf(Kind::Inc, 15), Sh::Arr(&[Sh::Leaf(Kind::C, 16)]), Sh::Leaf(Kind::V, 17)])]) },
    Shape { text: r####"json::object!(e.k(0) => (e.v(1)), e.k(2) => json::array![json::array!()], e.k(3) => e.i(4), "quo\"te" => json::array!{[e.v(5), e.l(6), e.i(7)], {"x1": e.f(8), b: e.s(9), [e.k(10)]: e.c(11), "a": e.b(12), }, e.s(13), e.m(14), e.m(15), }, e.k(16) => json::array!(e.o(17), (e.v(18)), (5), ), )"####, build: s136, is: Sh::Obj(&[(Ky::Made(0), Sh::Leaf(Kind::V, 1)), (Ky::Made(2), Sh::Arr(&[Sh::Arr(&[])])), (Ky::Made(3), Sh::Leaf(Kind::I, 4)), (Ky::Is("quo\"te"), Sh::Arr(&[Sh::Arr(&[Sh::Leaf(Kind::V, 5), Sh::Leaf(Kind::L, 6), Sh::Leaf(Kind::I, 7)]), Sh::Obj(&[(Ky::Is("x1"), Sh::Leaf(Kind::F, 8)), (Ky::Is("b"), Sh::Leaf(Kind::S, 9)), (Ky::Made(10), Sh::Leaf(Kind::C, 11)), (Ky::Is("a"), Sh::Leaf(Kind::B, 12))]), Sh::Leaf(Kind::S, 13), Sh::Leaf(Kind::M, 14), Sh::Leaf(Kind::M, 15)])), (Ky::Made(16), Sh::Arr(&[Sh::Leaf(Kind::O, 17), Sh::Leaf(Kind::V, 18), Sh::Int(5)]))]) },
    Shape { text: r####"json::object!(null: {"with space": 1 + 1, array: [{a: json::object!("x1" => e.i(0), "\u{e9}" => e.b(1), e.k(2) => e.t(3), "b" => e.f(4), "key" => (e.v(5)), ), [e.k(6)]: e.t(7), b: e.s(8)}, {}, json::object!{"with space" => json::object!([e.k(9)]: e.t(10), "b": (e.v(11)), ), e.k(12) => json::array![e.b(13), e.i(14) + 1]}, null]}, "a": [json::object![array: [e.f(15), e.i(16) + 1, ], "b": [e.o(17), (e.s(18))], object: e.v(19)], [[e.v(20)], {a: [e.c(21), e.b(22), e.b(23), ]}], json::object!{"a-key-that-is-longer-than-the-inline-buffer-of-keys" => e.m(24), "b" => json::object!{"a" => json::array!{e.v(25), e.c(26), e.c(27), e.i(28)}, "a" => json::array!(e.v(29), e.c(30), e.v(31), )}, }, e.v(32)], "key": [e.c(33), [{}, {array: "text", key: {key: (e.b(34))}, [e.k(35)]: {}, "x1": [e.v(36), e.i(37), ]}], [{}], ], b: (e.t(38)), [e.k(39)]: [[[e.t(40), (e.v(41)), [json::Null], [e.i(42), null, ], ], e.s(43), (e.m(44))], [{}, ], e.i(45), ])"####, build: s137, is: Sh::Obj(&[(Ky::Is("null"), Sh::Obj(&[(Ky::Is("with space"), Sh::Int(2)), (Ky::Is("array"), Sh::Arr(&[Sh::Obj(&[(Ky::Is("a"), Sh::Obj(&[(Ky::Is("x1"), Sh::Leaf(Kind::I, 0)), (Ky::Is("\u{e9}"), Sh::Leaf(Kind::B, 1)), (Ky::Made(2), Sh::Leaf(Kind::S, 3)), (Ky::Is("b"), Sh::Leaf(Kind::F, 4)), (Ky::Is("key"), Sh::Leaf(Kind::V, 5))])), (Ky::Made(6), Sh::Leaf(Kind::S, 7)), (Ky::Is("b"), Sh::Leaf(Kind::S, 8))]), Sh::Obj(&[]), Sh::Obj(&[(Ky::Is("with space"), Sh::Obj(&[(Ky::Made(9), Sh::Leaf(Kind::S, 10)), (Ky::Is("b"), Sh::Leaf(Kind::V, 11))])), (Ky::Made(12), Sh::Arr(&[Sh::Leaf(Kind::B, 13), Sh::Leaf(Kind::Inc, 14)]))]), Sh::Null]))])), (Ky::Is("a"), Sh::Arr(&[Sh::Obj(&[(Ky::Is("array"), Sh::Arr(&[Sh::Leaf(Kind::F, 15), Sh::Leaf(Kind::Inc, 16)])), (Ky::Is("b"), Sh::Arr(&[Sh::Leaf(Kind::O, 17), Sh::Leaf(Kind::S, 18)])), (Ky::Is("object"), Sh::Leaf(Kind::V, 19))]), Sh::Arr(&[Sh::Arr(&[Sh::Leaf(Kind::V, 20)]), Sh::Obj(&[(Ky::Is("a"), Sh::Arr(&[Sh::Leaf(Kind::C, 21), Sh::Leaf(Kind::B, 22), Sh::Leaf(Kind::B, 23)]))])]), Sh::Obj(&[(Ky::Is("a-key-that-is-longer-than-the-inline-buffer-of-keys"), Sh::Leaf(Kind::M, 24)), (Ky::Is("b"), Sh::Obj(&[(Ky::Is("a"), Sh::Arr(&[Sh::Leaf(Kind::V, 25), Sh::Leaf(Kind::C, 26), Sh::Leaf(Kind::C, 27), Sh::Leaf(Kind::I, 28)])), (Ky::Is("a"), Sh::Arr(&[Sh::Leaf(Kind::V, 29), Sh::Leaf(Kind::C, 30), Sh::Leaf(Kind::V, 31)]))]))]), Sh::Leaf(Kind::V, 32)])), (Ky::Is("key"), Sh::Arr(&[Sh::Leaf(Kind::C, 33), Sh::Arr(&[Sh::Obj(&[]), Sh::Obj(&[(Ky::Is("array"), Sh::Str("text")), (Ky::Is("key"), Sh::Obj(&[(Ky::Is("key"), Sh::Leaf(Kind::B, 34))])), (Ky::Made(35), Sh::Obj(&[])), (Ky::Is("x1"), Sh::Arr(&[Sh::Leaf(Kind::V, 36), Sh::Leaf(Kind::I, 37)]))])]), Sh::Arr(&[Sh::Obj(&[])])])), (Ky::Is("b"), Sh::Leaf(Kind::S, 38)), (Ky::Made(39), Sh::Arr(&[Sh::Arr(&[Sh::Arr(&[Sh::Leaf(Kind::S, 40), Sh::Leaf(Kind::V, 41), Sh::Arr(&[Sh::Null]), Sh::Arr(&[Sh::Leaf(Kind::I, 42), Sh::Null])]), Sh::Leaf(Kind::S, 43), Sh::Leaf(Kind::M, 44)]), Sh::Arr(&[Sh::Obj(&[])]), Sh::Leaf(Kind::I, 45)]))]) },
    Shape { text: r####"json::array!{[{type_: e.i(0) + 1, }, e.i(1) + 1, e.s(2), (e.o(3))], false, [e.o(4)], }"####, build: s138, is: Sh::Arr(&[Sh::Arr(&[Sh::Obj(&[(Ky::Is("type_"), Sh::Leaf(Kind::Inc, 0))]), Sh::Leaf(Kind::Inc, 1), Sh::Leaf(Kind::S, 2), Sh::Leaf(Kind::O, 3)]), Sh::Bool(false), Sh::Arr(&[Sh::Leaf(Kind::O, 4)])]) },
    Shape { text: r####"json::object!{foo: e.l(0), "a-key-that-is-longer-than-the-inline-buffer-of-keys": e.f(1), null: e.o(2), [e.k(3)]: {type_: {object: (e.c(4)), "with space": e.o(5), a: (e.i(6) + 1)}, "a": [e.m(7), e.i(8) + 1, ], "": e.c(9)}}"####, build: s139, is: Sh::Obj(&[(Ky::Is("foo"), Sh::Leaf(Kind::L, 0)), (Ky::Is("a-key-that-is-longer-than-the-inline-buffer-of-keys"), Sh::Leaf(Kind::F, 1)), (Ky::Is("null"), Sh::Leaf(Kind::O, 2)), (Ky::Made(3), Sh::Obj(&[(Ky::Is("type_"), Sh::Obj(&[(Ky::Is("object"), Sh::Leaf(Kind::C, 4)), (Ky::Is("with space"), Sh::Leaf(Kind::O, 5)), (Ky::Is("a"), Sh::Leaf(Kind::Inc, 6))])), (Ky::Is("a"), Sh::Arr(&[Sh::Leaf(Kind::M, 7), Sh::Leaf(Kind::Inc, 8)])), (Ky::Is(""), Sh::Leaf(Kind::C, 9))]))]) },
    Shape { text: r####"json::object!["with space" => json::object!(), "b" => json::object!["\u{e9}" => e.v(0), "b" => e.o(1), "a" => json::object!{"b" => json::array![e.o(2), ], "quo\"te" => e.v(3), e.k(4) => json::array!{e.i(5) + 1, e.o(6), 0}, "\u{e9}" => e.v(7), e.k(8) => json::array!(e.v(9), json::JsonValue::new_array(), (e.s(10))), }, e.k(11) => e.i(12), e.k(13) => json::object!(e.k(14) => (e.i(15)))], e.k(16) => json::array!(e.t(17), [[]]), "a-key-that-is-longer-than-the-inline-buffer-of-keys" => (e.f(18))]"####, build: s140, is: Sh::Obj(&[(Ky::Is("with space"), Sh::Obj(&[])), (Ky::Is("b"), Sh::Obj(&[(Ky::Is("\u{e9}"), Sh::Leaf(Kind::V, 0)), (Ky::Is("b"), Sh::Leaf(Kind::O, 1)), (Ky::Is("a"), Sh::Obj(&[(Ky::Is("b"), Sh::Arr(&[Sh::Leaf(Kind::O, 2)])), (Ky::Is("quo\"te"), Sh::Leaf(Kind::V, 3)), (Ky::Made(4), Sh::Arr(&[Sh::Leaf(Kind::Inc, 5), Sh::Leaf(Kind::O, 6), Sh::Int(0)])), (Ky::Is("\u{e9}"), Sh::Leaf(Kind::V, 7)), (Ky::Made(8), Sh::Arr(&[Sh::Leaf(Kind::V, 9), Sh::Arr(&[]), Sh::Leaf(Kind::S, 10)]))])), (Ky::Made(11), Sh::Leaf(Kind::I, 12)), (Ky::Made(13), Sh::Obj(&[(Ky::Made(14), Sh::Leaf(Kind::I, 15))]))])), (Ky::Made(16), Sh::Arr(&[Sh::Leaf(Kind::S, 17), Sh::Arr(&[Sh::Arr(&[])])])), (Ky::Is("a-key-that-is-longer-than-the-inline-buffer-of-keys"), Sh::Leaf(Kind::F, 18))]) },
    Shape { text: r####"json::array!(null, {}, e.v(0), )"####, build: s141, is: Sh::Arr(&[Sh::Null, Sh::Obj(&[]), Sh::Leaf(Kind::V, 0)]) },
    Shape { text: r####"json::array![{key: e.i(0), [e.k(1)]: e.i(2) + 1}, [e.i(3)], e.t(4), e.i(5), null, e.i(6), [e.m(7), null, e.f(8), e.v(9)]]"####, build: s142, is: Sh::Arr(&[Sh::Obj(&[(Ky::Is("key"), Sh::Leaf(Kind::I, 0)), (Ky::Made(1), Sh::Leaf(Kind::Inc, 2))]), Sh::Arr(&[Sh::Leaf(Kind::I, 3)]), Sh::Leaf(Kind::S, 4), Sh::Leaf(Kind::I, 5), Sh::Null, Sh::Leaf(Kind::I, 6), Sh::Arr(&[Sh::Leaf(Kind::M, 7), Sh::Null, Sh::Leaf(Kind::F, 8), Sh::Leaf(Kind::V, 9)])]) },
    Shape { text: r####"json::object!{"a" => e.s(0), "with space" => (5), "a-key-that-is-longer-than-the-inline-buffer-of-keys" => json::array!(e.v(1), e.l(2)), e.k(3) => json::object!([e.k(4)]: e.b(5), null: [], [e.k(6)]: e.f(7)), "x1" => json::array![{a: e.t(8), _u: e.i(9), a: e.v(10)}, [e.f(11), e.i(12), (e.s(13)), (e.i(14)), ], e.f(15)], "\u{e9}" => e.l(16), }"####, build: s143, is: Sh::Obj(&[(Ky::Is("a"), Sh::Leaf(Kind::S, 0)), (Ky::Is("with space"), Sh::Int(5)), (Ky::Is("a-key-that-is-longer-than-the-inline-buffer-of-keys"), Sh::Arr(&[Sh::Leaf(Kind::V, 1), Sh::Leaf(Kind::L, 2)])), (Ky::Made(3), Sh::Obj(&[(Ky::Made(4), Sh::Leaf(Kind::B, 5)), (Ky::Is("null"), Sh::Arr(&[])), (Ky::Made(6), Sh::Leaf(Kind::F, 7))])), (Ky::Is("x1"), Sh::Arr(&[Sh::Obj(&[(Ky::Is("a"), Sh::Leaf(Kind::S, 8)), (Ky::Is("_u"), Sh::Leaf(Kind::I, 9)), (Ky::Is("a"), Sh::Leaf(Kind::V, 10))]), Sh::Arr(&[Sh::Leaf(Kind::F, 11), Sh::Leaf(Kind::I, 12), Sh::Leaf(Kind::S, 13), Sh::Leaf(Kind::I, 14)]), Sh::Leaf(Kind::F, 15)])), (Ky::Is("\u{e9}"), Sh::Leaf(Kind::L, 16))]) },
    Shape { text: r####"json::array!(json::object![[e.k(0)]: e.t(1)], e.c(2), [e.i(3) + 1, ], [e.v(4), (e.b(5)), (e.v(6)), e.v(7), e.f(8)], )"####, build: s144, is: Sh::Arr(&[Sh::Obj(&[(Ky::Made(0), Sh::Leaf(Kind::S, 1))]), Sh::Leaf(Kind::C, 2), Sh::Arr(&[Sh::Leaf(Kind::Inc, 3)]), Sh::Arr(&[Sh::Leaf(Kind::V, 4), Sh::Leaf(Kind::B, 5), Sh::Leaf(Kind::V, 6), Sh::Leaf(Kind::V, 7), Sh::Leaf(Kind::F, 8)])]) },
    Shape { text: r####"json::object!("\u{e9}" => json::object!{"quo\"te" => json::object!([e.k(0)]: {"x1": e.v(1), "a-key-that-is-longer-than-the-inline-buffer-of-keys": e.f(2)}, "quo\"te": e.c(3)), e.k(4) => json::array!{}, "" => json::object![]}, "a" => json::array!([e.c(5), json::object![x1: json::Null, value: e.o(6), [e.k(7)]: (e.f(8)), ], {"with space": e.f(9), b: e.m(10), a: e.c(11), }, null, [e.i(12) + 1, e.l(13), 0, ], ], [e.i(14), e.s(15), ], {type_: e.v(16), "a-key-that-is-longer-than-the-inline-buffer-of-keys": [e.c(17), e.f(18)], [e.k(19)]: [null, (e.c(20)), e.i(21) + 1, ]}, ), e.k(22) => json::array!{(e.f(23))}, )"####, build: s145, is: Sh::Obj(&[(Ky::Is("\u{e9}"), Sh::Obj(&[(Ky::Is("quo\"te"), Sh::Obj(&[(Ky::Made(0), Sh::Obj(&[(Ky::Is("x1"), Sh::Leaf(Kind::V, 1)), (Ky::Is("a-key-that-is-longer-than-the-inline-buffer-of-keys"), Sh::Leaf(Kind::F, 2))])), (Ky::Is("quo\"te"), Sh::Leaf(Kind::C, 3))])), (Ky::Made(4), Sh::Arr(&[])), (Ky::Is(""), Sh::Obj(&[]))])), (Ky::Is("a"), Sh::Arr(&[Sh::Arr(&[Sh::Leaf(Kind::C, 5), Sh::Obj(&[(Ky::Is("x1"), Sh::Null), (Ky::Is("value"), Sh::Leaf(Kind::O, 6)), (Ky::Made(7), Sh::Leaf(Kind::F, 8))]), Sh::Obj(&[(Ky::Is("with space"), Sh::Leaf(Kind::F, 9)), (Ky::Is("b"), Sh::Leaf(Kind::M, 10)), (Ky::Is("a"), Sh::Leaf(Kind::C, 11))]), Sh::Null, Sh::Arr(&[Sh::Leaf(Kind::Inc, 12), Sh::Leaf(Kind::L, 13), Sh::Int(0)])]), Sh::Arr(&[Sh::Leaf(Kind::I, 14), Sh::Leaf(Kind::S, 15)]), Sh::Obj(&[(Ky::Is("type_"), Sh::Leaf(Kind::V, 16)), (Ky::Is("a-key-that-is-longer-than-the-inline-buffer-of-keys"), Sh::Arr(&[Sh::Leaf(Kind::C, 17), Sh::Leaf(Kind::F, 18)])), (Ky::Made(19), Sh::Arr(&[Sh::Null, Sh::Leaf(Kind::C, 20), Sh::Leaf(Kind::Inc, 21)]))])])), (Ky::Made(22), Sh::Arr(&[Sh::Leaf(Kind::F, 23)]))]) },
    Shape { text: r####"json::object!["a" => json::object!(self_: e.m(0), a: null), "quo\"te" => e.c(1), "a" => json::object![null: e.c(2), "a-key-that-is-longer-than-the-inline-buffer-of-keys": e.m(3), "a": e.i(4), "a": null]]"####, build: s146, is: Sh::Obj(&[(Ky::Is("a"), Sh::Obj(&[(Ky::Is("self_"), Sh::Leaf(Kind::M, 0)), (Ky::Is("a"), Sh::Null)])), (Ky::Is("quo\"te"), Sh::Leaf(Kind::C, 1)), (Ky::Is("a"), Sh::Obj(&[(Ky::Is("null"), Sh::Leaf(Kind::C, 2)), (Ky::Is("a-key-that-is-longer-than-the-inline-buffer-of-keys"), Sh::Leaf(Kind::M, 3)), (Ky::Is("a"), Sh::Leaf(Kind::I, 4)), (Ky::Is("a"), Sh::Null)]))]) },
    Shape { text: r####"json::array!(e.v(0), {key: {}, self_: [e.c(1), json::array!(e.m(2), e.s(3), e.c(4)), json::object!("" => e.s(5), "\u{e9}" => e.b(6), e.k(7) => e.s(8)), [e.i(9), 0], e.v(10), ], }, json::array![[[(e.i(11))], ["text", e.t(12), e.m(13), ], [e.i(14)], [e.m(15), ], (e.l(16)), ], {"key": (e.c(17)), "a-key-that-is-longer-than-the-inline-buffer-of-keys": e.f(18), }, [-7, json::object!(array: e.t(19), "": e.m(20), value: e.s(21), null: e.v(22), ), json::object!{x1: e.i(23), type_: e.t(24), null: e.c(25), foo: null, }, ], json::object!(type_: [e.o(26), (e.s(27)), e.t(28), e.v(29), "a string literal that does not fit inline"], object: [(e.i(30)), e.v(31), ], key: json::object!(type_: (e.v(32)), foo: (e.c(33)), object: e.i(34) + 1, ), [e.k(35)]: e.b(36))], {"with space": null, [e.k(37)]: e.i(38) + 1}, null, )"####, build: s147, is: Sh::Arr(&[Sh::Leaf(Kind::V, 0), Sh::Obj(&[(Ky::Is("key"), Sh::Obj(&[])), (Ky::Is("self_"), Sh::Arr(&[Sh::Leaf(Kind::C, 1), Sh::Arr(&[Sh::Leaf(Kind::M, 2), Sh::Leaf(Kind::S, 3), Sh::Leaf(Kind::C, 4)]), Sh::Obj(&[(Ky::Is(""), Sh::Leaf(Kind::S, 5)), (Ky::Is("\u{e9}"), Sh::Leaf(Kind::B, 6)), (Ky::Made(7), Sh::Leaf(Kind::S, 8))]), Sh::Arr(&[Sh::Leaf(Kind::I, 9), Sh::Int(0)]), Sh::Leaf(Kind::V, 10)]))]), Sh::Arr(&[Sh::Arr(&[Sh::Arr(&[Sh::Leaf(Kind::I, 11)]), Sh::Arr(&[Sh::Str("text"), Sh::Leaf(Kind::S, 12), Sh::Leaf(Kind::M, 13)]), Sh::Arr(&[Sh::Leaf(Kind::I, 14)]), Sh::Arr(&[Sh::Leaf(Kind::M, 15)]), Sh::Leaf(Kind::L, 16)]), Sh::Obj(&[(Ky::Is("key"), Sh::Leaf(Kind::C, 17)), (Ky::Is("a-key-that-is-longer-than-the-inline-buffer-of-keys"), Sh::Leaf(Kind::F, 18))]), Sh::Arr(&[Sh::Int(-7), Sh::Obj(&[(Ky::Is("array"), Sh::Leaf(Kind::S, 19)), (Ky::Is(""), Sh::Leaf(Kind::M, 20)), (Ky::Is("value"), Sh::Leaf(Kind::S, 21)), (Ky::Is("null"), Sh::Leaf(Kind::V, 22))]), Sh::Obj(&[(Ky::Is("x1"), Sh::Leaf(Kind::I, 23)), (Ky::Is("type_"), Sh::Leaf(Kind::S, 24)), (Ky::Is("null"), Sh::Leaf(Kind::C, 25)), (Ky::Is("foo"), Sh::Null)])]), Sh::Obj(&[(Ky::Is("type_"), Sh::Arr(&[Sh::Leaf(Kind::O, 26), Sh::Leaf(Kind::S, 27), Sh::Leaf(Kind::S, 28), Sh::Leaf(Kind::V, 29), Sh::Str("a string literal that does not fit inline")])), (Ky::Is("object"), Sh::Arr(&[Sh::Leaf(Kind::I, 30), Sh::Leaf(Kind::V, 31)])), (Ky::Is("key"), Sh::Obj(&[(Ky::Is("type_"), Sh::Leaf(Kind::V, 32)), (Ky::Is("foo"), Sh::Leaf(Kind::C, 33)), (Ky::Is("object"), Sh::Leaf(Kind::Inc, 34))])), (Ky::Made(35), Sh::Leaf(Kind::B, 36))])]), Sh::Obj(&[(Ky::Is("with space"), Sh::Null), (Ky::Made(37), Sh::Leaf(Kind::Inc, 38))]), Sh::Null]) },
    Shape { text: r####"json::array![e.i(0) + 1, e.o(1), [0, [], {"b": json::object!{"a" => json::JsonValue::new_array()}, b: (e.b(2)), self_: (e.v(3)), b: [e.s(4), (e.b(5)), (e.b(6))]}], ]"####, build: s148, is: Sh::Arr(&[Sh::Leaf(Kind::Inc, 0), Sh::Leaf(Kind::O, 1), Sh::Arr(&[Sh::Int(0), Sh::Arr(&[]), Sh::Obj(&[(Ky::Is("b"), Sh::Obj(&[(Ky::Is("a"), Sh::Arr(&[]))])), (Ky::Is("b"), Sh::Leaf(Kind::B, 2)), (Ky::Is("self_"), Sh::Leaf(Kind::V, 3)), (Ky::Is("b"), Sh::Arr(&[Sh::Leaf(Kind::S, 4), Sh::Leaf(Kind::B, 5), Sh::Leaf(Kind::B, 6)]))])])]) },
    Shape { text: r####"json::array!{[e.c(0), [[(e.l(1)), e.v(2), e.i(3)]], [e.t(4), [null, e.i(5), (5), e.v(6), ], e.i(7), {[e.k(8)]: (e.v(9)), "x1": e.i(10) + 1, [e.k(11)]: (e.v(12))}], [e.t(13), {}, e.v(14), {key: e.t(15), [e.k(16)]: e.o(17), }], {[e.k(18)]: {"": e.c(19), }, key: null}, ], {key: [e.m(20), ], [e.k(21)]: [e.f(22), {type_: e.v(23), "": null, [e.k(24)]: e.i(25), key: e.m(26)}, (e.t(27))], "b": (e.v(28)), "a-key-that-is-longer-than-the-inline-buffer-of-keys": e.c(29)}, {"\u{e9}": e.i(30), }, e.c(31), e.m(32)}"####, build: s149, is: Sh::Arr(&[Sh::Arr(&[Sh::Leaf(Kind::C, 0), Sh::Arr(&[Sh::Arr(&[Sh::Leaf(Kind::L, 1), Sh::Leaf(Kind::V, 2), Sh::Leaf(Kind::I, 3)])]), Sh::Arr(&[Sh::Leaf(Kind::S, 4), Sh::Arr(&[Sh::Null, Sh::Leaf(Kind::I, 5), Sh::Int(5), Sh::Leaf(Kind::V, 6)]), Sh::Leaf(Kind::I, 7), Sh::Obj(&[(Ky::Made(8), Sh::Leaf(Kind::V, 9)), (Ky::Is("x1"), Sh::Leaf(Kind::Inc, 10)), (Ky::Made(11), Sh::Leaf(Kind::V, 12))])]), Sh::Arr(&[Sh::Leaf(Kind::S, 13), Sh::Obj(&[]), Sh::Leaf(Kind::V, 14), Sh::Obj(&[(Ky::Is("key"), Sh::Leaf(Kind::S, 15)), (Ky::Made(16), Sh::Leaf(Kind::O, 17))])]), Sh::Obj(&[(Ky::Made(18), Sh::Obj(&[(Ky::Is(""), Sh::Leaf(Kind::C, 19))])), (Ky::Is("key"), Sh::Null)])]), Sh::Obj(&[(Ky::Is("key"), Sh::Arr(&[Sh::Leaf(Kind::M, 20)])), (Ky::Made(21), Sh::Arr(&[Sh::Leaf(Kind::F, 22), Sh::Obj(&[(Ky::Is("type_"), Sh::Leaf(Kind::V, 23)), (Ky::Is(""), Sh::Null), (Ky::Made(24), Sh::Leaf(Kind::I, 25)), (Ky::Is("key"), Sh::Leaf(Kind::M, 26))]), Sh::Leaf(Kind::S, 27)])), (Ky::Is("b"), Sh::Leaf(Kind::V, 28)), (Ky::Is("a-key-that-is-longer-than-the-inline-buffer-of-keys"), Sh::Leaf(Kind::C, 29))]), Sh::Obj(&[(Ky::Is("\u{e9}"), Sh::Leaf(Kind::I, 30))]), Sh::Leaf(Kind::C, 31), Sh::Leaf(Kind::M, 32)]) },
    Shape { text: r####"json::array!{{"key": [e.v(0), {"a": e.l(1), object: e.t(2), "a": e.i(3), array: e.f(4), }, ], "b": (e.c(5))}, e.i(6) + 1}"####, build: s150, is: Sh::Arr(&[Sh::Obj(&[(Ky::Is("key"), Sh::Arr(&[Sh::Leaf(Kind::V, 0), Sh::Obj(&[(Ky::Is("a"), Sh::Leaf(Kind::L, 1)), (Ky::Is("object"), Sh::Leaf(Kind::S, 2)), (Ky::Is("a"), Sh::Leaf(Kind::I, 3)), (Ky::Is("array"), Sh::Leaf(Kind::F, 4))])])), (Ky::Is("b"), Sh::Leaf(Kind::C, 5))]), Sh::Leaf(Kind::Inc, 6)]) },
    Shape { text: r####"json::array!({}, [e.t(0), [[e.b(1), e.v(2)]]], e.t(3), {type_: e.i(4) + 1, [e.k(5)]: e.i(6) + 1}, (e.b(7)), [e.c(8), e.m(9), e.v(10)])"####, build: s151, is: Sh::Arr(&[Sh::Obj(&[]), Sh::Arr(&[Sh::Leaf(Kind::S, 0), Sh::Arr(&[Sh::Arr(&[Sh::Leaf(Kind::B, 1), Sh::Leaf(Kind::V, 2)])])]), Sh::Leaf(Kind::S, 3), Sh::Obj(&[(Ky::Is("type_"), Sh::Leaf(Kind::Inc, 4)), (Ky::Made(5), Sh::Leaf(Kind::Inc, 6))]), Sh::Leaf(Kind::B, 7), Sh::Arr(&[Sh::Leaf(Kind::C, 8), Sh::Leaf(Kind::M, 9), Sh::Leaf(Kind::V, 10)])]) },
    Shape { text: r####"json::array![{[e.k(0)]: null, [e.k(1)]: e.c(2), "a-key-that-is-longer-than-the-inline-buffer-of-keys": json::array![e.v(3), [e.o(4)]]}, [e.i(5)], {a: [{[e.k(6)]: (e.b(7))}, e.b(8)], [e.k(9)]: [[(e.i(10) + 1), e.v(11), (e.l(12)), e.v(13), ], e.f(14), {x1: e.i(15) + 1, x1: e.t(16), type_: null}], }]"####, build: s152, is: Sh::Arr(&[Sh::Obj(&[(Ky::Made(0), Sh::Null), (Ky::Made(1), Sh::Leaf(Kind::C, 2)), (Ky::Is("a-key-that-is-longer-than-the-inline-buffer-of-keys"), Sh::Arr(&[Sh::Leaf(Kind::V, 3), Sh::Arr(&[Sh::Leaf(Kind::O, 4)])]))]), Sh::Arr(&[Sh::Leaf(Kind::I, 5)]), Sh::Obj(&[(Ky::Is("a"), Sh::Arr(&[Sh::Obj(&[(Ky::Made(6), Sh::Leaf(Kind::B, 7))]), Sh::Leaf(Kind::B, 8)])), (Ky::Made(9), Sh::Arr(&[Sh::Arr(&[Sh::Leaf(Kind::Inc, 10), Sh::Leaf(Kind::V, 11), Sh::Leaf(Kind::L, 12), Sh::Leaf(Kind::V, 13)]), Sh::Leaf(Kind::F, 14), Sh::Obj(&[(Ky::Is("x1"), Sh::Leaf(Kind::Inc, 15)), (Ky::Is("x1"), Sh::Leaf(Kind::S, 16)), (Ky::Is("type_"), Sh::Null)])]))])]) },
    Shape { text: r####"json::array!({[e.k(0)]: {_u: (e.f(1)), [e.k(2)]: e.o(3), }, [e.k(4)]: e.l(5), foo: (e.i(6) + 1)}, {x1: {}, _u: e.l(7), "key": [1 + 1, json::object!{a: e.i(8), self_: e.c(9), [e.k(10)]: e.f(11), array: e.f(12), [e.k(13)]: e.i(14) + 1}, e.l(15), {self_: e.f(16)}]}, {}, e.v(17), )"####, build: s153, is: Sh::Arr(&[Sh::Obj(&[(Ky::Made(0), Sh::Obj(&[(Ky::Is("_u"), Sh::Leaf(Kind::F, 1)), (Ky::Made(2), Sh::Leaf(Kind::O, 3))])), (Ky::Made(4), Sh::Leaf(Kind::L, 5)), (Ky::Is("foo"), Sh::Leaf(Kind::Inc, 6))]), Sh::Obj(&[(Ky::Is("x1"), Sh::Obj(&[])), (Ky::Is("_u"), Sh::Leaf(Kind::L, 7)), (Ky::Is("key"), Sh::Arr(&[Sh::Int(2), Sh::Obj(&[(Ky::Is("a"), Sh::Leaf(Kind::I, 8)), (Ky::Is("self_"), Sh::Leaf(Kind::C, 9)), (Ky::Made(10), Sh::Leaf(Kind::F, 11)), (Ky::Is("array"), Sh::Leaf(Kind::F, 12)), (Ky::Made(13), Sh::Leaf(Kind::Inc, 14))]), Sh::Leaf(Kind::L, 15), Sh::Obj(&[(Ky::Is("self_"), Sh::Leaf(Kind::F, 16))])]))]), Sh::Obj(&[]), Sh::Leaf(Kind::V, 17)]) },
    Shape { text: r####"json::array!(e.i(0) + 1, [e.c(1), json::object![value: {null: e.i(2), type_: (5), }, "b": {_u: e.v(3), type_: e.b(4)}, "x1": {}, array: {[e.k(5)]: e.i(6) + 1, "a": e.l(7)}, "\u{e9}": json::array![e.i(8), true, ], ], (e.c(9))], (e.v(10)), e.v(11))"####, build: s154, is: Sh::Arr(&[Sh::Leaf(Kind::Inc, 0), Sh::Arr(&[Sh::Leaf(Kind::C, 1), Sh::Obj(&[(Ky::Is("value"), Sh::Obj(&[(Ky::Is("null"), Sh::Leaf(Kind::I, 2)), (Ky::Is("type_"), Sh::Int(5))])), (Ky::Is("b"), Sh::Obj(&[(Ky::Is("_u"), Sh::Leaf(Kind::V, 3)), (Ky::Is("type_"), Sh::Leaf(Kind::B, 4))])), (Ky::Is("x1"), Sh::Obj(&[])), (Ky::Is("array"), Sh::Obj(&[(Ky::Made(5), Sh::Leaf(Kind::Inc, 6)), (Ky::Is("a"), Sh::Leaf(Kind::L, 7))])), (Ky::Is("\u{e9}"), Sh::Arr(&[Sh::Leaf(Kind::I, 8), Sh::Bool(true)]))]), Sh::Leaf(Kind::C, 9)]), Sh::Leaf(Kind::V, 10), Sh::Leaf(Kind::V, 11)]) },
    Shape { text: r####"json::array![e.v(0), (e.c(1)), [], e.f(2)]"####, build: s155, is: Sh::Arr(&[Sh::Leaf(Kind::V, 0), Sh::Leaf(Kind::C, 1), Sh::Arr(&[]), Sh::Leaf(Kind::F, 2)]) },
    Shape { text: r####"json::array![e.c(0)]"####, build: s156, is: Sh::Arr(&[Sh::Leaf(Kind::C, 0)]) },
    Shape { text: r####"json::object!{e.k(0) => e.m(1), e.k(2) => e.l(3), "quo\"te" => json::array![], "quo\"te" => json::object!{"quo\"te": e.b(4)}, }"####, build: s157, is: Sh::Obj(&[(Ky::Made(0), Sh::Leaf(Kind::M, 1)), (Ky::Made(2), Sh::Leaf(Kind::L, 3)), (Ky::Is("quo\"te"), Sh::Arr(&[])), (Ky::Is("quo\"te"), Sh::Obj(&[(Ky::Is("quo\"te"), Sh::Leaf(Kind::B, 4))]))]) },
    Shape { text: r####"json::array!(e.v(0), {[e.k(1)]: e.i(2)}, [e.t(3)], {"key": null}, )"####, build: s158, is: Sh::Arr(&[Sh::Leaf(Kind::V, 0), Sh::Obj(&[(Ky::Made(1), Sh::Leaf(Kind::I, 2))]), Sh::Arr(&[Sh::Leaf(Kind::S, 3)]), Sh::Obj(&[(Ky::Is("key"), Sh::Null)])]) },
    Shape { text: r####"json::object!("b": [json::Null, (e.o(0))], "a": json::array!({"with space": e.v(1), "x1": e.v(2)}, [e.c(3), false, e.m(4), ], (e.v(5))), "b": e.v(6), foo: {[e.k(7)]: (e.c(8)), [e.k(9)]: json::array!{1 + 1, (e.o(10))}}, )"####, build: s159, is: Sh::Obj(&[(Ky::Is("b"), Sh::Arr(&[Sh::Null, Sh::Leaf(Kind::O, 0)])), (Ky::Is("a"), Sh::Arr(&[Sh::Obj(&[(Ky::Is("with space"), Sh::Leaf(Kind::V, 1)), (Ky::Is("x1"), Sh::Leaf(Kind::V, 2))]), Sh::Arr(&[Sh::Leaf(Kind::C, 3), Sh::Bool(false), Sh::Leaf(Kind::M, 4)]), Sh::Leaf(Kind::V, 5)])), (Ky::Is("b"), Sh::Leaf(Kind::V, 6)), (Ky::Is("foo"), Sh::Obj(&[(Ky::Made(7), Sh::Leaf(Kind::C, 8)), (Ky::Made(9), Sh::Arr(&[Sh::Int(2), Sh::Leaf(Kind::O, 10)]))]))]) },
];
