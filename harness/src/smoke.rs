use crate::mock::*;
use symrt::*;
use alloc::vec::Vec;

pub fn s1() {
	let a = any("a", 0, 1000) as u64;
	let b = any("b", 0, 1000) as u64;
	assume(a > b);
	let mut v: Vec<u64> = Vec::new();
	v.push(a);
	v.push(b);
	v.sort();
	check(v[0] == b, "sorted");
	observe("v0", v[0] as u128);
	check(a + b < 1999 , "sum");
	reach("end");
}
pub fn s2() {
	let a = any("a", 0, 1000) as u64;
	let b = any("b", 0, 1000) as u64;
	check(a * b != 323, "mul");
	check(a * b <= 1000000, "mul2");
}
pub fn s3() {
	set_now(5);
	let a = any("a", 1, 1 << 90);
	use frame_support::traits::fungible::*;
	let r = <Balances as Mutate<u64>>::mint_into(&1, a);
	check(r.is_ok(), "mint");
	let t = any("t", 1, 1 << 90);
	let r = <Balances as Mutate<u64>>::transfer(&1, &2, t, frame_support::traits::tokens::Preservation::Expendable);
	if r.is_ok() {
		reach("ok");
		check(t <= a, "t<=a");
		observe("b1", Balances::free_balance(&1));
	} else {
		reach("err");
		check(t > a, "t>a");
	}
	check(Balances::free_balance(&1) + Balances::free_balance(&2) == a, "sum");
	check(Balances::total_issuance() == a, "ti");
}
