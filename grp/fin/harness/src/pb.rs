//! proxy-bonding: bonding from the treasury for a fee, and where the money may go afterwards.
use crate::mock::*;
use pallet_proxy_bonding::{ReleaseType, Releases};
use sp_runtime::{traits::AccountIdConversion, FixedU128, Perbill};
use symrt::*;

const U: u128 = 1_000_000_000_000_000_000;
/// any of several price pairs, decimals and percentages; returns (plmc price, asset price, decimals, per billion)
fn market(n: u32) -> (u128, u128, u8, u128) {
	let (p, q, d, f) = [
		(U, U, 10u8, 1_000_000_000u32),
		(U / 2, U, 6, 50_000_000),
		(8_400_000_000_000_000_000, 65_000_123_400_000_000_000_000, 8, 13_370_000),
		(U, 4_500_000_000_000_000_000, 10, 1_000_000_000),
		(123_456_000_000_000_000, 999_000_000_000_000_000, 6, 1),
		(3 * U, 7 * U, 18, 100_000_000),
	][choice("market", n) as usize];
	Prices::set(3344, FixedU128::from_inner(p));
	Prices::set(1, FixedU128::from_inner(q));
	Assets::set_decimals(1, d);
	FeePercent::set(Perbill::from_parts(f));
	(p, q, d, f as u128)
}
/// the fee: the value of the bond in millionths of a dollar (PLMC has ten decimals), times the percentage, in the asset
fn spec_fee((p, q, d, f): (u128, u128, u8, u128), bond: u128) -> u128 {
	let micro = 1_000_000_000_000;
	let usd = bond * (p / micro * 100_000_000) / U;
	// Perbill multiplication rounds to the nearest, halves down
	let fee = usd / 1_000_000_000 * f + (usd % 1_000_000_000 * f + 499_999_999) / 1_000_000_000;
	// the price of the smallest unit, and its reciprocal, as 18 digit fixed point numbers
	let price = q / micro * 10u128.pow(18 - d as u32);
	let r = (U * U + price / 2) / price;
	let (h, l) = (r / U, r % U);
	fee * h + (fee / U) * l + (fee % U) * l / U
}
pub fn acc(path: u32) -> u128 {
	frame_support::PalletId(*b"plmc/prx").into_sub_account_truncating(path.wrapping_add(1))
}
fn path() -> u32 {
	[0, 5, u32::MAX - 1][choice("path", 3) as usize]
}

pub fn fee() {
	let m = market(6);
	let bond = any("bond", 0, 1 << 64);
	let f = Proxy::calculate_fee(bond, 1);
	check(f == Ok(spec_fee(m, bond)), "B01: the fee is the percentage of the bond's dollar value, in the fee asset");
	check(Proxy::calculate_fee(bond, 2).is_err(), "B01: without a price there is no fee");
	reach("fee");
	if let Ok(x) = f {
		observe("fee", x)
	}
}
pub fn bond() {
	let m = market(1);
	let p = path();
	let b = any("bond", 0, 1 << 64);
	let user = any("user's asset", 0, 1 << 100);
	let tre = any("treasury", 1, 1 << 100);
	let sub = any("sub-account", 0, 1 << 80);
	let ed = any("ed", 1, 1 << 40);
	let fees = any("earlier fees", 0, 1 << 80);
	Ed::set(ed);
	assume(tre >= ed && (sub == 0 || sub >= ed));
	fund(90, tre);
	if sub > 0 {
		fund(acc(p), sub);
	}
	Assets::give(1, 1, user);
	Assets::give(1, acc(p), fees);
	let f = spec_fee(m, b);
	let top = if sub < ed { ed } else { 0 };
	let r = tx(|| Proxy::bond_on_behalf_of(p, 1, b, 1, Reason::B));
	// the user keeps an asset account, the treasury its own
	let can = f < user && tre >= ed + top + b;
	if r.is_ok() {
		check(can || f == 0 || b == 0, "B01: a bond is only made when user and treasury can pay");
		check(Assets::of(1, 1) == user - f && Assets::of(1, acc(p)) == fees + f, "B01: the fee goes from the user to the sub-account");
		check(held(acc(p), Reason::B) == b, "B01: exactly the bond is held, under the reason given");
		check(free(acc(p)) == sub + top, "B01: the sub-account keeps just its existential deposit free");
		check(free(90) == tre - b - top, "B01: the treasury pays the bond and the existential deposit, nothing more");
		check(total(1) == 0, "B01: the user bonds nothing of their own");
		reach("bonded");
	} else {
		check(!can, "B01: a bond that user and treasury can pay is made");
		check(Assets::of(1, 1) == user && total(90) == tre && total(acc(p)) == sub, "B01: a refused bond moves nothing");
		reach("refused");
	}
}
pub fn refund() {
	let m = market(2);
	let p = path();
	let b = any("bond", 0, 1 << 64);
	let user = any("user's asset", 0, 1 << 100);
	let fees = any("fees", 0, 1 << 100);
	Assets::give(1, 1, user);
	Assets::give(1, acc(p), fees);
	let f = spec_fee(m, b);
	let r = tx(|| Proxy::refund_fee(p, &1, b, 1));
	if r.is_ok() {
		check(fees >= f, "B02: no more is refunded than is there");
		check(Assets::of(1, 1) == user + f && Assets::of(1, acc(p)) == fees - f, "B02: a refund is exactly the fee");
		reach("refunded");
	} else {
		check(fees < f, "B02: a fee that is there is refunded");
		check(Assets::of(1, 1) == user && Assets::of(1, acc(p)) == fees, "B02: a failed refund moves nothing");
		reach("refused");
	}
}
/// the release rule of this path and reason, and others that must not matter
fn rule(p: u32) -> (u32, u64) {
	let k = choice("release", 3);
	let b = any("release block", 0, 1 << 40) as u64;
	Proxy::set_release_type(if p == 5 { 0 } else { 5 }, Reason::B, ReleaseType::Refunded);
	Proxy::set_release_type(p, Reason::A, ReleaseType::Refunded);
	if k > 0 {
		Proxy::set_release_type(p, Reason::B, if k == 1 { ReleaseType::Locked(b) } else { ReleaseType::Refunded });
		check(Releases::<Test>::get(p, Reason::B).is_some(), "B02: the release rule is recorded");
	}
	(k, b)
}
pub fn release() {
	let p = path();
	let now = any("now", 0, 1 << 40) as u64;
	set_now(now);
	let ed = 5;
	Ed::set(ed);
	let (h, a) = (any("held", 0, 1 << 90), any("other hold", 0, 1 << 90));
	let t = any("treasury", 5, 1 << 90);
	fund(90, t);
	fund(acc(p), h + a + ed);
	hold(acc(p), Reason::B, h);
	hold(acc(p), Reason::A, a);
	let o = acc(if p == 5 { 0 } else { 5 });
	fund(o, 100);
	hold(o, Reason::B, 50);
	let (k, b) = rule(p);
	let signed = flag("signed");
	let origin = if signed { RuntimeOrigin::signed(7) } else { RuntimeOrigin::none() };
	let r = tx(|| Proxy::transfer_bonds_back_to_treasury(origin, p, Reason::B));
	let may = signed && (k == 2 || (k == 1 && b <= now));
	if r.is_ok() {
		check(may, "B02: bonds are released only from the release block, or when the project refunds");
		check(held(acc(p), Reason::B) == 0 && free(90) == t + h, "B02: the whole bond goes back to the treasury");
		check(held(acc(p), Reason::A) == a, "B02: bonds of other reasons stay");
		reach("released");
	} else {
		check(!may, "B02: anybody can send due bonds back to the treasury");
		check(held(acc(p), Reason::B) == h && held(acc(p), Reason::A) == a && free(90) == t, "B02: bonds that are not due stay");
		reach("kept");
	}
	check(held(o, Reason::B) == 50, "B02: other sub-accounts keep their bonds");
}
pub fn fees() {
	let p = path();
	let fees = any("fees", 1, 1 << 100);
	let had = any("recipient", 0, 1 << 100);
	Assets::give(1, acc(p), fees);
	Assets::give(1, 91, had);
	Assets::give(2, acc(p), 77);
	let o = acc(if p == 5 { 0 } else { 5 });
	Assets::give(1, o, 30);
	set_now(any("now", 0, 1 << 40) as u64);
	let (k, _) = rule(p);
	let signed = flag("signed");
	let origin = if signed { RuntimeOrigin::signed(7) } else { RuntimeOrigin::none() };
	let r = tx(|| Proxy::transfer_fees_to_recipient(origin, p, Reason::B, 1));
	let may = signed && k == 1;
	if r.is_ok() {
		check(may, "B02: fees go to the recipient only when the bonds are locked, not when they are refunded");
		check(Assets::of(1, acc(p)) == 0 && Assets::of(1, 91) == had + fees, "B02: all the fees go to the recipient");
		reach("paid");
	} else {
		check(!may, "B02: anybody can send earned fees to the recipient");
		check(Assets::of(1, acc(p)) == fees && Assets::of(1, 91) == had, "B02: refundable fees stay");
		reach("kept");
	}
	check(Assets::of(2, acc(p)) == 77 && Assets::of(1, o) == 30, "B02: nothing else moves");
}
