//! polimec-common: prices between tokens of different decimals, the investor credential, migrations.
use crate::mock::*;
use alloc::{string::String, vec, vec::Vec};
use jwt_compact::UntrustedToken;
use parity_scale_codec::Encode;
use polimec_common::{
	credentials::{EnsureInvestor, EnsureOriginWithCredentials, InvestorType, SampleClaims},
	migration_types::{Migration, MigrationInfo, MigrationOrigin, Migrations, ParticipationType},
	Location, ProvideAssetPrice,
};
use sp_runtime::{FixedPointNumber, FixedU128};
use symrt::*;

/// any price, all usual decimals: exact to the sixth decimal, and back
pub fn price() {
	let p = any("price", 0, 1 << 100);
	let ad = [6u8, 10, 8, 12, 18, 2, 0][choice("decimals", 7) as usize];
	Prices::set(1, FixedU128::from_inner(p));
	let a = Prices::get_decimals_aware_price(1, 6, ad);
	let micro = p / 1_000_000_000_000; // in millionths of a dollar
	let want = micro * 10u128.pow(18 - ad as u32);
	check(a == Some(FixedU128::from_inner(want)), "C01: the price per smallest unit is the price scaled by the decimals of dollar and token");
	let back = Prices::convert_back_to_normal_price(FixedU128::from_inner(want), 6, ad);
	check(back == Some(FixedU128::from_inner(p - p % 1_000_000_000_000)), "C01: converting back gives the price, to the millionth of a dollar");
	// a whole token is worth the price
	let one = FixedU128::from_inner(want).saturating_mul_int(10u128.pow(ad as u32));
	check(one == micro, "C01: one whole token converts to its price in dollar units");
	reach("converted");
	observe("aware", want);
}
/// no price, or decimals out of range, give no price
pub fn price_none() {
	let p = any("price", 0, u128::MAX);
	let ad = any("decimals", 0, 255) as u8;
	check(Prices::get_decimals_aware_price(1, 6, ad).is_none(), "C01: no price without an oracle price");
	if ad > 38 {
		check(Prices::calculate_decimals_aware_price(FixedU128::from_inner(p), 6, ad).is_none(), "C01: unrepresentable decimals give no price");
		reach("wide");
	}
	reach("none");
}

pub fn investor() {
	let now = any("now", 0, (1 << 64) - 1) as u64;
	frame_support::storage::unhashed::put(&frame_support::storage::storage_prefix(b"Timestamp", b"Now"), &now);
	let signer = any("signer", 0, u128::MAX);
	let subject = any("subject", 0, u128::MAX);
	let exp = any("expiry", 0, (1 << 64) - 1) as u64 as i64;
	let has_exp = flag("has expiry");
	let k = any("key byte", 5, 6) as u8;
	let tk = any("token key byte", 5, 6) as u8;
	let (mut vk, mut tkey) = ([7u8; 32], [7u8; 32]);
	vk[31] = k;
	tkey[31] = tk;
	let ty = [InvestorType::Retail, InvestorType::Professional, InvestorType::Institutional][choice("type", 3) as usize].clone();
	let did: Vec<u8> = vec![any("did", 0, 255) as u8, 9];
	let cid: Vec<u8> = vec![1, any("cid", 0, 255) as u8];
	let claims = SampleClaims::<u128> {
		subject,
		issuer: String::new(),
		ipfs_cid: cid.clone().try_into().unwrap(),
		investor_type: ty.clone(),
		did: did.clone().try_into().unwrap(),
	};
	let token = UntrustedToken { key: tkey, expiration: if has_exp { Some(exp) } else { None }, claims: claims.encode() };
	let (origin, signed) = match choice("origin", 3) {
		0 => (RuntimeOrigin::signed(signer), true),
		1 => (RuntimeOrigin::root(), false),
		_ => (RuntimeOrigin::none(), false),
	};
	let r = <EnsureInvestor<Test> as EnsureOriginWithCredentials<RuntimeOrigin>>::ensure_origin(origin, &token, vk);
	let good = signed & (subject == signer) & (k == tk) & has_exp & (exp >= 0) & (exp as u64 >= now);
	match r {
		Ok((who, d, t, c)) => {
			check(good, "C02: only the unexpired credential of the signer, signed with the key, is accepted");
			check(who == signer && d.into_inner() == did && t == ty && c.into_inner() == cid, "C02: what is accepted is what the credential says");
			reach("accepted");
		},
		Err(_) => {
			check(!good, "C02: a valid credential of the signer is accepted");
			reach("refused");
		},
	}
}

pub fn migrations() {
	let n = choice("n", 4) as usize;
	let mut m = Migrations::new();
	let (mut sum, mut max) = (0u128, 0u64);
	let mut l = vec![];
	for i in 0..n {
		let a = any("amount", 0, 1 << 120);
		let t = any("time", 0, (1 << 64) - 1) as u64;
		let o = MigrationOrigin { user: Location::here(), id: i as u32, participation_type: ParticipationType::Bid };
		let x = Migration::new(o, MigrationInfo::from((a, t)));
		l.push(x.clone());
		m.push(x);
		sum += a;
		if t > max {
			max = t
		}
	}
	check(m.total_ct_amount() == sum, "C03: the migrated total is the sum of the migrations");
	check(m.biggest_vesting_time() == max, "C03: the vesting time of a batch is its longest");
	check(m.len() == n && m.is_empty() == (n == 0) && m.clone().inner() == l, "C03: nothing is lost or reordered");
	reach("summed");
}
