from mkseedfin import seed
T = "pallets/linear-release/src/types.rs"; I = "pallets/linear-release/src/impls.rs"
PF = "pallets/proxy-bonding/src/functions.rs"; PL = "pallets/proxy-bonding/src/lib.rs"
C = "polimec-common/common/src/lib.rs"; CR = "polimec-common/common/src/credentials/mod.rs"
LRU = '''
	use frame_support::BoundedVec;
	use pallet_linear_release::{Vesting, VestingInfo};
	use polimec_common::ReleaseSchedule;
'''
seed("lr-end-round", "L01", [(T, """				if (self.locked % self.per_block()).is_zero() {
					Zero::zero()
				} else {""", """				if (self.locked % self.per_block()) < self.per_block() / 2u32.into() {
					Zero::zero()
				} else {""")], LRU + '''
	#[test]
	fn vp_demo() {
		ext(|| {
			let s = VestingInfo::<u128, u64>::new(103, 10, 5);
			let e = s.ending_block_as_balance::<sp_runtime::traits::ConvertInto>() as u64;
			assert_eq!(s.locked_at::<sp_runtime::traits::ConvertInto>(e), 0);
			let _ = (Vesting::<Test>::get(1, Reason::A), <Release as ReleaseSchedule<u128, Reason>>::vesting_balance(&1, Reason::A));
			let _: Option<BoundedVec<u8, frame_support::traits::ConstU32<1>>> = None;
		});
	}
''', "an amount that is not a multiple of the rate, with a remainder below half of it", "the end of a schedule is reported one block early, so a merge drops what it still locks")
seed("lr-release-once", "L02", [(I, """			let already_held = T::Currency::balance_on_hold(&reason, who);
			let to_release = already_held.saturating_sub(total_held_now);""", """			let already_held = T::Currency::balance_on_hold(&reason, who);
			let scheduled = Self::total_scheduled_amount(who, reason).unwrap_or(already_held);
			let to_release = scheduled.saturating_sub(total_held_now);""")], LRU + '''
	#[test]
	fn vp_demo() {
		ext(|| {
			fund(1, 1000);
			hold(1, Reason::A, 100);
			let l: BoundedVec<_, _> = vec![VestingInfo::new(100, 10, 0)].try_into().unwrap();
			Vesting::<Test>::insert(1, Reason::A, l);
			for (t, left) in [(2, 80), (3, 70), (7, 30)] {
				set_now(t);
				let _ = <Release as ReleaseSchedule<u128, Reason>>::vest(1, Reason::A);
				assert_eq!(held(1, Reason::A), left);
			}
		});
	}
''', "a second vest of the same schedule, after part of it was already released", "earlier releases are not taken into account, so later vests release too much")
seed("lr-merge-start", "L03", [(I, "let starting_block = now.max(schedule1.starting_block()).max(schedule2.starting_block());", "let starting_block = schedule1.starting_block().max(schedule2.starting_block()).max(now.saturating_sub(One::one()));")], LRU + '''
	#[test]
	fn vp_demo() {
		ext(|| {
			set_now(10);
			let (a, b) = (VestingInfo::new(1000, 10, 5), VestingInfo::new(500, 10, 8));
			let m = Release::merge_vesting_info(10, a, b).unwrap();
			let l = |s: VestingInfo<u128, u64>| s.locked_at::<sp_runtime::traits::ConvertInto>(10);
			assert_eq!(l(m), l(a) + l(b));
			let _ = (Vesting::<Test>::get(1, Reason::A), <Release as ReleaseSchedule<u128, Reason>>::vesting_balance(&1, Reason::A));
			let _: Option<BoundedVec<u8, frame_support::traits::ConstU32<1>>> = None;
		});
	}
''', "two schedules that have both already started", "the merged schedule starts one block in the past and releases one block's rate too early")
seed("lr-full-per-account", "L04", [(I, """			(Vesting::<T>::decode_len(who, reason).unwrap_or_default() as u32) < T::MAX_VESTING_SCHEDULES,""",
 """			(Vesting::<T>::iter_prefix_values(who).map(|v| v.len() as u32).sum::<u32>()) < T::MAX_VESTING_SCHEDULES,""")], LRU + '''
	#[test]
	fn vp_demo() {
		ext(|| {
			let l: BoundedVec<_, _> = vec![VestingInfo::new(100, 10, 0); 3].try_into().unwrap();
			Vesting::<Test>::insert(1, Reason::A, l);
			assert!(Release::can_add_release_schedule(&1, 10, 1, 0, Reason::B).is_ok());
		});
	}
''', "an account with the maximum of schedules under another reason", "the limit counts the schedules of all reasons together")
seed("pb-ed-always", "B01", [(PF, "if T::BondingToken::balance(&bonding_account) < existential_deposit {", "if T::BondingToken::balance(&bonding_account) <= existential_deposit {")], '''
	#[test]
	fn vp_demo() {
		ext(|| {
			Ed::set(100);
			Prices::set(3344, sp_runtime::FixedU128::from_u32(1));
			Prices::set(1, sp_runtime::FixedU128::from_u32(1));
			fund(90, 1_000_000);
			Assets::give(1, 1, 1_000_000);
			for _ in 0..2 {
				Proxy::bond_on_behalf_of(0, 1, 1000, 1, Reason::B).unwrap();
			}
			assert_eq!(total(90), 1_000_000 - 2 * 1000 - 100);
		});
	}
''', "a second bond of the same project, when the sub-account holds exactly the existential deposit", "the treasury pays the existential deposit again with every other bond")
seed("pb-fee-early", "B02", [(PL, "ensure!(release_type != ReleaseType::Refunded, Error::<T>::FeeToRecipientDisallowed);",
 "ensure!(release_type != ReleaseType::Refunded || T::FeeToken::balance(fee_asset, &fee_recipient) == Default::default(), Error::<T>::FeeToRecipientDisallowed);")], '''
	#[test]
	fn vp_demo() {
		ext(|| {
			Proxy::set_release_type(0, Reason::B, pallet_proxy_bonding::ReleaseType::Refunded);
			Assets::give(1, Proxy::get_bonding_account(0), 50);
			assert!(Proxy::transfer_fees_to_recipient(RuntimeOrigin::signed(7), 0, Reason::B, 1).is_err());
			assert_eq!(Assets::of(1, Proxy::get_bonding_account(0)), 50);
		});
	}
''', "a refunding project and a fee recipient that holds none of the asset yet", "refundable fees can be sent to the fee recipient")
seed("common-expiry-sign", "C02", [(CR, "let timestamp: u64 = date_time.timestamp_millis().try_into().map_err(|_| origin.clone())?;", "let timestamp: u64 = date_time.timestamp_millis() as u64;")], '''
	use polimec_common::credentials::*;
	use parity_scale_codec::Encode;
	#[test]
	fn vp_demo() {
		ext(|| {
			let c = SampleClaims::<u128> { subject: 5, issuer: "".into(), ipfs_cid: vec![1].try_into().unwrap(), investor_type: InvestorType::Retail, did: vec![2].try_into().unwrap() };
			let t = UntrustedToken { key: [1; 32], expiration: Some(-5), claims: c.encode() };
			assert!(<EnsureInvestor<Test> as EnsureOriginWithCredentials<RuntimeOrigin>>::ensure_origin(RuntimeOrigin::signed(5), &t, [1; 32]).is_err());
		});
	}
''', "a credential with an expiry before 1970", "a negative expiry wraps to a far future, so the credential never expires")
seed("common-price-back", "C01", [(C, "if usd_decimals > asset_decimals {", "if usd_decimals >= asset_decimals.saturating_sub(2) {")], '''
	use polimec_common::ProvideAssetPrice;
	#[test]
	fn vp_demo() {
		let p = sp_runtime::FixedU128::from_rational(5, 2);
		for d in [2u8, 6, 8, 10, 18] {
			let a = Prices::calculate_decimals_aware_price(p, 6, d).unwrap();
			assert_eq!(Prices::convert_back_to_normal_price(a, 6, d), Some(p), "{d}");
		}
	}
''', "an asset with eight decimals", "converting the price of an asset with 8 decimals back divides instead of multiplying")
