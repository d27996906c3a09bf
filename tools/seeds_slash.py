import sys; sys.path.insert(0,'/verif/tools')
from mkseed import seed
P="on-slash-vesting"; L="lib.rs"
def demo(body): return "mod vp_demo {\n\tuse super::*;\n\t#[test]\n\tfn vp_demo_it() {\n\t\tExtBuilder { existential_deposit: 1 }.build().execute_with(|| {" + body + "\n\t\t});\n\t}\n}\n"
seed("slash-end-floor","S01",P,[(L,'''				let end_block = schedule.ending_block_as_balance::<T::BlockNumberToBalance>();
''','''				let full_blocks = schedule.locked().checked_div(schedule.per_block()).unwrap_or(1).max(1);
				let end_block = T::BlockNumberToBalance::convert(schedule.starting_block()).saturating_add(full_blocks);
''')],demo('''
			<PalletBalances as Mutate<u64>>::set_balance(&1, 1000);
			<pallet_vesting::Vesting<TestRuntime>>::insert(1, BoundedVec::try_from(vec![VestingInfo::new(105, 10, 1)]).unwrap());
			PalletSystem::set_block_number(2);
			<PalletVesting as OnSlash<u64, u128>>::on_slash(&1, 5);
			// 90 over the 10 blocks that remain
			assert_eq!(<pallet_vesting::Vesting<TestRuntime>>::get(1).unwrap().to_vec(), vec![VestingInfo::new(90, 9, 2)]);'''),
 "a schedule whose rate does not divide its amount","the rest vests faster and the schedule ends a block early")
seed("slash-stale-lock","S02",P,[(L,'''			<Vesting<T>>::set(account, Some(new_vesting_schedules));
''','''			if new_vesting_schedules.is_empty() {
				<Vesting<T>>::remove(account);
				return;
			}
			<Vesting<T>>::set(account, Some(new_vesting_schedules));
''')],demo('''
			<PalletBalances as Mutate<u64>>::set_balance(&1, 0);
			<PalletBalances as Mutate<u64>>::set_balance(&2, 300);
			assert_ok!(PalletVesting::vested_transfer(RuntimeOrigin::signed(2), 1, VestingInfo::new(100, 10, 1)));
			<PalletBalances as Mutate<u64>>::mint_into(&1, 50).unwrap();
			<PalletVesting as OnSlash<u64, u128>>::on_slash(&1, 100);
			assert_eq!(<pallet_vesting::Vesting<TestRuntime>>::get(1), None);
			assert_eq!(PalletBalances::usable_balance(1), 150);'''),
 "a slash that leaves no schedule at all","the vesting lock outlives its schedules for ever")
