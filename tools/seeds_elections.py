import sys; sys.path.insert(0,'/verif/tools')
from mkseed import seed
P="elections-phragmen"; L="lib.rs"
def demo(body): return "mod vp_demo {\n\tuse super::*;\n\t#[test]\n\tfn vp_demo_it() {\n" + body + "\n\t}\n}\n"
seed("elec-borda-len","E01",P,[(L,'''							((T::MaxVotesPerVoter::get() as usize - vote_position) as u32, who)
''','''							((votes.len() - vote_position) as u32, who)
''')],demo('''
		ExtBuilder::default().build_and_execute(|| {
			assert_ok!(submit_candidacy(RuntimeOrigin::signed(3)));
			assert_ok!(submit_candidacy(RuntimeOrigin::signed(4)));
			// 3 has 30 * 16, 4 has 20 * 16: counted by list length 4 would win with 20 * 2
			assert_ok!(vote(RuntimeOrigin::signed(3), vec![3], 30));
			assert_ok!(vote(RuntimeOrigin::signed(2), vec![4, 1], 20));
			System::set_block_number(5);
			Elections::on_initialize(System::block_number());
			assert_eq!(members_ids(), vec![3, 4]);
			assert_eq!(PRIME.with(|p| *p.borrow()), Some(3));
		});'''),"voters list different numbers of targets","the prime is not the member with the highest Borda count")
seed("elec-slash-bond","E02",P,[(L,'''							let (imbalance, _) = T::Currency::slash(&HoldReason::Candidacy.into(), c, *d);
''','''							let bond = T::CandidacyBond::get();
							let (imbalance, _) = T::Currency::slash(&HoldReason::Candidacy.into(), c, bond);
''')],demo('''
		ExtBuilder::default().build_and_execute(|| {
			assert_ok!(submit_candidacy(RuntimeOrigin::signed(3)));
			assert_ok!(submit_candidacy(RuntimeOrigin::signed(5)));
			assert_eq!(balances(&3), (27, 3));
			CANDIDACY_BOND.with(|v| *v.borrow_mut() = 1);
			assert_ok!(vote(RuntimeOrigin::signed(5), vec![5], 50));
			System::set_block_number(5);
			Elections::on_initialize(System::block_number());
			assert_eq!(members_ids(), vec![5]);
			assert_eq!(balances(&3), (27, 0));
		});'''),"the candidacy bond changes between standing and losing","losers keep part of their deposit on hold for ever")
seed("elec-relock-low","E03",P,[(L,'''				ensure!(value >= voter.stake, Error::<T>::LowBalance);
''','''				ensure!(value >= voter.stake.min(T::Currency::total_balance(&who)), Error::<T>::LowBalance);
''')],demo('''
		ExtBuilder::default().build_and_execute(|| {
			assert_ok!(submit_candidacy(RuntimeOrigin::signed(5)));
			assert_ok!(vote(RuntimeOrigin::signed(2), vec![5], 20));
			let _ = <Balances as frame_support::traits::Currency<u64>>::slash(&2, 8);
			assert!(Balances::free_balance(&2) < 20);
			assert!(vote(RuntimeOrigin::signed(2), vec![5], 15).is_err());
			assert_eq!(locked_stake_of(&2), 20);
		});'''),"a locked voter whose balance was slashed below its stake votes again","the stake of a locked voter is lowered")
seed("elec-purge-limit","E04",P,[(L,'''				.take(num_voters as usize)
				.filter(|(_, x)| Self::is_defunct_voter(&x.votes))
''','''				.filter(|(_, x)| Self::is_defunct_voter(&x.votes))
				.take(num_voters as usize)
''')],demo('''
		ExtBuilder::default().build_and_execute(|| {
			assert_ok!(submit_candidacy(RuntimeOrigin::signed(5)));
			for i in 1..5u64 {
				assert_ok!(vote(RuntimeOrigin::signed(i), vec![5], 8));
			}
			let third = Voting::<Test>::iter().nth(2).unwrap();
			Voting::<Test>::insert(third.0, Voter { votes: vec![77], stake: third.1.stake, lockup_till: 0 });
			// only the first two entries may be looked at
			assert_ok!(Elections::clean_defunct_voters(RuntimeOrigin::root(), 2, 2));
			assert!(Voting::<Test>::contains_key(third.0));
		});'''),"a defunct voter lies beyond the first num_voters entries","more voters are examined and purged than allowed")
seed("elec-runner-swap","E05",P,[(L,'''						let SeatHolder { deposit, .. } = runners_up.remove(index);
''','''						let SeatHolder { deposit, .. } = runners_up.swap_remove(index);
''')],demo('''
		ExtBuilder::default().desired_members(1).desired_runners_up(3).build_and_execute(|| {
			for i in 2..6u64 {
				assert_ok!(submit_candidacy(RuntimeOrigin::signed(i)));
				assert_ok!(vote(RuntimeOrigin::signed(i), vec![i], i * 8));
			}
			System::set_block_number(5);
			Elections::on_initialize(System::block_number());
			assert_eq!(members_ids(), vec![5]);
			assert_eq!(runners_up_ids(), vec![2, 3, 4]);
			assert_ok!(Elections::renounce_candidacy(RuntimeOrigin::signed(2), Renouncing::RunnerUp));
			assert_eq!(runners_up_ids(), vec![3, 4]);
			assert_ok!(Elections::remove_member(RuntimeOrigin::root(), 5, false, false));
			assert_eq!(members_ids(), vec![4]);
		});'''),"a low-ranked of at least three runners-up renounces","the ranking of the others is shuffled, so a worse one is promoted")
seed("elec-candidate-swap","E06",P,[(L,'''						let (_, deposit) = candidates.remove(index);
''','''						let (_, deposit) = candidates.swap_remove(index);
''')],demo('''
		ExtBuilder::default().build_and_execute(|| {
			for i in 2..6u64 {
				assert_ok!(submit_candidacy(RuntimeOrigin::signed(i)));
			}
			assert_ok!(Elections::renounce_candidacy(RuntimeOrigin::signed(2), Renouncing::Candidate(4)));
			assert_eq!(candidate_ids(), vec![3, 4, 5]);
			assert!(submit_candidacy(RuntimeOrigin::signed(5)).is_err());
		});'''),"a candidate other than the last two renounces","the candidates are no longer sorted, so one can stand twice")
