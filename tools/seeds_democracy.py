import sys; sys.path.insert(0,'/verif/tools')
from mkseed import seed
L="lib.rs"
seed("dem-tally-switch","D01","democracy",[(L,'''						status.tally.remove(votes[i].1).ok_or(ArithmeticError::Underflow)?;
						if let Some(approve) = votes[i].1.as_standard() {
							status.tally.reduce(approve, *delegations);
						}
						votes[i].1 = vote;
''','''						let old = sp_std::mem::replace(&mut votes[i].1, vote);
						status.tally.remove(old).ok_or(ArithmeticError::Underflow)?;
						if let Some(approve) = votes[i].1.as_standard() {
							status.tally.reduce(approve, *delegations);
						}
''')],'''
mod vp_demo {
	use super::*;
	#[test]
	fn vp_demo_switch() {
		new_test_ext().execute_with(|| {
			let r = begin_referendum();
			assert_ok!(Democracy::delegate(RuntimeOrigin::signed(2), 5, Conviction::Locked1x, 20));
			assert_ok!(Democracy::vote(RuntimeOrigin::signed(5), r, AccountVote::Standard { vote: Vote { aye: true, conviction: Conviction::Locked1x }, balance: 50 }));
			assert_eq!(tally(r), Tally { ayes: 70, nays: 0, turnout: 70 });
			assert_ok!(Democracy::vote(RuntimeOrigin::signed(5), r, AccountVote::Standard { vote: Vote { aye: false, conviction: Conviction::Locked1x }, balance: 50 }));
			assert_eq!(tally(r), Tally { ayes: 0, nays: 70, turnout: 70 });
		});
	}
}
''',"an account that others delegate to changes the direction of its vote on a running referendum","the delegated votes stay counted on the old side")
seed("dem-blacklist-slash","D05","democracy",[(L,'''					let (prop_index, ..) = props.remove(index);
					if let Some((whos, amount)) = DepositOf::<T>::take(prop_index) {
						for who in whos.into_iter() {
''','''					let (prop_index, ..) = props.remove(index);
					if let Some((whos, amount)) = DepositOf::<T>::take(prop_index) {
						let mut whos = whos.into_inner();
						whos.dedup();
						for who in whos.into_iter() {
''')],'''
mod vp_demo {
	use super::*;
	#[test]
	fn vp_demo_slash() {
		new_test_ext().execute_with(|| {
			assert_ok!(propose_set_balance(1, 2, 3));
			assert_ok!(Democracy::second(RuntimeOrigin::signed(1), 0));
			assert_ok!(Democracy::second(RuntimeOrigin::signed(2), 0));
			assert_eq!(Balances::reserved_balance(1), 6);
			assert_ok!(Democracy::blacklist(RuntimeOrigin::root(), set_balance_proposal(2).hash(), None));
			assert_eq!(Balances::reserved_balance(1), 0);
			assert_eq!(Balances::reserved_balance(2), 0);
			assert_eq!(Balances::total_balance(&1), 4);
		});
	}
}
''',"an account backs the same proposal several times in a row and the proposal is blacklisted","only one of its deposits is slashed; the others stay on hold for ever")
seed("dem-veto-order","D07","democracy",[(L,'''			existing_vetoers.try_insert(insert_position, who.clone()).map_err(|_| Error::<T>::TooMany)?;
''','''			let insert_position = insert_position.max(existing_vetoers.len());
			existing_vetoers.try_insert(insert_position, who.clone()).map_err(|_| Error::<T>::TooMany)?;
''')],'''
mod vp_demo {
	use super::*;
	#[test]
	fn vp_demo_veto() {
		new_test_ext().execute_with(|| {
			let h = set_balance_proposal(2).hash();
			let mut now = 0;
			for (who, ok) in [(4u64, true), (3, true), (4, false), (3, false)] {
				now += 3;
				System::set_block_number(now);
				NextExternal::<Test>::kill();
				assert_ok!(Democracy::external_propose(RuntimeOrigin::signed(2), set_balance_proposal(2)));
				assert_eq!(Democracy::veto_external(RuntimeOrigin::signed(who), h).is_ok(), ok);
			}
		});
	}
}
''',"two vetoers veto the same proposal, the one with the greater account id first, and one tries again","the list of vetoers is no longer sorted, so an account can veto the same proposal again")
seed("dem-launch-metadata","D09","democracy",[(L,'''				Self::transfer_metadata(MetadataOwner::Proposal(prop_index), MetadataOwner::Referendum(ref_index))
''','''				Self::transfer_metadata(
					MetadataOwner::Proposal(winner_index as PropIndex),
					MetadataOwner::Referendum(ref_index),
				)
''')],'''
mod vp_demo {
	use super::*;
	#[test]
	fn vp_demo_metadata() {
		new_test_ext().execute_with(|| {
			System::set_block_number(0);
			assert_ok!(propose_set_balance(1, 2, 2));
			assert_ok!(propose_set_balance(1, 4, 5));
			fast_forward_to(2);
			// proposal 1 was launched; proposal 0 is alone in the queue now
			assert_ok!(propose_set_balance(2, 6, 1));
			let h = note_preimage(1);
			assert_ok!(Democracy::set_metadata(RuntimeOrigin::signed(2), MetadataOwner::Proposal(2), Some(h)));
			assert_ok!(Democracy::cancel_proposal(RuntimeOrigin::root(), 0));
			fast_forward_to(4);
			assert_eq!(Democracy::referendum_count(), 2);
			assert_eq!(MetadataOf::<Test>::get(MetadataOwner::Referendum(1)), Some(h));
		});
	}
}
''',"a public proposal with metadata whose place in the queue differs from its index is launched","its metadata stays behind (or another proposal's is taken)")
seed("dem-redelegate-loss","D10","democracy",[(L,'''					let unlock_block = now.saturating_add(T::VoteLockingPeriod::get().saturating_mul(lock_periods));
					prior.accumulate(unlock_block, balance);
					voting.set_common(delegations, prior);
				},
				Voting::Direct''','''					let unlock_block = now.saturating_add(T::VoteLockingPeriod::get().saturating_mul(lock_periods));
					prior.accumulate(unlock_block, balance);
					voting.set_common(Default::default(), prior);
					let _ = delegations;
				},
				Voting::Direct''')],'''
mod vp_demo {
	use super::*;
	#[test]
	fn vp_demo_chain() {
		new_test_ext().execute_with(|| {
			let r = begin_referendum();
			assert_ok!(Democracy::delegate(RuntimeOrigin::signed(1), 2, Conviction::Locked1x, 10));
			assert_ok!(Democracy::delegate(RuntimeOrigin::signed(2), 3, Conviction::Locked1x, 20));
			assert_ok!(Democracy::delegate(RuntimeOrigin::signed(2), 4, Conviction::Locked1x, 20));
			assert_ok!(Democracy::undelegate(RuntimeOrigin::signed(2)));
			assert_ok!(Democracy::vote(RuntimeOrigin::signed(2), r, AccountVote::Standard { vote: Vote { aye: true, conviction: Conviction::Locked1x }, balance: 20 }));
			assert_eq!(tally(r), Tally { ayes: 30, nays: 0, turnout: 30 });
		});
	}
}
''',"an account that others delegate to delegates itself and then changes its own delegation","what was delegated to it is forgotten")
seed("dem-threshold-tie","D03","democracy",[("vote_threshold.rs",'''		if r2.is_zero() {
			return false;
		}
		if r1.is_zero() {
			return true;
		}
''','''		if r1.is_zero() {
			return true;
		}
		if r2.is_zero() {
			return false;
		}
''')],'''
mod vp_demo {
	use super::*;
	#[test]
	fn vp_demo_tie() {
		// 100/10 against 150/15: exactly equal, so not approved
		assert!(!VoteThreshold::SuperMajorityApprove.approved(Tally { ayes: 150, nays: 100, turnout: 100 }, 225));
		assert!(VoteThreshold::SuperMajorityApprove.approved(Tally { ayes: 151, nays: 100, turnout: 100 }, 225));
	}
}
''',"a vote that is exactly at the threshold","a tie is approved")
seed("dem-clear-metadata","D06","democracy",[(L,'''					ensure!(is_root || maybe_hash.is_none(), Error::<T>::NoPermission);
					ensure!(is_root || Self::referendum_status(index).is_err(), Error::<T>::NoPermission);
''','''					let finished = Self::referendum_status(index).is_err();
					ensure!(is_root || finished, Error::<T>::NoPermission);
''')],'''
mod vp_demo {
	use super::*;
	#[test]
	fn vp_demo_meta() {
		new_test_ext().execute_with(|| {
			ReferendumInfoOf::<Test>::insert(3, ReferendumInfo::Finished { end: 1, approved: true });
			let h = note_preimage(1);
			assert!(Democracy::set_metadata(RuntimeOrigin::signed(3), MetadataOwner::Referendum(3), Some(h)).is_err());
			assert!(MetadataOf::<Test>::get(MetadataOwner::Referendum(3)).is_none());
		});
	}
}
''',"anyone sets metadata for a referendum that is finished","metadata can be forged for finished referenda")
seed("dem-redelegate-freeze","D02","democracy",[(L,'''			T::Fungible::extend_freeze(&FreezeReason::Vote.into(), &who, balance)?;
			Ok(votes)
''','''			let needed = voting.locked_balance();
			let _ = needed;
			T::Fungible::set_freeze(&FreezeReason::Vote.into(), &who, balance)?;
			Ok(votes)
''')],'''
mod vp_demo {
	use super::*;
	#[test]
	fn vp_demo_refreeze() {
		new_test_ext().execute_with(|| {
			assert_ok!(Democracy::delegate(RuntimeOrigin::signed(5), 2, Conviction::Locked5x, 50));
			assert_ok!(Democracy::delegate(RuntimeOrigin::signed(5), 3, Conviction::Locked1x, 10));
			assert_eq!(Balances::balance_frozen(&FreezeReason::Vote.into(), &5), 50);
		});
	}
}
''',"a delegation is replaced by a smaller one while the old one's lock still runs","the balance of the old delegation is unfrozen at once")
seed("dem-power-wrap","D04","democracy",[("conviction.rs",'''			x => capital.checked_mul(&u8::from(x).into()).unwrap_or_else(B::max_value),
''','''			x => capital.checked_mul(&u8::from(x).into()).unwrap_or(capital),
''')],'''
mod vp_demo {
	use super::*;
	#[test]
	fn vp_demo_power() {
		assert_eq!(Conviction::Locked3x.votes(u64::MAX / 2).votes, u64::MAX);
		assert_eq!(Conviction::Locked2x.votes(u64::MAX / 2).votes, u64::MAX - 1);
	}
}
''',"a balance so large that its voting power overflows","the power falls back to the bare capital instead of the maximum")
seed("dem-blacklist-skip","D08","democracy",[(L,'''						Self::internal_cancel_referendum(ref_index);
					}
				}
			}
''','''						Self::internal_cancel_referendum(ref_index);
						// nothing to bake here any more
						LowestUnbaked::<T>::put(ref_index.saturating_add(1));
					}
				}
			}
''')],'''
mod vp_demo {
	use super::*;
	#[test]
	fn vp_demo_skip() {
		new_test_ext().execute_with(|| {
			System::set_block_number(0);
			let a = Democracy::inject_referendum(4, set_balance_proposal(2), VoteThreshold::SimpleMajority, 0);
			let b = Democracy::inject_referendum(4, set_balance_proposal(3), VoteThreshold::SimpleMajority, 0);
			assert_ok!(Democracy::blacklist(RuntimeOrigin::root(), set_balance_proposal(3).hash(), Some(b)));
			fast_forward_to(6);
			assert!(matches!(Democracy::referendum_info(a), Some(ReferendumInfo::Finished { end: 4, .. })));
		});
	}
}
''',"a later referendum is blacklisted while an earlier one is still running","the earlier one is never decided")
