from mkseedfund import seed
F = "pallets/funding/src/functions/"
F1, F2, F3, F4, F5, F6, F7, FM = [F + x for x in ["1_application.rs", "2_evaluation.rs", "3_auction.rs", "4_contribution.rs", "5_funding_end.rs", "6_settlement.rs", "7_ct_migration.rs", "misc.rs"]]
T = "pallets/funding/src/types.rs"
seed("fund-early-amount", "F02", [(F2, "let early_usd_amount = if usd_amount <= remaining_bond_to_reach_threshold {", "let early_usd_amount = if usd_amount <= remaining_bond_to_reach_threshold || previous_total_evaluation_bonded_usd < remaining_bond_to_reach_threshold {")], '''
	#[test]
	fn vp_demo() {
		ext(|| {
			market(1);
			set_now(5);
			let m = meta(1 << 60, price(10_000));
			// threshold: 100_000 dollars
			let mut d = details(ProjectStatus::EvaluationRound, 1_000_000 * USD, 1 << 60);
			d.round_duration = BlockNumberPair::new(Some(1), Some(10));
			put(P, &m, &d);
			cred(2, 2, 1, 1);
			fund(2, 1 << 100);
			Funding::evaluate(signed(2), jwt(), P, 130_000 * USD).unwrap();
			let e = Evaluations::<Test>::iter_values().next().unwrap();
			assert_eq!((e.early_usd_amount, e.late_usd_amount), (100_000 * USD, 30_000 * USD));
		});
	}
''', "one evaluation that crosses the threshold while less than half of it was evaluated before", "the part beyond the threshold counts as early too, so early evaluators together get more than the early pot")
seed("fund-bid-did-sum", "F03", [(F3, "let total_usd_bid_by_did = AuctionBoughtUSD::<T>::get((project_id, did.clone()));", "let total_usd_bid_by_did =\\n\\t\\t\\tif total_bids_by_bidder > 0 { AuctionBoughtUSD::<T>::get((project_id, did.clone())) } else { Zero::zero() };".replace("\\n", "\n").replace("\\t", "\t"))], '''
	#[test]
	fn vp_demo() {
		ext(|| {
			market(1);
			set_now(12);
			let alloc = 1u128 << 60;
			let mut m = meta(alloc, price(10_000));
			m.bidding_ticket_sizes.institutional = TicketSize::new(5000 * USD, Some(10_000 * USD));
			let mut d = details(ProjectStatus::AuctionRound, 1_000_000 * USD, alloc);
			d.round_duration = BlockNumberPair::new(Some(10), Some(24));
			put(P, &m, &d);
			Buckets::<Test>::insert(P, bucket(alloc / 2, price(10_000), price(10_000), alloc / 20));
			for who in [2, 3] {
				cred(who, 2, 2, 1);
				fund(who, 1 << 100);
				Assets::give(1984, who, 1 << 100);
			}
			let ct = 700 * 10_000_000_000;
			let bid = |who| Funding::bid(signed(who), jwt(), P, ct, ParticipationMode::Classic(1), AcceptedFundingAsset::USDT);
			assert!(bid(2).is_ok());
			assert!(bid(3).is_err());
		});
	}
''', "a second account of the same identity bidding, after the first used up the maximum", "the maximum ticket size per identity is not summed over its accounts")
seed("fund-reuse-slash", "F03", [(FM, "let slash_deposit = <T as Config>::EvaluatorSlash::get() * evaluation.original_plmc_bond;", "let slash_deposit = <T as Config>::EvaluatorSlash::get() * evaluation.current_plmc_bond;")], '''
	#[test]
	fn vp_demo() {
		ext(|| {
			let e = EvaluationInfo { id: 5, did: did(2), project_id: P, evaluator: 2u128, original_plmc_bond: 1000, current_plmc_bond: 1000, early_usd_amount: 1, late_usd_amount: 0, when: 1u64 };
			Evaluations::<Test>::insert((P, 2, 5), &e);
			fund(2, 1 << 60);
			hold(2, HoldReason::Evaluation, 1000);
			for _ in 0..3 {
				Funding::bond_plmc_with_mode(&2, P, 700, ParticipationMode::Classic(1), AcceptedFundingAsset::USDT).unwrap();
			}
			assert_eq!(held(2, HoldReason::Evaluation), 200);
		});
	}
''', "an evaluator that participates more than once", "the part of the evaluation bond that can be slashed shrinks with every participation, so a failed project's evaluation cannot be slashed and settled")
seed("fund-wap-last-bucket", "F04", [(T, "let mut amount: Balance = self.delta_amount.saturating_sub(self.amount_left);\n			let mut price: Price = self.current_price;", "let mut amount: Balance = self.delta_amount.saturating_sub(self.amount_left);\n			let mut price: Price = self.current_price;\n			if amount.is_zero() {\n				price = price.saturating_sub(self.delta_price);\n			}")], '''
	#[test]
	fn vp_demo() {
		ext(|| {
			// the first bucket and one more are exactly full
			let d = 1_000_000_000_000u128;
			let b = bucket(d, price(12_000), price(10_000), d);
			let w = b.calculate_wap(10 * d).into_inner() as f64;
			let e = price(10_000).into_inner() as f64 * (9.0 * 10.0 * 10.0 + 11.0 * 11.0) / (9.0 * 10.0 + 11.0) / 10.0;
			assert!((w - e).abs() / e < 1e-9, "{w} {e}");
		});
	}
''', "an auction whose last bucket was filled exactly, so that nothing is bid in the current one", "the highest full bucket is left out of the weighted average price, and issuers get less than the bids")
seed("fund-tie-late", "F04", [(FM, "bids.sort_by(|a, b| b.cmp(a));", "bids.sort_by(|a, b| b.original_ct_usd_price.cmp(&a.original_ct_usd_price).then(b.original_ct_amount.cmp(&a.original_ct_amount)).then(a.id.cmp(&b.id)));")], '''
	#[test]
	fn vp_demo() {
		ext(|| {
			let alloc = 1u128 << 60;
			put(P, &meta(alloc, price(10_000)), &details(ProjectStatus::AuctionRound, 1_000_000 * USD, alloc));
			for (i, ct) in [(0u32, 60u128), (1, 80)] {
				Bids::<Test>::insert((P, 2, i), BidInfo { id: i, project_id: P, bidder: 2, did: did(2), status: BidStatus::YetUnknown, original_ct_amount: ct, original_ct_usd_price: price(10_000), funding_asset: AcceptedFundingAsset::USDT, funding_asset_amount_locked: 0, mode: ParticipationMode::Classic(1), plmc_bond: 0, when: 1 });
			}
			Funding::decide_winning_bids(P, 100, price(10_000)).unwrap();
			assert_eq!(Bids::<Test>::get((P, 2, 0)).unwrap().status, BidStatus::Accepted);
			assert_eq!(Bids::<Test>::get((P, 2, 1)).unwrap().status, BidStatus::PartiallyAccepted(40));
		});
	}
''', "a smaller, earlier bid and a larger, later one at the same price, with too little for both", "of equal bids the larger wins before the earlier")
seed("fund-soldout-min", "F05", [(F4, "				project_details.remaining_contribution_tokens.is_zero(),\n			Error::<T>::TooLow", "				project_details.remaining_contribution_tokens <= buyable_tokens,\n			Error::<T>::TooLow")], '''
	#[test]
	fn vp_demo() {
		ext(|| {
			market(1);
			set_now(12);
			let mut d = details(ProjectStatus::CommunityRound(20), 1_000_000 * USD, 1_500_000_000);
			d.round_duration = BlockNumberPair::new(Some(10), Some(24));
			d.weighted_average_price = Some(price(10_000));
			put(P, &meta(1 << 60, price(10_000)), &d);
			cred(2, 2, 1, 1);
			fund(2, 1 << 100);
			Assets::give(1984, 2, 1 << 100);
			let buy = |ct| Funding::contribute(signed(2), jwt(), P, ct, ParticipationMode::Classic(1), AcceptedFundingAsset::USDT);
			// a dollar, of 1.5 that are left
			assert!(buy(1_000_000_000).is_err());
			assert!(buy(1_500_000_000).is_ok());
		});
	}
''', "few tokens left, and a small contribution that buys at least half of them but not all", "tickets below the minimum are taken although they do not sell out the project")
seed("fund-fee-bracket", "F06", [(FM, "if let Some(amount_to_bid) = remaining_for_fee.checked_sub(limit) {", "if let Some(amount_to_bid) = remaining_for_fee.checked_sub(limit).filter(|left| *left > limit / 2) {")], '''
	#[test]
	fn vp_demo() {
		ext(|| {
			let reached = 1_200_000 * USD;
			let alloc = 1_000_000_000_000u128;
			let mut d = details(ProjectStatus::FundingSuccessful, reached, 0);
			d.funding_amount_reached_usd = reached;
			put(P, &meta(alloc, price(10_000)), &d);
			let (lp, _) = Funding::generate_liquidity_pools_and_long_term_holder_rewards(P).unwrap();
			assert!(lp < alloc / 1000 * 49, "{lp}");
		});
	}
''', "funding a little above the end of the first bracket", "the part in the next bracket is charged at the first one's higher rate")
seed("fund-refund-partial", "F07", [(F6, "			bid.funding_asset_amount_locked.saturating_sub(refunded_funding_asset_amount),\n				bid.funding_asset,", "			if matches!(bid.status, BidStatus::PartiallyAccepted(..)) && bid.original_ct_usd_price > wap {\n					Self::calculate_funding_asset_amount(\n						bid.original_ct_usd_price.checked_mul_int(final_ct_amount).ok_or(Error::<T>::BadMath)?,\n						bid.funding_asset,\n					)?\n				} else {\n					bid.funding_asset_amount_locked.saturating_sub(refunded_funding_asset_amount)\n				},\n				bid.funding_asset,")], '''
	#[test]
	fn vp_demo() {
		ext(|| {
			let mk = market(1);
			set_now(20);
			let mut d = details(ProjectStatus::SettlementStarted(FundingOutcome::Success), 1 << 50, 0);
			d.funding_end_block = Some(20);
			d.weighted_average_price = Some(price(10_000));
			put(P, &meta(1 << 60, price(10_000)), &d);
			Cts::make(P, pot(P));
			let ct = 100 * 10_000_000_000u128;
			let lock = mk.asset(AcceptedFundingAsset::USDT, 1200 * USD);
			let b = BidInfo { id: 8, project_id: P, bidder: 2, did: did(2), status: BidStatus::PartiallyAccepted(ct / 2), original_ct_amount: ct, original_ct_usd_price: price(12_000), funding_asset: AcceptedFundingAsset::USDT, funding_asset_amount_locked: lock, mode: ParticipationMode::Classic(1), plmc_bond: 0, when: 1 };
			Bids::<Test>::insert((P, 2, 8), &b);
			fund(2, 1 << 60);
			Assets::give(1984, pot(P), lock + 5_000 * USD);
			Funding::settle_bid(signed(7), P, 2, 8).unwrap();
			assert_eq!(Assets::of(1984, DEST), mk.asset(AcceptedFundingAsset::USDT, 500 * USD));
		});
	}
''', "a bid above the weighted average price that was accepted in part", "the issuer is paid at the bid's price from other participants' money in escrow, although the bidder is refunded down to the average price")
seed("fund-settle-reject", "F07", [(F6, "		if funding_success && bid.status != BidStatus::Rejected {", "		if funding_success && (bid.status != BidStatus::Rejected || refunded_plmc.is_zero()) {")], '''
	#[test]
	fn vp_demo() {
		ext(|| {
			let mk = market(1);
			set_now(20);
			let mut d = details(ProjectStatus::SettlementStarted(FundingOutcome::Success), 1 << 50, 0);
			d.funding_end_block = Some(20);
			d.weighted_average_price = Some(price(10_000));
			put(P, &meta(1 << 60, price(10_000)), &d);
			Cts::make(P, pot(P));
			let ct = 100 * 10_000_000_000u128;
			let b = BidInfo { id: 8, project_id: P, bidder: 2, did: did(2), status: BidStatus::Rejected, original_ct_amount: 5, original_ct_usd_price: price(10_000), funding_asset: AcceptedFundingAsset::USDT, funding_asset_amount_locked: 0, mode: ParticipationMode::Classic(25), plmc_bond: 0, when: 1 };
			Bids::<Test>::insert((P, 2, 8), &b);
			fund(2, 1 << 60);
			Funding::settle_bid(signed(7), P, 2, 8).unwrap();
			assert!(UserMigrations::<Test>::get((P, 2)).is_none());
		});
	}
''', "a rejected bid so small that its bond rounds to nothing", "a rejected bidder gets a migration, and counts as waiting for one")
seed("fund-slash-current", "F08", [(F6, "		let slashed_amount = slash_percentage * evaluation.original_plmc_bond;", "		let slashed_amount = slash_percentage * evaluation.original_plmc_bond.min(evaluation.current_plmc_bond);")], '''
	#[test]
	fn vp_demo() {
		ext(|| {
			set_now(20);
			let mut d = details(ProjectStatus::SettlementStarted(FundingOutcome::Failure), 1 << 50, 0);
			d.evaluation_round_info.evaluators_outcome = Some(EvaluatorsOutcome::Slashed);
			put(P, &meta(1 << 60, price(10_000)), &d);
			let e = EvaluationInfo { id: 5, did: did(2), project_id: P, evaluator: 2u128, original_plmc_bond: 1000, current_plmc_bond: 600, early_usd_amount: 1, late_usd_amount: 0, when: 1u64 };
			Evaluations::<Test>::insert((P, 2, 5), &e);
			fund(2, 1 << 60);
			fund(93, 1000);
			hold(2, HoldReason::Evaluation, 600);
			let before = free(93);
			Funding::settle_evaluation(signed(7), P, 2, 5).unwrap();
			assert_eq!(free(93) - before, 200);
		});
	}
''', "an evaluation bond that was partly used for a bid, in a failed project", "evaluators who also participated are slashed less than a fifth of their bond")
seed("fund-counter-again", "F07", [(F6, "			} else {\n				let mut migrations = BoundedVec", "			} else {\n				ensure!(ct_amount > Zero::zero(), Error::<T>::ImpossibleState);\n				let mut migrations = BoundedVec"), (F6, "				migrations.try_push(migration).map_err(|_| Error::<T>::TooManyMigrations)?;\n			} else {", "				if let Some(same) = migrations.iter_mut().find(|m| m.origin.id == id) {\n					same.info.contribution_token_amount = same.info.contribution_token_amount.saturating_add(ct_amount);\n					return Ok(());\n				}\n				migrations.try_push(migration).map_err(|_| Error::<T>::TooManyMigrations)?;\n			} else {")], '''
	#[test]
	fn vp_demo() {
		ext(|| {
			// bid 5 and contribution 5 of the same user, with different vesting times
			Funding::create_migration(P, &2, 5, ParticipationType::Bid, 10, 1).unwrap();
			Funding::create_migration(P, &2, 5, ParticipationType::Contribution, 20, 1000).unwrap();
			let (_, v) = UserMigrations::<Test>::get((P, 2)).unwrap();
			assert_eq!(v.len(), 2);
			assert_eq!(v[1].info.vesting_time, 1000);
		});
	}
''', "a user with a bid and a contribution of the same number", "tokens of different participations are merged into one migration, with the vesting time of the first")
seed("fund-migrate-again", "F10", [(F7, "		project_details.migration_type = Some(MigrationType::Offchain);\n\n		Self::transition_project(\n			project_id,\n			project_details,\n			ProjectStatus::SettlementFinished(FundingOutcome::Success),", "		let settled = match project_details.status {\n			ProjectStatus::SettlementStarted(FundingOutcome::Success) if UnmigratedCounter::<T>::get(project_id) > 0 =>\n				ProjectStatus::SettlementStarted(FundingOutcome::Success),\n			_ => ProjectStatus::SettlementFinished(FundingOutcome::Success),\n		};\n		project_details.migration_type = Some(MigrationType::Offchain);\n\n		Self::transition_project(\n			project_id,\n			project_details,\n			settled,")], '''
	#[test]
	fn vp_demo() {
		ext(|| {
			set_now(20);
			let d = details(ProjectStatus::SettlementStarted(FundingOutcome::Success), 1 << 50, 0);
			put(P, &meta(1 << 60, price(10_000)), &d);
			UnmigratedCounter::<Test>::insert(P, 2);
			assert!(Funding::do_start_offchain_migration(P, d.issuer_account).is_err());
		});
	}
''', "a migration started while some participations are settled and others are not", "the migration starts before settlement is finished, and the rest can never be settled")
seed("fund-confirm-count", "F09", [(FM, "UnmigratedCounter::<T>::mutate(project_id, |counter| *counter = counter.saturating_sub(1));", "UnmigratedCounter::<T>::mutate(project_id, |counter| *counter = counter.saturating_sub(migrations.len() as u32));")], '''
	#[test]
	fn vp_demo() {
		ext(|| {
			set_now(20);
			let mut d = details(ProjectStatus::CTMigrationStarted, 1 << 50, 0);
			d.migration_type = Some(MigrationType::Offchain);
			put(P, &meta(1 << 60, price(10_000)), &d);
			for (who, n) in [(2u128, 2u32), (3, 1)] {
				for id in 0..n {
					Funding::create_migration(P, &who, id, ParticipationType::Bid, 10, 1).unwrap();
				}
			}
			UnmigratedCounter::<Test>::insert(P, 2);
			Funding::do_confirm_offchain_migration(P, d.issuer_account, 2).unwrap();
			assert_eq!(UnmigratedCounter::<Test>::get(P), 1);
			assert!(Funding::do_mark_project_ct_migration_as_finished(P).is_err());
		});
	}
''', "a user with more than one participation", "confirming such a user counts other users too, and the project finishes its migration while users wait")
