From 3f6eac3ce13f6f4e822bc741cbf70e68892885c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:40 +0000
Subject: [PATCH 01/13] fix: a veto must not end a permanent blacklist in
 democracy

---
 pallets/democracy/src/lib.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pallets/democracy/src/lib.rs b/pallets/democracy/src/lib.rs
index c96b640..9f9d6b6 100644
--- a/pallets/democracy/src/lib.rs
+++ b/pallets/democracy/src/lib.rs
@@ -815,11 +815,14 @@ pub mod pallet {
 				return Err(Error::<T>::NoProposal.into());
 			}
 
-			let mut existing_vetoers = <Blacklist<T>>::get(&proposal_hash).map(|pair| pair.1).unwrap_or_default();
+			let (existing_until, mut existing_vetoers) = <Blacklist<T>>::get(&proposal_hash).unwrap_or_default();
 			let insert_position = existing_vetoers.binary_search(&who).err().ok_or(Error::<T>::AlreadyVetoed)?;
 			existing_vetoers.try_insert(insert_position, who.clone()).map_err(|_| Error::<T>::TooMany)?;
 
-			let until = <frame_system::Pallet<T>>::block_number().saturating_add(T::CooloffPeriod::get());
+			// A veto never shortens a block already in force: a permanent blacklist stays permanent.
+			let until = <frame_system::Pallet<T>>::block_number()
+				.saturating_add(T::CooloffPeriod::get())
+				.max(existing_until);
 			<Blacklist<T>>::insert(&proposal_hash, (until, existing_vetoers));
 
 			Self::deposit_event(Event::<T>::Vetoed { who, proposal_hash, until });
-- 
2.43.0


From 54df48eee170007b741e7c6d56f0e155863cd755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:31 +0000
Subject: [PATCH 02/13] fix: a fully vested schedule must not make on_slash
 panic

A schedule that has ended but was not removed by a vest() call yet has no
blocks left, and FixedU128::from_rational panics on a zero denominator, so
that an evaluation of such an account could never be settled.
---
 pallets/on-slash-vesting/src/lib.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pallets/on-slash-vesting/src/lib.rs b/pallets/on-slash-vesting/src/lib.rs
index 571f986..3e305e7 100644
--- a/pallets/on-slash-vesting/src/lib.rs
+++ b/pallets/on-slash-vesting/src/lib.rs
@@ -7,7 +7,7 @@ mod mock;
 mod test;
 
 use frame_support::{
-	sp_runtime::{traits::Convert, FixedPointNumber, FixedU128},
+	sp_runtime::traits::Convert,
 	traits::{Currency, OriginTrait},
 };
 use pallet_vesting::Vesting;
@@ -39,7 +39,8 @@ where
 				let start_block = T::BlockNumberToBalance::convert(now);
 				let end_block = schedule.ending_block_as_balance::<T::BlockNumberToBalance>();
 				let duration = end_block.saturating_sub(start_block);
-				let per_block = FixedU128::from_rational(total_locked, duration).saturating_mul_int(1u128);
+				// A fully vested schedule that was not removed yet has no blocks left: it ends here.
+				let per_block = total_locked.checked_div(duration).unwrap_or_default();
 				let new_schedule = pallet_vesting::VestingInfo::new(total_locked, per_block, now);
 				if new_schedule.is_valid() {
 					// The push should always succeed because we are iterating over a bounded vector.
-- 
2.43.0


From e72fe0319bfacd2cb407d85667e74e7efff14ee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:23 +0000
Subject: [PATCH 03/13] fix: an overflowing vesting schedule is fully
 releasable, not at all locked

---
 pallets/linear-release/src/types.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/pallets/linear-release/src/types.rs b/pallets/linear-release/src/types.rs
index 09ca6e6..8b7430f 100644
--- a/pallets/linear-release/src/types.rs
+++ b/pallets/linear-release/src/types.rs
@@ -107,10 +107,8 @@ where
 		// saturating to 0 when n < starting_block.
 		let time_range = now.saturating_sub(self.starting_block);
 		let vested_block_count = BlockNumberToBalance::convert(time_range);
-		// TODO: Find a way to improve this.
-		// Return amount that is releasable in vesting.
-		let res = vested_block_count.checked_mul(&self.per_block()).unwrap_or(Zero::zero());
-		res.min(self.locked)
+		// Return amount that is releasable in vesting. On overflow everything has vested (see `locked_at`).
+		vested_block_count.saturating_mul(self.per_block()).min(self.locked)
 	}
 
 	/// Block number at which the schedule ends (as type `Balance`).
-- 
2.43.0


From de79995d71cf9ea072a49b2be81095e708b67542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:23 +0000
Subject: [PATCH 04/13] fix: remove_all_vesting_schedules failed when a later
 schedule had ended

---
 pallets/linear-release/src/impls.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pallets/linear-release/src/impls.rs b/pallets/linear-release/src/impls.rs
index bb89b64..01d8fe5 100644
--- a/pallets/linear-release/src/impls.rs
+++ b/pallets/linear-release/src/impls.rs
@@ -373,7 +373,8 @@ impl<T: Config> ReleaseSchedule<AccountIdOf<T>, ReasonOf<T>> for Pallet<T> {
 	fn remove_all_vesting_schedules(who: &T::AccountId, reason: ReasonOf<T>) -> DispatchResult {
 		let schedules_count = Self::vesting(who, reason).ok_or(Error::<T>::NotVesting)?.len();
 		for _ in 0..schedules_count {
-			let current_schedules = Self::vesting(who, reason).ok_or(Error::<T>::NotVesting)?;
+			// Removing one schedule also drops those that have ended, so there may be none left.
+			let Some(current_schedules) = Self::vesting(who, reason) else { break };
 			let remove_action = VestingAction::Remove { index: 0usize };
 			let (schedules, locked_now) = Self::exec_action(current_schedules.to_vec(), remove_action)?;
 			Self::write_vesting_schedule(who, schedules, reason)?;
-- 
2.43.0


From fb7ac06ae4787ff1360291c0711041deb4e2b569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:52 +0000
Subject: [PATCH 05/13] fix: removing a project must free its own issuer's did,
 not the caller's

---
 pallets/funding/src/functions/1_application.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pallets/funding/src/functions/1_application.rs b/pallets/funding/src/functions/1_application.rs
index eaf95b7..1c28c74 100644
--- a/pallets/funding/src/functions/1_application.rs
+++ b/pallets/funding/src/functions/1_application.rs
@@ -123,7 +123,7 @@ impl<T: Config> Pallet<T> {
 	}
 
 	#[transactional]
-	pub fn do_remove_project(issuer: AccountIdOf<T>, project_id: ProjectId, did: Did) -> DispatchResult {
+	pub fn do_remove_project(issuer: AccountIdOf<T>, project_id: ProjectId, _did: Did) -> DispatchResult {
 		// * Get variables *
 		let project_details = ProjectsDetails::<T>::get(project_id).ok_or(Error::<T>::ProjectDetailsNotFound)?;
 
@@ -134,7 +134,7 @@ impl<T: Config> Pallet<T> {
 		// * Update storage *
 		ProjectsDetails::<T>::remove(project_id);
 		ProjectsMetadata::<T>::remove(project_id);
-		DidWithActiveProjects::<T>::set(did, None);
+		DidWithActiveProjects::<T>::set(project_details.issuer_did, None);
 		Buckets::<T>::remove(project_id);
 
 		// * Emit events *
-- 
2.43.0


From df448f25fbb5702064fe7425787ba8f1e46c9d12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:40 +0000
Subject: [PATCH 06/13] fix: end_funding must only end a community round, not
 put a sold out project back from settlement

---
 pallets/funding/src/functions/5_funding_end.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pallets/funding/src/functions/5_funding_end.rs b/pallets/funding/src/functions/5_funding_end.rs
index f88d2fc..56cdbb5 100644
--- a/pallets/funding/src/functions/5_funding_end.rs
+++ b/pallets/funding/src/functions/5_funding_end.rs
@@ -12,10 +12,10 @@ impl<T: Config> Pallet<T> {
 
 		// * Validity checks *
 		ensure!(
-			// Can end due to running out of CTs
-			remaining_cts == Zero::zero() ||
-				// or the last funding round ending
-				project_details.round_duration.ended(now) && matches!(project_details.status, ProjectStatus::CommunityRound(..)),
+			// Only a running funding round can end
+			matches!(project_details.status, ProjectStatus::CommunityRound(..)) &&
+				// either due to running out of CTs, or by reaching the end of the round
+				(remaining_cts == Zero::zero() || project_details.round_duration.ended(now)),
 			Error::<T>::TooEarlyForRound
 		);
 
-- 
2.43.0


From 025328694749a768a5071718a561964cbd85b465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:40 +0000
Subject: [PATCH 07/13] fix: confirming an offchain migration twice must not
 count another user as migrated

---
 pallets/funding/src/functions/misc.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pallets/funding/src/functions/misc.rs b/pallets/funding/src/functions/misc.rs
index d9c1eac..cf37518 100644
--- a/pallets/funding/src/functions/misc.rs
+++ b/pallets/funding/src/functions/misc.rs
@@ -369,7 +369,8 @@ impl<T: Config> Pallet<T> {
 				if matches!(current_status, MigrationStatus::NotStarted | MigrationStatus::Failed) =>
 				status,
 			MigrationStatus::Confirmed
-				if matches!(project_details.migration_type, Some(MigrationType::Offchain)) ||
+				if (matches!(project_details.migration_type, Some(MigrationType::Offchain)) &&
+					!matches!(current_status, MigrationStatus::Confirmed)) ||
 					(matches!(project_details.migration_type, Some(MigrationType::Pallet(_))) &&
 						matches!(current_status, MigrationStatus::Sent(_))) =>
 			{
-- 
2.43.0


From a8522cb87916fba67bef7f9cfaf0f2e125342f38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:37 +0000
Subject: [PATCH 08/13] fix: a bond smaller than its vesting time must not
 block the settlement

---
 pallets/funding/src/functions/misc.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pallets/funding/src/functions/misc.rs b/pallets/funding/src/functions/misc.rs
index cf37518..5aa1410 100644
--- a/pallets/funding/src/functions/misc.rs
+++ b/pallets/funding/src/functions/misc.rs
@@ -66,7 +66,8 @@ impl<T: Config> Pallet<T> {
 		let amount_per_block = if duration_as_balance == Zero::zero() {
 			bonded_amount
 		} else {
-			bonded_amount.checked_div(duration_as_balance).ok_or(Error::<T>::BadMath)?
+			// a bond of less than a unit per block would not be a valid release schedule
+			bonded_amount.checked_div(duration_as_balance).ok_or(Error::<T>::BadMath)?.max(One::one())
 		};
 
 		Ok(VestingInfo { total_amount: bonded_amount, amount_per_block, duration })
-- 
2.43.0


From 8840ab6ee28a14ec1dbfb2c21030c64b04e89798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:42 +0000
Subject: [PATCH 09/13] fix: adding a release schedule that has already ended
 must release its amount, not keep it held forever

---
 pallets/linear-release/src/impls.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pallets/linear-release/src/impls.rs b/pallets/linear-release/src/impls.rs
index 01d8fe5..7eaa449 100644
--- a/pallets/linear-release/src/impls.rs
+++ b/pallets/linear-release/src/impls.rs
@@ -282,6 +282,13 @@ impl<T: Config> ReleaseSchedule<AccountIdOf<T>, ReasonOf<T>> for Pallet<T> {
 			return Err(Error::<T>::InvalidScheduleParams.into());
 		};
 
+		// A schedule that has already ended is never stored, so its amount has to be released here.
+		let now = <frame_system::Pallet<T>>::block_number();
+		if vesting_schedule.locked_at::<T::BlockNumberToBalance>(now).is_zero() {
+			T::Currency::release(&reason, who, locked, Precision::Exact)?;
+			return Ok(());
+		}
+
 		let mut schedules = Self::vesting(who, reason).unwrap_or_default();
 
 		// NOTE: we must push the new schedule so that `exec_action`
-- 
2.43.0


From 4ad70c383eb4558e2d47493a3436b3a4fa269f10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:47 +0000
Subject: [PATCH 10/13] fix: only bids within the allocation count for the
 weighted average price

---
 pallets/funding/src/types.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pallets/funding/src/types.rs b/pallets/funding/src/types.rs
index ee3573b..a0a48d8 100644
--- a/pallets/funding/src/types.rs
+++ b/pallets/funding/src/types.rs
@@ -459,8 +459,10 @@ pub mod storage {
 			let mut price: Price = self.current_price;
 			let mut bucket_sizes: Vec<(Balance, Price)> = Vec::new();
 			while price > self.initial_price && total_amount > Balance::zero() {
-				total_amount.saturating_reduce(amount);
-				bucket_sizes.push((price.saturating_mul_int(amount), price));
+				// The lowest winning bucket only counts up to what is left of the allocation
+				let sold_amount = amount.min(total_amount);
+				total_amount.saturating_reduce(sold_amount);
+				bucket_sizes.push((price.saturating_mul_int(sold_amount), price));
 				price = price.saturating_sub(self.delta_price);
 				amount = self.delta_amount;
 			}
-- 
2.43.0


From f7605877045a8456c05ee00e787c7450af4d37f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:15 +0000
Subject: [PATCH 11/13] fix: an empty holding in a readiness response must not
 panic

---
 pallets/funding/src/functions/7_ct_migration.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pallets/funding/src/functions/7_ct_migration.rs b/pallets/funding/src/functions/7_ct_migration.rs
index 001e507..fe4b605 100644
--- a/pallets/funding/src/functions/7_ct_migration.rs
+++ b/pallets/funding/src/functions/7_ct_migration.rs
@@ -345,7 +345,9 @@ impl<T: Config> Pallet<T> {
 			) => {
 				let ct_sold_as_u128: u128 = contribution_tokens_sold;
 				let assets: Vec<Asset> = assets.into_inner();
-				let asset_1 = assets[0].clone();
+				let Some(asset_1) = assets.first().cloned() else {
+					return Err(Error::<T>::NotAllowed.into());
+				};
 				match asset_1 {
 					Asset { id: AssetId(location), fun: Fungible(amount) }
 						if amount >= ct_sold_as_u128 &&
-- 
2.43.0


From a862e7a064c9aa1c6f2b9517ba1f718fc75c8e1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:15 +0000
Subject: [PATCH 12/13] fix: the readiness check's answers carry the ids of its
 queries

---
 pallets/funding/src/functions/7_ct_migration.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pallets/funding/src/functions/7_ct_migration.rs b/pallets/funding/src/functions/7_ct_migration.rs
index fe4b605..8c66cac 100644
--- a/pallets/funding/src/functions/7_ct_migration.rs
+++ b/pallets/funding/src/functions/7_ct_migration.rs
@@ -278,7 +278,7 @@ impl<T: Config> Pallet<T> {
 			ReportHolding {
 				response_info: QueryResponseInfo {
 					destination: ParentThen(Parachain(POLIMEC_PARA_ID).into()).into(),
-					query_id: 0,
+					query_id: query_id_holdings,
 					max_weight,
 				},
 				assets: Wild(All),
@@ -287,7 +287,7 @@ impl<T: Config> Pallet<T> {
 				module_name: Vec::from("polimec_receiver"),
 				response_info: QueryResponseInfo {
 					destination: ParentThen(Parachain(POLIMEC_PARA_ID).into()).into(),
-					query_id: 1,
+					query_id: query_id_pallet,
 					max_weight,
 				},
 			},
-- 
2.43.0


From 4ca5b5f67b99b89bf49d42d5bceef07e6a3ad49a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:43 +0000
Subject: [PATCH 13/13] fix: only the issuer repeats a readiness check

---
 pallets/funding/src/functions/7_ct_migration.rs | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/pallets/funding/src/functions/7_ct_migration.rs b/pallets/funding/src/functions/7_ct_migration.rs
index 8c66cac..4d0bba6 100644
--- a/pallets/funding/src/functions/7_ct_migration.rs
+++ b/pallets/funding/src/functions/7_ct_migration.rs
@@ -231,14 +231,7 @@ impl<T: Config> Pallet<T> {
 		);
 		if migration_info.migration_readiness_check.is_none() {
 			ensure!(caller.clone() == T::PalletId::get().into_account_truncating(), Error::<T>::NotAllowed);
-		} else if matches!(
-			migration_info.migration_readiness_check,
-			Some(PalletMigrationReadinessCheck {
-				holding_check: (_, CheckOutcome::Failed),
-				pallet_check: (_, CheckOutcome::Failed),
-				..
-			})
-		) {
+		} else {
 			ensure!(caller == &project_details.issuer_account, Error::<T>::NotIssuer);
 		}
 
-- 
2.43.0

