From 86fb741593ddcaeecd093653e084d92631d9bd5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:40 +0000
Subject: [PATCH 01/10] fix: clear stale metadata when an external proposal is
 replaced

external_propose_majority and external_propose_default overwrite NextExternal but left the metadata of the
replaced proposal under MetadataOwner::External, so it was carried over to the new proposal's referendum.
---
 pallets/democracy/src/lib.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pallets/democracy/src/lib.rs b/pallets/democracy/src/lib.rs
index c96b640..03c784b 100644
--- a/pallets/democracy/src/lib.rs
+++ b/pallets/democracy/src/lib.rs
@@ -717,10 +717,12 @@ pub mod pallet {
 		///
 		/// Weight: `O(1)`
 		#[pallet::call_index(5)]
-		#[pallet::weight(T::WeightInfo::external_propose_majority())]
+		#[pallet::weight(T::WeightInfo::external_propose_majority().saturating_add(T::DbWeight::get().reads_writes(1, 1)))]
 		pub fn external_propose_majority(origin: OriginFor<T>, proposal: BoundedCallOf<T>) -> DispatchResult {
 			T::ExternalMajorityOrigin::ensure_origin(origin)?;
 			<NextExternal<T>>::put((proposal, VoteThreshold::SimpleMajority));
+			// The replaced proposal's metadata must not describe the new one.
+			Self::clear_metadata(MetadataOwner::External);
 			Ok(())
 		}
 
@@ -736,10 +738,12 @@ pub mod pallet {
 		///
 		/// Weight: `O(1)`
 		#[pallet::call_index(6)]
-		#[pallet::weight(T::WeightInfo::external_propose_default())]
+		#[pallet::weight(T::WeightInfo::external_propose_default().saturating_add(T::DbWeight::get().reads_writes(1, 1)))]
 		pub fn external_propose_default(origin: OriginFor<T>, proposal: BoundedCallOf<T>) -> DispatchResult {
 			T::ExternalDefaultOrigin::ensure_origin(origin)?;
 			<NextExternal<T>>::put((proposal, VoteThreshold::SuperMajorityAgainst));
+			// The replaced proposal's metadata must not describe the new one.
+			Self::clear_metadata(MetadataOwner::External);
 			Ok(())
 		}
 
-- 
2.43.0


From 9956b3c55fd703c1cab11c05457f6f7990d2d85d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:40 +0000
Subject: [PATCH 02/10] fix: on_slash no longer panics on a vesting schedule
 that already ended

---
 pallets/on-slash-vesting/src/lib.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pallets/on-slash-vesting/src/lib.rs b/pallets/on-slash-vesting/src/lib.rs
index 571f986..21b8fee 100644
--- a/pallets/on-slash-vesting/src/lib.rs
+++ b/pallets/on-slash-vesting/src/lib.rs
@@ -39,6 +39,10 @@ where
 				let start_block = T::BlockNumberToBalance::convert(now);
 				let end_block = schedule.ending_block_as_balance::<T::BlockNumberToBalance>();
 				let duration = end_block.saturating_sub(start_block);
+				// Nothing is locked anymore in a schedule that already ended.
+				if duration == 0 {
+					continue;
+				}
 				let per_block = FixedU128::from_rational(total_locked, duration).saturating_mul_int(1u128);
 				let new_schedule = pallet_vesting::VestingInfo::new(total_locked, per_block, now);
 				if new_schedule.is_valid() {
-- 
2.43.0


From 797faf90de14eabca770d342cf96311f5cf316ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:54 +0000
Subject: [PATCH 03/10] fix: a slash no longer makes a vesting schedule start
 before its starting block

---
 pallets/on-slash-vesting/src/lib.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pallets/on-slash-vesting/src/lib.rs b/pallets/on-slash-vesting/src/lib.rs
index 21b8fee..208422b 100644
--- a/pallets/on-slash-vesting/src/lib.rs
+++ b/pallets/on-slash-vesting/src/lib.rs
@@ -36,7 +36,9 @@ where
 			let now = T::BlockNumberProvider::current_block_number();
 			for schedule in vesting_schedules {
 				let total_locked = schedule.locked_at::<T::BlockNumberToBalance>(now).saturating_sub(slashed_amount);
-				let start_block = T::BlockNumberToBalance::convert(now);
+				// A schedule that did not start yet still starts when it was meant to.
+				let start = now.max(schedule.starting_block());
+				let start_block = T::BlockNumberToBalance::convert(start);
 				let end_block = schedule.ending_block_as_balance::<T::BlockNumberToBalance>();
 				let duration = end_block.saturating_sub(start_block);
 				// Nothing is locked anymore in a schedule that already ended.
@@ -44,7 +46,7 @@ where
 					continue;
 				}
 				let per_block = FixedU128::from_rational(total_locked, duration).saturating_mul_int(1u128);
-				let new_schedule = pallet_vesting::VestingInfo::new(total_locked, per_block, now);
+				let new_schedule = pallet_vesting::VestingInfo::new(total_locked, per_block, start);
 				if new_schedule.is_valid() {
 					// The push should always succeed because we are iterating over a bounded vector.
 					let push_result = new_vesting_schedules.try_push(new_schedule);
-- 
2.43.0


From 5a220153175ecb801e29fe8916bf5574f68552b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:04 +0000
Subject: [PATCH 04/10] fix: a vesting schedule past the number range is fully
 releasable, not zero

---
 pallets/linear-release/src/types.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pallets/linear-release/src/types.rs b/pallets/linear-release/src/types.rs
index 09ca6e6..9192139 100644
--- a/pallets/linear-release/src/types.rs
+++ b/pallets/linear-release/src/types.rs
@@ -109,7 +109,7 @@ where
 		let vested_block_count = BlockNumberToBalance::convert(time_range);
 		// TODO: Find a way to improve this.
 		// Return amount that is releasable in vesting.
-		let res = vested_block_count.checked_mul(&self.per_block()).unwrap_or(Zero::zero());
+		let res = vested_block_count.checked_mul(&self.per_block()).unwrap_or(self.locked);
 		res.min(self.locked)
 	}
 
-- 
2.43.0


From 3e79b0e515d9d6dcc8c0d0a8f36d57c6e116367d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:21 +0000
Subject: [PATCH 05/10] fix: end_funding only ends a project that is in the
 community round

With no contribution tokens left, a project could be ended again in any later status, which set a settling project back
to FundingSuccessful and recomputed its outcome.
---
 pallets/funding/src/functions/5_funding_end.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pallets/funding/src/functions/5_funding_end.rs b/pallets/funding/src/functions/5_funding_end.rs
index f88d2fc..915e0ae 100644
--- a/pallets/funding/src/functions/5_funding_end.rs
+++ b/pallets/funding/src/functions/5_funding_end.rs
@@ -12,10 +12,10 @@ impl<T: Config> Pallet<T> {
 
 		// * Validity checks *
 		ensure!(
-			// Can end due to running out of CTs
-			remaining_cts == Zero::zero() ||
-				// or the last funding round ending
-				project_details.round_duration.ended(now) && matches!(project_details.status, ProjectStatus::CommunityRound(..)),
+			// Only the last funding round can be ended
+			matches!(project_details.status, ProjectStatus::CommunityRound(..)) &&
+				// due to running out of CTs, or to its duration being over
+				(remaining_cts == Zero::zero() || project_details.round_duration.ended(now)),
 			Error::<T>::TooEarlyForRound
 		);
 
-- 
2.43.0


From 669c07d24845f3e3438d4b98b51ebe1c63e2d0ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:21 +0000
Subject: [PATCH 06/10] fix: an offchain migration is confirmed once

Confirming the same user again decremented UnmigratedCounter each time, so the project could be marked as migrated while
other users were still pending.
---
 pallets/funding/src/functions/misc.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pallets/funding/src/functions/misc.rs b/pallets/funding/src/functions/misc.rs
index d9c1eac..cf37518 100644
--- a/pallets/funding/src/functions/misc.rs
+++ b/pallets/funding/src/functions/misc.rs
@@ -369,7 +369,8 @@ impl<T: Config> Pallet<T> {
 				if matches!(current_status, MigrationStatus::NotStarted | MigrationStatus::Failed) =>
 				status,
 			MigrationStatus::Confirmed
-				if matches!(project_details.migration_type, Some(MigrationType::Offchain)) ||
+				if (matches!(project_details.migration_type, Some(MigrationType::Offchain)) &&
+					!matches!(current_status, MigrationStatus::Confirmed)) ||
 					(matches!(project_details.migration_type, Some(MigrationType::Pallet(_))) &&
 						matches!(current_status, MigrationStatus::Sent(_))) =>
 			{
-- 
2.43.0


From 490e3c3ac619303981e44f5da2aa211cc06eb501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:21 +0000
Subject: [PATCH 07/10] fix: an empty assets response fails the readiness check

Indexing the first asset panicked when the project chain reported no assets.
---
 pallets/funding/src/functions/7_ct_migration.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/pallets/funding/src/functions/7_ct_migration.rs b/pallets/funding/src/functions/7_ct_migration.rs
index 001e507..79165e7 100644
--- a/pallets/funding/src/functions/7_ct_migration.rs
+++ b/pallets/funding/src/functions/7_ct_migration.rs
@@ -345,11 +345,10 @@ impl<T: Config> Pallet<T> {
 			) => {
 				let ct_sold_as_u128: u128 = contribution_tokens_sold;
 				let assets: Vec<Asset> = assets.into_inner();
-				let asset_1 = assets[0].clone();
-				match asset_1 {
-					Asset { id: AssetId(location), fun: Fungible(amount) }
-						if amount >= ct_sold_as_u128 &&
-							get_parachain_id(&location.clone()).ok_or(Error::<T>::WrongParaId)? ==
+				match assets.first() {
+					Some(Asset { id: AssetId(location), fun: Fungible(amount) })
+						if *amount >= ct_sold_as_u128 &&
+							get_parachain_id(location).ok_or(Error::<T>::WrongParaId)? ==
 								u32::from(para_id) =>
 					{
 						check.holding_check.1 = CheckOutcome::Passed(None);
-- 
2.43.0


From dabd5feab7812e59bfa49c9dbac18f84267efcae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:21 +0000
Subject: [PATCH 08/10] fix: removing a project frees the DID it was created
 with

The DID of the removing call was freed instead, which left the creating DID blocked when the issuer account had changed
its DID, and freed another DID that could have an active project.
---
 pallets/funding/src/functions/1_application.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pallets/funding/src/functions/1_application.rs b/pallets/funding/src/functions/1_application.rs
index eaf95b7..1c28c74 100644
--- a/pallets/funding/src/functions/1_application.rs
+++ b/pallets/funding/src/functions/1_application.rs
@@ -123,7 +123,7 @@ impl<T: Config> Pallet<T> {
 	}
 
 	#[transactional]
-	pub fn do_remove_project(issuer: AccountIdOf<T>, project_id: ProjectId, did: Did) -> DispatchResult {
+	pub fn do_remove_project(issuer: AccountIdOf<T>, project_id: ProjectId, _did: Did) -> DispatchResult {
 		// * Get variables *
 		let project_details = ProjectsDetails::<T>::get(project_id).ok_or(Error::<T>::ProjectDetailsNotFound)?;
 
@@ -134,7 +134,7 @@ impl<T: Config> Pallet<T> {
 		// * Update storage *
 		ProjectsDetails::<T>::remove(project_id);
 		ProjectsMetadata::<T>::remove(project_id);
-		DidWithActiveProjects::<T>::set(did, None);
+		DidWithActiveProjects::<T>::set(project_details.issuer_did, None);
 		Buckets::<T>::remove(project_id);
 
 		// * Emit events *
-- 
2.43.0


From 78f0aedbde59c3cfde5f93f40e964601aaae9759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:58 +0000
Subject: [PATCH 09/10] fix: the state check reports members that are
 candidates or runners-up

Each overlap alone went unreported: the check failed only when members overlapped with both sets.
---
 pallets/elections-phragmen/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pallets/elections-phragmen/src/lib.rs b/pallets/elections-phragmen/src/lib.rs
index 9f2dce3..72f429e 100644
--- a/pallets/elections-phragmen/src/lib.rs
+++ b/pallets/elections-phragmen/src/lib.rs
@@ -1174,7 +1174,7 @@ impl<T: Config> Pallet<T> {
 	//  - Members and candidates sets are disjoint;
 	//  - Members and runners-ups sets are disjoint.
 	fn try_state_members_disjoint() -> Result<(), TryRuntimeError> {
-		match Self::intersects(&Pallet::<T>::members_ids(), &Self::candidates_ids()) &&
+		match Self::intersects(&Pallet::<T>::members_ids(), &Self::candidates_ids()) ||
 			Self::intersects(&Pallet::<T>::members_ids(), &Self::runners_up_ids())
 		{
 			true => Err("Members set should be disjoint from candidates and runners-up sets".into()),
-- 
2.43.0


From fd6dd91f584fea953444acf9c7616f22773ab391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:17:58 +0000
Subject: [PATCH 10/10] fix: the readiness check asks under the query ids it
 waits for

---
 pallets/funding/src/functions/7_ct_migration.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pallets/funding/src/functions/7_ct_migration.rs b/pallets/funding/src/functions/7_ct_migration.rs
index 79165e7..4d7142a 100644
--- a/pallets/funding/src/functions/7_ct_migration.rs
+++ b/pallets/funding/src/functions/7_ct_migration.rs
@@ -278,7 +278,7 @@ impl<T: Config> Pallet<T> {
 			ReportHolding {
 				response_info: QueryResponseInfo {
 					destination: ParentThen(Parachain(POLIMEC_PARA_ID).into()).into(),
-					query_id: 0,
+					query_id: query_id_holdings,
 					max_weight,
 				},
 				assets: Wild(All),
@@ -287,7 +287,7 @@ impl<T: Config> Pallet<T> {
 				module_name: Vec::from("polimec_receiver"),
 				response_info: QueryResponseInfo {
 					destination: ParentThen(Parachain(POLIMEC_PARA_ID).into()).into(),
-					query_id: 1,
+					query_id: query_id_pallet,
 					max_weight,
 				},
 			},
-- 
2.43.0

