From 33aefd9f95222089b636f187e441dd8213d6f6e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:32 +0000
Subject: [PATCH 01/23] verif: expose mem-store flag behind build tag verif

---
 x/bundles/keeper/verif_hooks.go    | 9 +++++++++
 x/delegation/keeper/verif_hooks.go | 9 +++++++++
 2 files changed, 18 insertions(+)
 create mode 100644 x/bundles/keeper/verif_hooks.go
 create mode 100644 x/delegation/keeper/verif_hooks.go

diff --git a/x/bundles/keeper/verif_hooks.go b/x/bundles/keeper/verif_hooks.go
new file mode 100644
index 0000000..8a2ab7f
--- /dev/null
+++ b/x/bundles/keeper/verif_hooks.go
@@ -0,0 +1,9 @@
+//go:build verif
+
+package keeper
+
+// VerifMemStoreFlag exposes the process-global flag which records that the
+// in-memory indexes have been rebuilt. A simulator that runs several nodes
+// (and restarts them) inside one process gives every node its own copy.
+// Only compiled with the build tag "verif".
+func VerifMemStoreFlag() *bool { return &memStoreInitialized }
diff --git a/x/delegation/keeper/verif_hooks.go b/x/delegation/keeper/verif_hooks.go
new file mode 100644
index 0000000..8a2ab7f
--- /dev/null
+++ b/x/delegation/keeper/verif_hooks.go
@@ -0,0 +1,9 @@
+//go:build verif
+
+package keeper
+
+// VerifMemStoreFlag exposes the process-global flag which records that the
+// in-memory indexes have been rebuilt. A simulator that runs several nodes
+// (and restarts them) inside one process gives every node its own copy.
+// Only compiled with the build tag "verif".
+func VerifMemStoreFlag() *bool { return &memStoreInitialized }
-- 
2.43.0


From 0a7c7937675617d493d028b43027d7ea7a9b663b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:30 +0000
Subject: [PATCH 02/23] fix: never choose an excluded validator as next
 uploader

The search for the validator with the most progress started with the first
validator of the set even if that one is excluded, so an excluded validator
was chosen whenever it had the highest progress.
---
 x/bundles/keeper/logic_round_robin.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/x/bundles/keeper/logic_round_robin.go b/x/bundles/keeper/logic_round_robin.go
index 56366f7..924bed1 100644
--- a/x/bundles/keeper/logic_round_robin.go
+++ b/x/bundles/keeper/logic_round_robin.go
@@ -246,10 +246,10 @@ func (vs *RoundRobinValidatorSet) NextProposer(excludedAddresses ...string) stri
 		}
 	}
 
-	currentMaxValidator := vs.Validators[0].Address
+	currentMaxValidator := ""
 	for _, validator := range vs.Validators {
 		if !mapExcludedAddresses[validator.Address] {
-			if vs.Progress[validator.Address] > vs.Progress[currentMaxValidator] {
+			if currentMaxValidator == "" || vs.Progress[validator.Address] > vs.Progress[currentMaxValidator] {
 				currentMaxValidator = validator.Address
 			}
 		}
-- 
2.43.0


From cd3ebddc922cbf6c6b1a06d026dea29d4b860295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:30 +0000
Subject: [PATCH 03/23] fix: storage cost of bundles with huge data size

A data size of 2^63 or more turned negative, which made the evaluation of
the bundle panic, also in the end blocker where it halts the chain.
---
 x/bundles/keeper/logic_bundles.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/x/bundles/keeper/logic_bundles.go b/x/bundles/keeper/logic_bundles.go
index a9b30c7..a11a01b 100644
--- a/x/bundles/keeper/logic_bundles.go
+++ b/x/bundles/keeper/logic_bundles.go
@@ -280,7 +280,7 @@ func (k Keeper) calculatePayouts(ctx sdk.Context, poolId uint64, totalPayout sdk
 	wantedStorageRewards := sdk.NewCoins()
 	// storageCostPerCoin is the storage cost in $USD for each coin. This implies that each coin contributes the same
 	// amount of value to the storage rewards
-	storageCostPerCoin := k.GetStorageCost(ctx, bundleProposal.StorageProviderId).MulInt64(int64(bundleProposal.DataSize)).QuoInt64(int64(totalPayout.Len()))
+	storageCostPerCoin := k.GetStorageCost(ctx, bundleProposal.StorageProviderId).MulInt(math.NewIntFromUint64(bundleProposal.DataSize)).QuoInt64(int64(totalPayout.Len()))
 	for _, coin := range totalPayout {
 		weight := whitelist[coin.Denom].CoinWeight
 		if weight.IsZero() {
-- 
2.43.0


From f1ab9483026f19d45ae41da3d29e4c6beec37c29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:53 +0000
Subject: [PATCH 04/23] fix: reject funding a pool with no coins

---
 x/funders/keeper/msg_server_fund_pool.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/x/funders/keeper/msg_server_fund_pool.go b/x/funders/keeper/msg_server_fund_pool.go
index 7fcf087..be857c3 100644
--- a/x/funders/keeper/msg_server_fund_pool.go
+++ b/x/funders/keeper/msg_server_fund_pool.go
@@ -64,6 +64,11 @@ func (k msgServer) FundPool(goCtx context.Context, msg *types.MsgFundPool) (*typ
 		return nil, err
 	}
 
+	// A funding without any coins can not pay for a bundle and must not take a funding slot
+	if funding.Amounts.IsZero() {
+		return nil, types.ErrMinFundingAmount
+	}
+
 	// Kicks out lowest funder if all slots are taken and new funder is about to fund more.
 	// Otherwise, an error is thrown
 	// funding and fundingState are not written to the KV-Store. Everything else is handled safely.
-- 
2.43.0


From 8b17bc4a3a94cb67db38e467549b25269bc62765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:53 +0000
Subject: [PATCH 05/23] fix: topping up an active funding never evicts another
 funder

---
 x/funders/keeper/logic_funders.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/x/funders/keeper/logic_funders.go b/x/funders/keeper/logic_funders.go
index 7b1f245..4da6393 100644
--- a/x/funders/keeper/logic_funders.go
+++ b/x/funders/keeper/logic_funders.go
@@ -199,16 +199,18 @@ func (k Keeper) ensureFreeSlot(ctx sdk.Context, newFunding *types.Funding, fundi
 		return nil
 	}
 
+	for _, activeFunding := range activeFundings {
+		if activeFunding.FunderAddress == newFunding.FunderAddress {
+			// Funder already has a funding slot
+			return nil
+		}
+	}
+
 	lowestFunding, err := k.GetLowestFunding(ctx, activeFundings)
 	if err != nil {
 		return err
 	}
 
-	if lowestFunding.FunderAddress == newFunding.FunderAddress {
-		// Funder already has a funding slot
-		return nil
-	}
-
 	whitelist := k.GetCoinWhitelistMap(ctx)
 
 	// Check if lowest funding is lower than new funding based on amount (amount per bundle is ignored)
-- 
2.43.0


From 9aa19cd112182f92f0da845590ea034885a05b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:54 +0000
Subject: [PATCH 06/23] fix: whitelisted coins without a minimum can be funded

---
 x/funders/keeper/logic_funders.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/x/funders/keeper/logic_funders.go b/x/funders/keeper/logic_funders.go
index 4da6393..a353057 100644
--- a/x/funders/keeper/logic_funders.go
+++ b/x/funders/keeper/logic_funders.go
@@ -152,14 +152,22 @@ func (k Keeper) ensureParamsCompatibility(ctx sdk.Context, funding *types.Fundin
 		return types.ErrInvalidAmountPerBundleCoin
 	}
 
+	// the minimums can not be used to look up whitelisted coins because a minimum of
+	// zero does not show up in them
+	whitelist := k.GetCoinWhitelistMap(ctx)
+
 	// throw error if a coin in amounts is not in the whitelist
-	if !funding.Amounts.DenomsSubsetOf(minFundingAmounts) {
-		return types.ErrCoinNotWhitelisted
+	for _, coin := range funding.Amounts {
+		if _, found := whitelist[coin.Denom]; !found {
+			return types.ErrCoinNotWhitelisted
+		}
 	}
 
 	// throw error if a coin in amounts per bundle is not in the whitelist
-	if !funding.AmountsPerBundle.DenomsSubsetOf(minFundingAmountsPerBundle) {
-		return types.ErrAmountPerBundleCoinNotWhitelisted
+	for _, coin := range funding.AmountsPerBundle {
+		if _, found := whitelist[coin.Denom]; !found {
+			return types.ErrAmountPerBundleCoinNotWhitelisted
+		}
 	}
 
 	// throw error if a coin is less than the minimum funding amount
-- 
2.43.0


From 90bb19b0c85a0bbeaf9613f75c57f7a604013f21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:34 +0000
Subject: [PATCH 07/23] fix: only delegators can start an undelegation

---
 x/delegation/keeper/msg_server_undelegate.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/x/delegation/keeper/msg_server_undelegate.go b/x/delegation/keeper/msg_server_undelegate.go
index cc1217a..ab226db 100644
--- a/x/delegation/keeper/msg_server_undelegate.go
+++ b/x/delegation/keeper/msg_server_undelegate.go
@@ -14,6 +14,11 @@ import (
 func (k msgServer) Undelegate(goCtx context.Context, msg *types.MsgUndelegate) (*types.MsgUndelegateResponse, error) {
 	ctx := sdk.UnwrapSDKContext(goCtx)
 
+	// Check if the sender is a delegator
+	if !k.DoesDelegatorExist(ctx, msg.Staker, msg.Creator) {
+		return nil, types.ErrNotADelegator.Wrapf("%s does not delegate to %s", msg.Creator, msg.Staker)
+	}
+
 	// Do not allow to undelegate more than currently delegated
 	if delegationAmount := k.GetDelegationAmountOfDelegator(ctx, msg.Staker, msg.Creator); msg.Amount > delegationAmount {
 		return nil, types.ErrNotEnoughDelegation.Wrapf("%d > %d", msg.Amount, delegationAmount)
-- 
2.43.0


From b6bb36c5a21338b190cca3b72a58f6addd8756c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:50 +0000
Subject: [PATCH 08/23] fix: cancel a pending pool leave when the validator is
 removed from the pool

---
 x/stakers/keeper/exported_functions.go |  3 +++
 x/stakers/keeper/logic_leave.go        | 14 ++++++++++++++
 2 files changed, 17 insertions(+)

diff --git a/x/stakers/keeper/exported_functions.go b/x/stakers/keeper/exported_functions.go
index c661b45..cd7c0c8 100644
--- a/x/stakers/keeper/exported_functions.go
+++ b/x/stakers/keeper/exported_functions.go
@@ -22,6 +22,9 @@ import (
 func (k Keeper) LeavePool(ctx sdk.Context, staker string, poolId uint64) {
 	k.RemoveValaccountFromPool(ctx, poolId, staker)
 
+	// a leave which is still in progress must not hit the staker again after re-joining
+	k.cancelLeavePool(ctx, staker, poolId)
+
 	_ = ctx.EventManager().EmitTypedEvent(&types.EventLeavePool{
 		PoolId: poolId,
 		Staker: staker,
diff --git a/x/stakers/keeper/logic_leave.go b/x/stakers/keeper/logic_leave.go
index 108f5f6..7e5c3f8 100644
--- a/x/stakers/keeper/logic_leave.go
+++ b/x/stakers/keeper/logic_leave.go
@@ -27,6 +27,20 @@ func (k Keeper) orderLeavePool(ctx sdk.Context, staker string, poolId uint64) er
 	return nil
 }
 
+// cancelLeavePool removes a pending queue entry of a staker who already left the pool in
+// another way, e.g. because the staker got kicked out.
+func (k Keeper) cancelLeavePool(ctx sdk.Context, staker string, poolId uint64) {
+	if !k.DoesLeavePoolEntryExistByIndex2(ctx, staker, poolId) {
+		return
+	}
+
+	for _, entry := range k.GetAllLeavePoolEntries(ctx) {
+		if entry.Staker == staker && entry.PoolId == poolId {
+			k.RemoveLeavePoolEntry(ctx, &entry)
+		}
+	}
+}
+
 // ProcessLeavePoolQueue ...
 func (k Keeper) ProcessLeavePoolQueue(ctx sdk.Context) {
 	k.processQueue(ctx, types.QUEUE_IDENTIFIER_LEAVE, func(index uint64) bool {
-- 
2.43.0


From f1bc118799d175956c7ccf07c7d03995fd48e6a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:32 +0000
Subject: [PATCH 09/23] fix: rebuild the in-memory index with every staker

---
 x/delegation/genesis.go                | 3 ++-
 x/delegation/keeper/keeper.go          | 4 ++--
 x/delegation/types/expected_keepers.go | 1 +
 3 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/x/delegation/genesis.go b/x/delegation/genesis.go
index eaf9867..ba81877 100644
--- a/x/delegation/genesis.go
+++ b/x/delegation/genesis.go
@@ -37,7 +37,8 @@ func InitGenesis(ctx sdk.Context, k keeper.Keeper, genState types.GenesisState)
 		k.SetRedelegationCooldown(ctx, entry)
 	}
 
-	k.InitMemStore(ctx)
+	// The in-memory index is built in the first BeginBlock because it
+	// also needs the stakers, which are imported later.
 }
 
 // ExportGenesis returns the capability module's exported genesis.
diff --git a/x/delegation/keeper/keeper.go b/x/delegation/keeper/keeper.go
index 7f54a34..c2ffa42 100644
--- a/x/delegation/keeper/keeper.go
+++ b/x/delegation/keeper/keeper.go
@@ -75,8 +75,8 @@ func (k Keeper) InitMemStore(gasCtx sdk.Context) {
 
 		// Update mem index
 		noGasCtx := gasCtx.WithBlockGasMeter(storetypes.NewInfiniteGasMeter())
-		for _, entry := range k.GetAllDelegationData(noGasCtx) {
-			k.SetStakerIndex(noGasCtx, entry.Staker)
+		for _, staker := range k.stakersKeeper.GetAllStakers(noGasCtx) {
+			k.SetStakerIndex(noGasCtx, staker.Address)
 		}
 
 		memStoreInitialized = true
diff --git a/x/delegation/types/expected_keepers.go b/x/delegation/types/expected_keepers.go
index 4597599..6c02f98 100644
--- a/x/delegation/types/expected_keepers.go
+++ b/x/delegation/types/expected_keepers.go
@@ -31,4 +31,5 @@ type StakersKeeper interface {
 	GetValaccountsFromStaker(ctx sdk.Context, stakerAddress string) (val []*stakerstypes.Valaccount)
 	GetPoolCount(ctx sdk.Context, stakerAddress string) (poolCount uint64)
 	GetActiveStakers(ctx sdk.Context) []string
+	GetAllStakers(ctx sdk.Context) []stakerstypes.Staker
 }
-- 
2.43.0


From 363e46827faa236dd0c0da61953ceab6fb34a7a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:05 +0000
Subject: [PATCH 10/23] fix: no points for not voting when there is no bundle
 proposal

---
 x/bundles/keeper/logic_bundles.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/x/bundles/keeper/logic_bundles.go b/x/bundles/keeper/logic_bundles.go
index a11a01b..3405f9a 100644
--- a/x/bundles/keeper/logic_bundles.go
+++ b/x/bundles/keeper/logic_bundles.go
@@ -214,6 +214,11 @@ func (k Keeper) handleNonVoters(ctx sdk.Context, poolId uint64) {
 	voters := map[string]bool{}
 	bundleProposal, _ := k.GetBundleProposal(ctx, poolId)
 
+	// there was nothing to vote on
+	if bundleProposal.StorageId == "" {
+		return
+	}
+
 	for _, address := range bundleProposal.VotersValid {
 		voters[address] = true
 	}
-- 
2.43.0


From b74c0136184b0fbac1fa6b5424619ef5d7d18a95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:14 +0000
Subject: [PATCH 11/23] fix: never keep a removed validator as next uploader

---
 x/bundles/keeper/msg_server_submit_bundle_proposal.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/x/bundles/keeper/msg_server_submit_bundle_proposal.go b/x/bundles/keeper/msg_server_submit_bundle_proposal.go
index b37ffd4..f0b60c0 100644
--- a/x/bundles/keeper/msg_server_submit_bundle_proposal.go
+++ b/x/bundles/keeper/msg_server_submit_bundle_proposal.go
@@ -56,7 +56,14 @@ func (k msgServer) SubmitBundleProposal(goCtx context.Context, msg *types.MsgSub
 	case types.TallyResultInvalid:
 		// Drop current bundle. Can't register the provided bundle because the previous bundles
 		// needs to be resubmitted first.
-		k.dropCurrentBundleProposal(ctx, msg.PoolId, result.VoteDistribution, bundleProposal.NextUploader)
+		nextUploader := bundleProposal.NextUploader
+
+		// The next uploader could have been removed from the pool while the previous round got evaluated
+		if !k.stakerKeeper.DoesValaccountExist(ctx, msg.PoolId, nextUploader) {
+			nextUploader = k.chooseNextUploader(ctx, msg.PoolId)
+		}
+
+		k.dropCurrentBundleProposal(ctx, msg.PoolId, result.VoteDistribution, nextUploader)
 
 		return &types.MsgSubmitBundleProposalResponse{}, nil
 	default:
-- 
2.43.0


From 97d76199c119d66f0c461d161a21d0e18c35d1e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:45 +0000
Subject: [PATCH 12/23] fix: no overflow when checking the available team
 allocation

---
 x/team/keeper/msg_server_create_team_vesting_account.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/x/team/keeper/msg_server_create_team_vesting_account.go b/x/team/keeper/msg_server_create_team_vesting_account.go
index f9924a6..f5c30ea 100644
--- a/x/team/keeper/msg_server_create_team_vesting_account.go
+++ b/x/team/keeper/msg_server_create_team_vesting_account.go
@@ -21,7 +21,8 @@ func (k msgServer) CreateTeamVestingAccount(goCtx context.Context, msg *types.Ms
 	}
 
 	// check if new team vesting account still has allocation left
-	if k.GetIssuedTeamAllocation(ctx)+msg.TotalAllocation > types.TEAM_ALLOCATION {
+	issuedAllocation := k.GetIssuedTeamAllocation(ctx)
+	if issuedAllocation > types.TEAM_ALLOCATION || msg.TotalAllocation > types.TEAM_ALLOCATION-issuedAllocation {
 		return nil, errors.Wrapf(errorsTypes.ErrLogic, types.ErrAvailableFundsTooLow.Error(), types.TEAM_ALLOCATION-k.GetIssuedTeamAllocation(ctx), msg.TotalAllocation)
 	}
 
-- 
2.43.0


From 02e7c246c565039c97eae9c031a2ea41d84dd6e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:55 +0000
Subject: [PATCH 13/23] fix: resetting a clawback can not exceed the team
 allocation

---
 x/team/keeper/msg_server_clawback.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/x/team/keeper/msg_server_clawback.go b/x/team/keeper/msg_server_clawback.go
index ddebb46..5af5745 100644
--- a/x/team/keeper/msg_server_clawback.go
+++ b/x/team/keeper/msg_server_clawback.go
@@ -34,6 +34,11 @@ func (k msgServer) Clawback(goCtx context.Context, msg *types.MsgClawback) (*typ
 	account.Clawback = msg.Clawback
 	k.SetTeamVestingAccount(ctx, account)
 
+	// moving or removing a clawback can only hand out allocation which is still available
+	if issuedAllocation := k.GetIssuedTeamAllocation(ctx); issuedAllocation > types.TEAM_ALLOCATION {
+		return nil, errors.Wrapf(sdkErrors.ErrLogic, types.ErrAvailableFundsTooLow.Error(), 0, issuedAllocation-types.TEAM_ALLOCATION)
+	}
+
 	_ = ctx.EventManager().EmitTypedEvent(&types.EventClawback{
 		Authority: msg.Authority,
 		Id:        account.Id,
-- 
2.43.0


From ed617077469b58d317e91fe0f67254955077cd87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:36 +0000
Subject: [PATCH 14/23] fix: refunding a fee does not use the fee grant a
 second time

---
 x/global/post.go  |  5 +----
 x/global/utils.go | 14 ++++----------
 2 files changed, 5 insertions(+), 14 deletions(-)

diff --git a/x/global/post.go b/x/global/post.go
index a4a7073..c324f05 100644
--- a/x/global/post.go
+++ b/x/global/post.go
@@ -70,10 +70,7 @@ func (rfd RefundFeeDecorator) PostHandle(ctx sdk.Context, tx sdk.Tx, simulate bo
 	}
 
 	// Send the refund back to this transaction's fee payer.
-	account, err := GetFeeAccount(ctx, feeTx, rfd.feeGrantKeeper)
-	if err != nil {
-		return ctx, err
-	}
+	account := GetFeeAccount(feeTx)
 	err = rfd.bankKeeper.SendCoinsFromModuleToAccount(ctx, authTypes.FeeCollectorName, account, refund)
 	if err != nil {
 		return ctx, err
diff --git a/x/global/utils.go b/x/global/utils.go
index 3584957..459ce59 100644
--- a/x/global/utils.go
+++ b/x/global/utils.go
@@ -12,30 +12,24 @@ import (
 
 	// Auth
 	"github.com/cosmos/cosmos-sdk/x/auth/ante"
-	// FeeGrant
-	feeGrantKeeper "cosmossdk.io/x/feegrant/keeper"
 	// Global
 	"github.com/KYVENetwork/chain/x/global/keeper"
 	// Staking
 	stakingKeeper "github.com/cosmos/cosmos-sdk/x/staking/keeper"
 )
 
-func GetFeeAccount(ctx sdk.Context, tx sdk.FeeTx, feeGrantKeeper feeGrantKeeper.Keeper) (sdk.AccAddress, error) {
-	fee := tx.GetFee()
+// GetFeeAccount returns the account which paid the fee of the transaction. The fee grant
+// itself was already used when the fee got deducted.
+func GetFeeAccount(tx sdk.FeeTx) sdk.AccAddress {
 	feePayer := tx.FeePayer()
 	feeGranter := tx.FeeGranter()
 
 	account := feePayer
 	if feeGranter != nil && !bytes.Equal(feeGranter, feePayer) {
-		err := feeGrantKeeper.UseGrantedFees(ctx, feeGranter, feePayer, fee, tx.GetMsgs())
-		if err != nil {
-			return nil, sdkErrors.Wrapf(err, "%s does not not allow to pay fees for %s", feeGranter, feePayer)
-		}
-
 		account = feeGranter
 	}
 
-	return account, nil
+	return account
 }
 
 // BuildTxFeeChecker ensures that the configured minimum gas price is met.
-- 
2.43.0


From 44ac8af9e1adfb426d379ea0f259b995bfa59c57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:56 +0000
Subject: [PATCH 15/23] fix: governance tally with a protocol validator without
 delegation

---
 x/stakers/keeper/exported_functions.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/x/stakers/keeper/exported_functions.go b/x/stakers/keeper/exported_functions.go
index cd7c0c8..431b8b7 100644
--- a/x/stakers/keeper/exported_functions.go
+++ b/x/stakers/keeper/exported_functions.go
@@ -102,6 +102,12 @@ func (k Keeper) GetActiveValidators(ctx context.Context) (validators []interface
 	for _, address := range k.getAllActiveStakers(sdkCtx) {
 		delegation := int64(k.delegationKeeper.GetDelegationAmount(sdkCtx, address))
 
+		// the tally divides by the delegator shares, a validator without
+		// delegation has no voting power anyway
+		if delegation == 0 {
+			continue
+		}
+
 		validator := govV1Types.NewValidatorGovInfo(
 			sdk.ValAddress(sdk.MustAccAddressFromBech32(address)),
 			math.NewInt(delegation),
-- 
2.43.0


From e354ccdb3e8390986c8b2da4cdb669aa1113e2c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:56 +0000
Subject: [PATCH 16/23] fix: no delegation is left behind when the last
 delegator leaves

---
 x/delegation/keeper/logic_f1distribution.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/x/delegation/keeper/logic_f1distribution.go b/x/delegation/keeper/logic_f1distribution.go
index 053b78e..28eef96 100644
--- a/x/delegation/keeper/logic_f1distribution.go
+++ b/x/delegation/keeper/logic_f1distribution.go
@@ -140,6 +140,8 @@ func (k Keeper) f1RemoveDelegator(ctx sdk.Context, stakerAddress string, delegat
 
 	// Final cleanup
 	if delegationData.DelegatorCount == 0 {
+		// slashes round in favor of the total delegation, nobody owns what is left
+		delegationData.TotalDelegation = 0
 		k.RemoveDelegationEntry(ctx, stakerAddress, delegationData.LatestIndexK)
 	}
 	k.SetDelegationData(ctx, delegationData)
-- 
2.43.0


From c84bd2b1037522523b2ad6bbf4b2514037576b22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:40 +0000
Subject: [PATCH 17/23] fix: paging the active stakers starts at the requested
 offset

---
 x/delegation/keeper/getters_index_stakers.go | 33 +++++++++++++-------
 1 file changed, 22 insertions(+), 11 deletions(-)

diff --git a/x/delegation/keeper/getters_index_stakers.go b/x/delegation/keeper/getters_index_stakers.go
index 4974608..e54750a 100644
--- a/x/delegation/keeper/getters_index_stakers.go
+++ b/x/delegation/keeper/getters_index_stakers.go
@@ -16,6 +16,23 @@ import (
 	"google.golang.org/grpc/status"
 )
 
+// parseArrayPagination validates the query.PageRequest and returns
+// the offset of the first element of the page and the maximum page length.
+func parseArrayPagination(pagination *query.PageRequest) (offset, limit int, err error) {
+	// the page number is not used, because the offset does not have to be
+	// a multiple of the limit
+	_, limit, err = query.ParsePagination(pagination)
+	if err != nil {
+		return 0, 0, err
+	}
+
+	if pagination != nil {
+		offset = int(pagination.Offset)
+	}
+
+	return offset, limit, nil
+}
+
 // arrayPagination helps to parse the query.PageRequest for an array
 // instead of a KV-Store.
 func arrayPagination(slice []string, pagination *query.PageRequest) ([]string, *query.PageResponse, error) {
@@ -23,17 +40,13 @@ func arrayPagination(slice []string, pagination *query.PageRequest) ([]string, *
 		return nil, nil, fmt.Errorf("key pagination not supported")
 	}
 
-	page, limit, err := query.ParsePagination(pagination)
+	offset, limit, err := parseArrayPagination(pagination)
 	if err != nil {
 		return nil, nil, err
 	}
 
-	resultLength := util.MinInt(limit, len(slice)-page*limit)
-	result := make([]string, resultLength)
-
-	for i := 0; i < resultLength; i++ {
-		result[i] = slice[page*limit+i]
-	}
+	start := util.MinInt(offset, len(slice))
+	result := slice[start : start+util.MinInt(limit, len(slice)-start)]
 
 	pageRes := &query.PageResponse{
 		NextKey: nil,
@@ -50,17 +63,15 @@ func arrayPaginationAccumulator(slice []string, pagination *query.PageRequest, a
 		return nil, fmt.Errorf("key pagination not supported")
 	}
 
-	page, limit, err := query.ParsePagination(pagination)
+	offset, limit, err := parseArrayPagination(pagination)
 	if err != nil {
 		return nil, err
 	}
 
 	count := 0
-	minIndex := (page - 1) * limit
-	maxIndex := (page) * limit
 
 	for i := 0; i < len(slice); i++ {
-		if accumulator(slice[i], count >= minIndex && count < maxIndex) {
+		if accumulator(slice[i], count >= offset && count-offset < limit) {
 			count++
 		}
 	}
-- 
2.43.0


From 2fc95597449742271cba5bea870bdcd849c5eab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:44 +0000
Subject: [PATCH 18/23] fix: available redelegation slots do not underflow

---
 x/query/keeper/grpc_account_redelegation.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/x/query/keeper/grpc_account_redelegation.go b/x/query/keeper/grpc_account_redelegation.go
index d6bac7d..5cc54f2 100644
--- a/x/query/keeper/grpc_account_redelegation.go
+++ b/x/query/keeper/grpc_account_redelegation.go
@@ -31,8 +31,14 @@ func (k Keeper) AccountRedelegation(goCtx context.Context, req *types.QueryAccou
 		}
 	}
 
+	// The maximum can be lower than the used slots if it was decreased by the governance
+	availableSlots := uint64(0)
+	if maxAmount := k.delegationKeeper.GetRedelegationMaxAmount(ctx); maxAmount > usedSlots {
+		availableSlots = maxAmount - usedSlots
+	}
+
 	return &types.QueryAccountRedelegationResponse{
 		RedelegationCooldownEntries: redelegationEntries,
-		AvailableSlots:              k.delegationKeeper.GetRedelegationMaxAmount(ctx) - usedSlots,
+		AvailableSlots:              availableSlots,
 	}, nil
 }
-- 
2.43.0


From 5ac37f465147251e9af9878feb9bae1dade9987b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:45 +0000
Subject: [PATCH 19/23] fix: an offset behind the last bundle gives an empty
 page in reverse order

---
 x/bundles/keeper/getters_bundles.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/x/bundles/keeper/getters_bundles.go b/x/bundles/keeper/getters_bundles.go
index 17f222d..288e7c8 100644
--- a/x/bundles/keeper/getters_bundles.go
+++ b/x/bundles/keeper/getters_bundles.go
@@ -244,7 +244,7 @@ func (k Keeper) GetPaginatedFinalizedBundleQuery(ctx sdk.Context, pagination *qu
 	// Translate offset to next page keys
 	if len(key) == 0 {
 		if reverse {
-			pagination.Key = util.GetByteKey(pageResponse.Total - offset)
+			pagination.Key = util.GetByteKey(pageResponse.Total - util.MinUInt64(offset, pageResponse.Total))
 		} else {
 			pagination.Key = util.GetByteKey(offset)
 		}
-- 
2.43.0


From ad89ef3d81724dc62b435a5ba338d4e5c4554bd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:37 +0000
Subject: [PATCH 20/23] fix: zero height export works for validators without
 commission

---
 app/export.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/app/export.go b/app/export.go
index c5d0fff..2a5ffe4 100644
--- a/app/export.go
+++ b/app/export.go
@@ -2,6 +2,7 @@ package app
 
 import (
 	"encoding/json"
+	"errors"
 	"fmt"
 	"log"
 
@@ -11,6 +12,8 @@ import (
 	serverTypes "github.com/cosmos/cosmos-sdk/server/types"
 	sdk "github.com/cosmos/cosmos-sdk/types"
 
+	// Distribution
+	distributionTypes "github.com/cosmos/cosmos-sdk/x/distribution/types"
 	// Slashing
 	slashingTypes "github.com/cosmos/cosmos-sdk/x/slashing/types"
 	// Staking
@@ -84,7 +87,8 @@ func (app *App) prepForZeroHeightGenesis(ctx sdk.Context, jailAllowedAddrs []str
 			log.Panic(err)
 		}
 		_, err = app.DistributionKeeper.WithdrawValidatorCommission(ctx, valAddr)
-		if err != nil {
+		// a validator without any commission has nothing to withdraw
+		if err != nil && !errors.Is(err, distributionTypes.ErrNoValidatorCommission) {
 			log.Panic(err)
 		}
 		return false
-- 
2.43.0


From fe6ba797c7c52ebf05f6f18cbc87f40dc65d819e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:40 +0000
Subject: [PATCH 21/23] fix: keep amounts and weights above 2^63 in the v1.5
 migration

The migration converted unsigned 64 bit amounts of v1.4 to int64, so that a
funding with an amount per bundle above 2^63 (allowed with a funding multiple
of zero) panicked and halted the chain at the upgrade, and a proposed pool
with such a weight got a negative one.
---
 app/upgrades/v1_5/upgrade.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/app/upgrades/v1_5/upgrade.go b/app/upgrades/v1_5/upgrade.go
index aafcbf3..2c2bc47 100644
--- a/app/upgrades/v1_5/upgrade.go
+++ b/app/upgrades/v1_5/upgrade.go
@@ -161,7 +161,7 @@ func migrateOldGovProposals(sdkCtx sdk.Context, cdc codec.Codec, govStoreKey sto
 					Config:               oldMsgCreatePool.Config,
 					StartKey:             oldMsgCreatePool.StartKey,
 					UploadInterval:       oldMsgCreatePool.UploadInterval,
-					InflationShareWeight: math.LegacyNewDec(int64(oldMsgCreatePool.InflationShareWeight)),
+					InflationShareWeight: math.LegacyNewDecFromInt(math.NewIntFromUint64(oldMsgCreatePool.InflationShareWeight)),
 					MinDelegation:        oldMsgCreatePool.MinDelegation,
 					MaxBundleSize:        oldMsgCreatePool.MaxBundleSize,
 					Version:              oldMsgCreatePool.Version,
@@ -252,9 +252,9 @@ func migrateFundersModule(sdkCtx sdk.Context, cdc codec.Codec, fundersStoreKey s
 		fundersKeeper.SetFunding(sdkCtx, &fundersTypes.Funding{
 			FunderAddress:    f.FunderAddress,
 			PoolId:           f.PoolId,
-			Amounts:          sdk.NewCoins(sdk.NewInt64Coin(globalTypes.Denom, int64(f.Amount))),
-			AmountsPerBundle: sdk.NewCoins(sdk.NewInt64Coin(globalTypes.Denom, int64(f.AmountPerBundle))),
-			TotalFunded:      sdk.NewCoins(sdk.NewInt64Coin(globalTypes.Denom, int64(f.TotalFunded))),
+			Amounts:          sdk.NewCoins(sdk.NewCoin(globalTypes.Denom, math.NewIntFromUint64(f.Amount))),
+			AmountsPerBundle: sdk.NewCoins(sdk.NewCoin(globalTypes.Denom, math.NewIntFromUint64(f.AmountPerBundle))),
+			TotalFunded:      sdk.NewCoins(sdk.NewCoin(globalTypes.Denom, math.NewIntFromUint64(f.TotalFunded))),
 		})
 	}
 
@@ -277,7 +277,7 @@ func migrateDelegationModule(sdkCtx sdk.Context, cdc codec.Codec, delegationStor
 	for _, d := range oldDelegationData {
 		delegationKeeper.SetDelegationData(sdkCtx, delegationTypes.DelegationData{
 			Staker:                     d.Staker,
-			CurrentRewards:             sdk.NewCoins(sdk.NewInt64Coin(globalTypes.Denom, int64(d.CurrentRewards))),
+			CurrentRewards:             sdk.NewCoins(sdk.NewCoin(globalTypes.Denom, math.NewIntFromUint64(d.CurrentRewards))),
 			TotalDelegation:            d.TotalDelegation,
 			LatestIndexK:               d.LatestIndexK,
 			DelegatorCount:             d.DelegatorCount,
@@ -300,7 +300,7 @@ func migrateStakersModule(sdkCtx sdk.Context, cdc codec.Codec, stakersStoreKey s
 			Identity:          s.Identity,
 			SecurityContact:   s.SecurityContact,
 			Details:           s.Details,
-			CommissionRewards: sdk.NewCoins(sdk.NewInt64Coin(globalTypes.Denom, int64(s.CommissionRewards))),
+			CommissionRewards: sdk.NewCoins(sdk.NewCoin(globalTypes.Denom, math.NewIntFromUint64(s.CommissionRewards))),
 		})
 	}
 
-- 
2.43.0


From ecd83e105de66ef7ed29549167fbd53c148de994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:01 +0000
Subject: [PATCH 22/23] verif: remove the hooks, the simulator generates its
 seams in a build overlay

---
 x/bundles/keeper/verif_hooks.go    | 9 ---------
 x/delegation/keeper/verif_hooks.go | 9 ---------
 2 files changed, 18 deletions(-)
 delete mode 100644 x/bundles/keeper/verif_hooks.go
 delete mode 100644 x/delegation/keeper/verif_hooks.go

diff --git a/x/bundles/keeper/verif_hooks.go b/x/bundles/keeper/verif_hooks.go
deleted file mode 100644
index 8a2ab7f..0000000
--- a/x/bundles/keeper/verif_hooks.go
+++ /dev/null
@@ -1,9 +0,0 @@
-//go:build verif
-
-package keeper
-
-// VerifMemStoreFlag exposes the process-global flag which records that the
-// in-memory indexes have been rebuilt. A simulator that runs several nodes
-// (and restarts them) inside one process gives every node its own copy.
-// Only compiled with the build tag "verif".
-func VerifMemStoreFlag() *bool { return &memStoreInitialized }
diff --git a/x/delegation/keeper/verif_hooks.go b/x/delegation/keeper/verif_hooks.go
deleted file mode 100644
index 8a2ab7f..0000000
--- a/x/delegation/keeper/verif_hooks.go
+++ /dev/null
@@ -1,9 +0,0 @@
-//go:build verif
-
-package keeper
-
-// VerifMemStoreFlag exposes the process-global flag which records that the
-// in-memory indexes have been rebuilt. A simulator that runs several nodes
-// (and restarts them) inside one process gives every node its own copy.
-// Only compiled with the build tag "verif".
-func VerifMemStoreFlag() *bool { return &memStoreInitialized }
-- 
2.43.0


From 0aff4b354a0fb35df00d2efed66cf67aaa481b2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:08 +0000
Subject: [PATCH 23/23] fix: the remainder of the inflation split was paid once
 per idle pool

With several pools which cannot run it was transferred several times, at the
expense of the chain's share. With a protocol inflation share close to one the
fee collector could not cover it, which scheduled an emergency halt.
---
 x/bundles/abci.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/x/bundles/abci.go b/x/bundles/abci.go
index 0dbf318..26cc27d 100644
--- a/x/bundles/abci.go
+++ b/x/bundles/abci.go
@@ -85,6 +85,8 @@ func SplitInflation(ctx sdk.Context, k bundlesKeeper.Keeper, bk util.BankKeeper,
 				if err := util.TransferFromModuleToAddress(bk, ctx, authTypes.FeeCollectorName, pool.GetPoolAccount().String(), remainder); err != nil {
 					util.PanicHalt(uk, ctx, err.Error())
 				}
+				// there is only one remainder to give away
+				break
 			}
 		}
 	}
-- 
2.43.0

