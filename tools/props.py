#!/usr/bin/env python3
# Source of /verif/properties.jsonl (regenerate: python3 tools/props.py > properties.jsonl)
import json,sys
P=[]
def p(id,title,statement,over,text,why,files,mech,obs,hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=obs,hook_needed=hook)))
H=["histories","schedules","inputs"]
HF=["histories","schedules","fault_sequences"]
p("B01","Finalized bundles form an append-only, gap-free, immutable chain per pool",
"For every pool the finalized bundles carry consecutive ids starting at 0, each starts at the index and key where its predecessor ended, and the pool's progress (number of bundles, current index, current key and current summary) always equals the end of that chain. Once a bundle is finalized none of its recorded fields ever changes and it never disappears. Each finalized bundle records exactly the data, uploader and voting stake of the proposal that the pool's validators accepted.",
H,"every sequence of proposals, votes, skips, timeouts, validator churn and pool changes, on every pool",
"Tests replay a few hand-written rounds on one or two pools; the chain property is about all histories of rounds, drops, timeouts and upgrades mixed together.",
["x/bundles/keeper/logic_bundles.go","x/bundles/keeper/getters_bundles.go","x/pool/keeper/logic_pool.go","x/bundles/types/keys.go"],
[("finalization writes bundle and advances pool","x/bundles/keeper/logic_bundles.go finalizeCurrentBundleProposal"),("pool progress update","x/pool/keeper/logic_pool.go IncrementBundleInformation"),("index contiguity check on submit","x/bundles/keeper/logic_bundles.go AssertCanPropose")],
["finalized-bundle queries","pool queries","EventBundleFinalized"])
p("B02","A bundle is finalized or rejected only by delegated-stake majority",
"A proposed bundle is finalized only if the validators of the pool that voted valid hold more than half of the total stake delegated to the pool's validators at evaluation time, and is rejected as invalid only if those voting invalid hold at least half; abstentions and votes of validators that left the pool never count towards either side. Without such a majority the bundle is never finalized and the uploader is not punished for it. The verdict, its stake figures and the resulting finalized bundle reported to users agree with each other.",
H,"all vote sets, stake distributions, joins/leaves/slashes between vote and evaluation, and all evaluation paths (submit, skip, timeout)",
"Tests fix a few stake ratios; the thresholds, membership changes between vote and tally and all evaluation paths are a product space.",
["x/bundles/keeper/logic_bundles.go","x/bundles/keeper/logic_end_block_handle_upload_timeout.go","x/delegation/keeper/exported_functions.go"],
[("vote distribution and thresholds","x/bundles/keeper/logic_bundles.go GetVoteDistribution"),("evaluation on submit/skip/timeout","x/bundles/keeper/logic_bundles.go tallyBundleProposal; logic_end_block_handle_upload_timeout.go")],
["EventBundleFinalized","finalized bundles query","current vote status query"])
p("B03","Only eligible pool validators can propose, vote, claim or skip",
"A bundle proposal, vote, uploader claim or skip takes effect only if it is sent by the pool address registered for a current validator of that pool while the pool is able to run (not disabled, not upgrading, not finished, enough stake, no validator above the voting-power limit). Only the designated next uploader can propose or skip, not before the upload interval has passed, and only for the pool's next index; every validator's vote counts at most once per round and only an abstention may later be changed. The eligibility answers given by the corresponding queries agree with what a transaction would then do.",
["histories","schedules","inputs","configurations"],"all senders, pool addresses, timings, pool states and parameter settings",
"Tests check single rejected calls from fixed states; eligibility is a conjunction of many time- and history-dependent conditions.",
["x/bundles/keeper/logic_bundles.go","x/bundles/keeper/msg_server_submit_bundle_proposal.go","x/bundles/keeper/msg_server_vote_bundle_proposal.go","x/bundles/keeper/msg_server_claim_uploader_role.go","x/bundles/keeper/msg_server_skip_uploader_role.go","x/query/keeper/grpc_query_can_propose.go"],
[("AssertPoolCanRun / AssertCanVote / AssertCanPropose","x/bundles/keeper/logic_bundles.go"),("valaccount authorisation","x/stakers/keeper/exported_functions.go AssertValaccountAuthorized")],
["transaction results","can_propose/can_vote/can_validate queries","bundle proposal state"])
p("B04","The next uploader is eligible and chosen in proportion to stake",
"Whenever a round ends the validator designated to upload next is a current member of the pool with delegated stake, is one of those that voted valid if the bundle was accepted, and is never the validator that just skipped its turn while another candidate exists. Over consecutive rounds with unchanged membership and stake each validator's number of turns stays within a small constant of its stake share. The choice depends only on chain state, so every node makes the same one.",
["histories","schedules","configurations"],"all stake distributions, memberships and exclusion sets, over arbitrarily long sequences of rounds",
"Tests sample a few fixed stake vectors over short sequences without exclusions mixed in.",
["x/bundles/keeper/logic_round_robin.go","x/bundles/keeper/getters_round_robin.go","x/bundles/keeper/logic_bundles.go"],
[("weighted round robin","x/bundles/keeper/logic_round_robin.go"),("chooseNextUploader variants","x/bundles/keeper/logic_bundles.go")],
["bundle proposal next uploader","EventBundleProposed/Finalized next_uploader"])
p("B05","Rounds never get stuck: timeouts reassign or clear the uploader",
"If a pool can run and its designated uploader stays silent beyond the upload interval plus timeout, then within one block a new round state is reached: a pending bundle that has a majority is evaluated, one without is dropped, and the uploader is replaced or the role becomes claimable. If a pool cannot run, its uploader role is vacated and later becomes claimable again once it can run. Once faults stop and an honest majority of stake participates, every runnable pool finalizes bundles within a bounded number of upload intervals.",
HF,"all crash/silence patterns of protocol validators and all timings of joins, leaves, disabling, upgrades and parameter changes",
"Liveness over arbitrary silence patterns and clock steps cannot be shown by fixed scenarios.",
["x/bundles/keeper/logic_end_block_handle_upload_timeout.go","x/bundles/keeper/logic_bundles.go"],
[("end-block timeout handling","x/bundles/keeper/logic_end_block_handle_upload_timeout.go HandleUploadTimeout")],
["bundle proposal state per block","finalized bundle count over time"])
p("B06","Only misbehaving validators are penalised, by exactly the configured fraction",
"Stake is slashed only for uploading a rejected bundle, voting against the accepted outcome of a round, or reaching the maximum of consecutive missed rounds or uploads; the slashed amount is exactly the configured fraction of the offender's total delegation, borne proportionally by its delegators and paid in full to the community treasury. A validator that uploads, skips or votes starts over with zero missed points, and every missed vote and every missed upload adds exactly one point. An offender slashed for a wrong upload or vote, or for reaching the point limit, is removed from that pool and no other validator's stake, points or membership changes.",
["histories","schedules","fault_sequences"],"all vote patterns, missed rounds, memberships in several pools and all slash fractions",
"Tests slash one or two stakers in fixed rounds; who is an offender depends on the whole round history.",
["x/bundles/keeper/logic_bundles.go","x/delegation/keeper/exported_functions.go","x/delegation/keeper/logic_f1distribution.go","x/stakers/keeper/exported_functions.go"],
[("slashing","x/delegation/keeper/exported_functions.go SlashDelegators"),("points","x/bundles/keeper/logic_bundles.go addPoint/handleNonVoters; x/stakers/keeper/exported_functions.go"),("round evaluation","x/bundles/keeper/logic_bundles.go tallyBundleProposal")],
["delegation amounts","valaccount points","community pool","EventSlash/EventPointIncreased"])
p("B07","Bundle payouts are conserved and split exactly by the pool's rules",
"The amount taken from the pool's funders and inflation account for a finalized bundle is paid out completely: network fee to the treasury, storage cost and commission to the uploader, and the rest to the uploader's delegators (or to the uploader if nobody delegates), per coin and with no amount created or lost. The uploader is reimbursed at most what was actually collected. Nobody is charged or paid for a bundle that is not finalized.",
H,"all funding mixes and denominations, data sizes, storage costs, fees, commissions and inflation shares",
"Tests use round numbers and one or two coins; truncation and cut-offs need arbitrary values.",
["x/bundles/keeper/logic_bundles.go","x/funders/keeper/logic_funders.go","x/pool/keeper/logic_pool.go"],
[("payout computation","x/bundles/keeper/logic_bundles.go calculatePayouts"),("charging","x/funders/keeper/logic_funders.go ChargeFundersOfPool; x/pool/keeper/logic_pool.go ChargeInflationPool")],
["balances","commission rewards","outstanding delegation rewards","EventBundleFinalized amounts"])
p("D01","Delegated funds are always fully backed and correctly accounted",
"At every block the delegation module holds at least the sum of all current delegations, all pending unbondings and all unwithdrawn delegation rewards, so every delegator could withdraw and undelegate everything at any time. A delegator's stake changes only through its own delegate, undelegate and redelegate transactions or a slash of its validator, and every validator's reported total delegation and delegator count agree with its individual delegators up to rounding dust from slashes. No sequence of operations lets anybody withdraw more than they put in plus their rewards.",
H,"all interleavings of delegate, undelegate, redelegate, withdraw, payout and slash by any number of delegators",
"Rounding and period bookkeeping errors accumulate over long random histories that fixed scenarios do not contain.",
["x/delegation/keeper/logic_f1distribution.go","x/delegation/keeper/logic_delegation.go","x/delegation/keeper/logic_unbonding.go","x/delegation/keeper/getters_delegator.go"],
[("F1 periods and slashes","x/delegation/keeper/logic_f1distribution.go"),("delegate/undelegate","x/delegation/keeper/logic_delegation.go")],
["delegation module balance","delegator queries","outstanding rewards"])
p("D02","Delegation rewards are paid pro rata to stake at payout time",
"Every reward paid to a validator's delegators is credited to exactly the addresses delegating at that moment, in proportion to their (slashed) stake, per coin and up to rounding of a few base units. Credited rewards only grow until they are paid out and are paid out exactly once, to the delegator itself, whenever it withdraws or its stake with that validator changes. Delegating, undelegating or slashing never changes rewards already earned by anyone.",
H,"all histories of payouts in several coins interleaved with stake changes and slashes",
"Tests check a handful of payout sequences; the lazy period accounting must agree with the direct definition on every history.",
["x/delegation/keeper/logic_f1distribution.go","x/delegation/keeper/exported_functions.go","x/delegation/keeper/getters_delegation_data.go"],
[("F1 fee distribution","x/delegation/keeper/logic_f1distribution.go"),("withdraw","x/delegation/keeper/logic_delegation.go performWithdrawal")],
["outstanding rewards query","balances on withdrawal","EventWithdrawRewards"])
p("D03","Unbonding pays out exactly once, after exactly the unbonding time, in order",
"An accepted undelegation leaves the stake active (earning and slashable) until the unbonding time has passed and is then completed in the first block at or after that moment, in the order requested. At completion the delegator receives the requested amount, or what is left of its stake if slashing reduced it, exactly once together with its outstanding rewards. A pending undelegation is never lost, duplicated, or completed early, whatever blocks, restarts or parameter changes happen in between.",
["histories","schedules","fault_sequences","crash_points"],"all block times, multiple pending requests, slashes and restarts in between",
"Tests jump the clock once; ordering, irregular block times and slashes during unbonding are not covered together.",
["x/delegation/keeper/logic_unbonding.go","x/delegation/keeper/getters_undelegation.go","x/delegation/keeper/msg_server_undelegate.go"],
[("unbonding queue","x/delegation/keeper/logic_unbonding.go")],["balances","unbondings query","EventUndelegate"])
p("D04","Redelegation moves stake atomically and respects its cooldown",
"A redelegation moves exactly the requested stake from one validator to another validator that is active in a pool, instantly and without any loss, or has no effect. No address ever completes more than the allowed number of redelegations within any cooldown window, nor two in the same block second, and an expired slot becomes usable again. The remaining slots and cooldown end times reported to users match what is enforced.",
H,"all sequences and timings of redelegations and parameter changes",
"Window limits are history properties; tests cover one exhausted window.",
["x/delegation/keeper/logic_redelegation.go","x/delegation/keeper/msg_server_redelegate.go","x/delegation/keeper/getters_redelegation.go","x/query/keeper/grpc_account_redelegation.go"],
[("cooldown slots","x/delegation/keeper/logic_redelegation.go consumeRedelegationSpell")],["transaction results","redelegation cooldown query"])
p("S01","Pool membership: bounded slots, unique addresses, weakest validator displaced",
"A pool never has more than the maximum number of validators; a newcomer enters a full pool only with strictly more delegation than the weakest member, who alone is displaced. Within a pool every validator appears once and every pool address belongs to one validator, no validator uses its own address as pool address, and the reported member lists, counts and per-validator pool lists agree. Each membership change (join, leave, kick, displacement) affects exactly the named validator and pool.",
H,"all join/leave/kick sequences across pools with changing delegations",
"Tests fill one pool in a fixed order.",
["x/stakers/keeper/msg_server_join_pool.go","x/stakers/keeper/logic_stakers.go","x/stakers/keeper/getters_valaccount.go","x/stakers/keeper/getters_staker.go"],
[("slot handling","x/stakers/keeper/logic_stakers.go ensureFreeSlot"),("two-way membership index","x/stakers/keeper/getters_valaccount.go")],["stakers-by-pool and staker queries","EventJoinPool/EventLeavePool"])
p("S02","Commission changes and pool leaves take effect once, after their delay",
"A requested commission change or pool leave takes effect exactly once, in the first block at or after its configured delay, and not earlier; a newer commission request replaces the pending one, and at most one leave per pool is pending. Until then the old commission applies and the validator keeps its duties in the pool. Pending requests are never lost, and a request no longer applicable when due has no effect on anyone.",
["histories","schedules","fault_sequences","crash_points"],"all block times, overlapping requests, kicks, re-joins and parameter changes while requests are pending",
"Queue behaviour with cancelled, replaced and obsolete entries depends on history.",
["x/stakers/keeper/logic_commission.go","x/stakers/keeper/logic_leave.go","x/stakers/keeper/logic_queue.go","x/stakers/keeper/getters_commission.go","x/stakers/keeper/getters_leave.go"],
[("generic queue","x/stakers/keeper/logic_queue.go"),("commission and leave processing","x/stakers/keeper/logic_commission.go, logic_leave.go")],["staker query (pending changes)","EventUpdateCommission","EventLeavePool"])
p("S03","Validator profile and commission earnings belong only to their owner",
"Only a validator itself can change its profile, commission and memberships or claim its commission rewards; claims can never exceed what was credited and pay the exact claimed coins once. The staking module always holds at least the sum of all unclaimed commission rewards. Creating a validator happens at most once per address and delegates exactly the stated self-delegation.",
H,"all claim/credit sequences in several coins by any sender",
"Tests claim once or twice with fixed coins.",
["x/stakers/keeper/msg_server_claim_commission_rewards.go","x/stakers/keeper/exported_functions.go","x/stakers/keeper/msg_server_create_staker.go","x/stakers/keeper/msg_server_update_metadata.go"],
[("commission rewards ledger","x/stakers/keeper/exported_functions.go IncreaseStakerCommissionRewards"),("claim","x/stakers/keeper/msg_server_claim_commission_rewards.go")],["stakers module balance","staker query"])
p("F01","Funder deposits are segregated, fully backed and always refundable",
"At every block the funding module holds exactly what the funders have deposited and not yet spent or withdrawn, per coin (plus unsolicited transfers). A funder can at any time withdraw everything it has left in a pool (or a part, if the rest still meets the configured minimums), but nobody else's, and its recorded remaining and total-funded amounts change only by its own actions, bundle charges, or being displaced, as the lowest funder of a full pool, with a full refund. No more than the maximum number of funders is active in a pool and the active ones are exactly those with remaining funds.",
H,"all fund/defund/charge/displacement sequences with several coins, coin-list changes and pools",
"Tests use few funders and small sequences; coin whitelists, minimums and displacement interact.",
["x/funders/keeper/logic_funders.go","x/funders/keeper/msg_server_fund_pool.go","x/funders/keeper/msg_server_defund_pool.go","x/funders/types/funders.go"],
[("fund/defund","x/funders/keeper/msg_server_fund_pool.go, msg_server_defund_pool.go"),("slot displacement","x/funders/keeper/logic_funders.go ensureFreeSlot")],["funders module balance","funders queries","events"])
p("F02","Each accepted bundle charges every active funder its agreed amount",
"For every finalized bundle each active funder of the pool is charged, per coin, its agreed amount per bundle or its remaining amount if smaller, and nothing else; the sum is what the pool pays out from funders. A funder whose funds run out becomes inactive in the same block and is never charged again until it funds anew, and new fundings below the configured minimums or with non-whitelisted coins are refused. If no active funder remains this is reported and bundles are charged nothing.",
H,"all funding amounts and per-bundle amounts in several coins over many bundles",
"Tests charge round amounts a few times.",
["x/funders/keeper/logic_funders.go","x/funders/types/funders.go","x/funders/keeper/getters_funding_state.go"],
[("ChargeFundersOfPool / ChargeOneBundle","x/funders/keeper/logic_funders.go, x/funders/types/funders.go"),("minimum and whitelist checks","x/funders/keeper/logic_funders.go")],["fundings query","EventBundleFinalized funders payout","EventPoolOutOfFunds"])
p("P01","Parameters and pools change only through passed governance proposals",
"Creating, updating, enabling or disabling pools, scheduling or cancelling runtime upgrades and changing any protocol parameter succeeds only as the execution of a passed governance proposal; the same messages from any other signer, or in a rejected proposal, change nothing. An executed change is validated and applied exactly as proposed, leaving every field and pool it does not mention untouched.",
H,"all senders, proposals, partial updates and their interleavings with other activity",
"Tests call handlers directly with the authority set.",
["x/pool/keeper/msg_server_create_pool.go","x/pool/keeper/msg_server_update_pool.go","x/pool/keeper/msg_server_disable_pool.go","x/pool/keeper/msg_server_enable_pool.go","x/bundles/keeper/msg_server_update_params.go","x/funders/keeper/msg_server_update_params.go"],
[("authority check","msg_server_*.go of every module")],["pool queries","params queries","gov proposal status"])
p("P02","Runtime upgrades and pool shutdowns stop and resume pools safely",
"While a scheduled runtime upgrade is in progress, or the pool is disabled, the pool accepts no proposals, votes, claims or skips; the new version and binaries become the pool's protocol in the first block at or after the scheduled time, and when the announced duration has passed the pool resumes with its progress intact. At most one upgrade is pending per pool, it concerns only pools of that runtime, and cancelling it before it starts leaves the protocol unchanged. Disabling a pool removes all its validators and its pending bundle and moves its inflation balance to the treasury without touching finalized data or what funders deposited.",
["histories","schedules","configurations"],"all schedules of upgrades, cancellations, disabling and enabling against pool activity",
"Tests use one upgrade with a fixed clock.",
["x/pool/keeper/msg_server_schedule_runtime_upgrade.go","x/pool/keeper/msg_server_cancel_runtime_upgrade.go","x/pool/keeper/logic_end_block_handle_pool_upgrades.go","x/pool/keeper/msg_server_disable_pool.go","x/bundles/keeper/logic_bundles.go"],
[("upgrade end-block","x/pool/keeper/logic_end_block_handle_pool_upgrades.go"),("run checks","x/bundles/keeper/logic_bundles.go AssertPoolCanRun")],["pool query status/protocol/upgrade plan","transaction results"])
p("P03","Block inflation is split completely between team, active pools and chain",
"Of the coins minted in a block the team receives its share, the configured protocol share of the rest goes to the accounts of pools that are currently active in proportion to their inflation weights, and everything else stays with the chain's stakers. Pools that are not able to run receive nothing; what the division leaves over stays with the chain or goes to one active pool. A pool's inflation account is spent only on that pool's finalized bundles at the configured payout rate.",
["histories","configurations","inputs"],"all pool sets, weights, protocol shares and pool states",
"Tests use one or two pools with divisible weights.",
["x/bundles/abci.go","x/team/abci.go","x/pool/keeper/logic_pool.go"],
[("SplitInflation","x/bundles/abci.go"),("DistributeTeamInflation","x/team/abci.go"),("ChargeInflationPool","x/pool/keeper/logic_pool.go")],["pool account balances","fee collector","team account"])
p("T01","Team vesting never releases more than vested, unlocked and unclaimed",
"At every time a team member can have claimed at most what has both vested and unlocked of its allocation, including after a clawback, and these amounts never decrease over time except by a clawback. Total issued allocations never exceed the fixed team allocation and only the designated authorities can create, claw back or pay out accounts. The team module always holds enough to honour all remaining vesting and accrued inflation claims.",
["histories","inputs"],"all commencement, clawback and claim times, allocations and claim amounts over the whole vesting horizon",
"Tests probe fixed dates; piecewise-linear schedules with clawbacks need arbitrary times and sequences.",
["x/team/keeper/logic_team.go","x/team/keeper/msg_server_claim_unlocked.go","x/team/keeper/msg_server_clawback.go","x/team/keeper/msg_server_create_team_vesting_account.go"],
[("vesting status","x/team/keeper/logic_team.go"),("team handlers","x/team/keeper/msg_server_*.go")],["team queries","balances","transaction results"])
p("T02","Team inflation rewards go to vested holders and authority, fully backed",
"Each block the team's share of the minted coins is credited completely: to every vesting account in proportion to its vested but not yet paid out tokens, the rest to the authority. Credited rewards can be claimed only up to the credited amount, once, by the entitled authority, and the module balance always covers them.",
["histories","inputs"],"all account sets, vesting stages, claims and block provisions",
"Accumulating per-block truncation over many blocks and accounts is not covered by tests.",
["x/team/abci.go","x/team/keeper/logic_team.go","x/team/keeper/msg_server_claim_account_rewards.go","x/team/keeper/msg_server_claim_authority_rewards.go"],
[("DistributeTeamInflation","x/team/abci.go")],["team info query","team account queries","balances"])
p("G01","Transaction fees: minimum enforced, refunds and burns exact",
"A transaction whose fee is below the network's minimum gas price is never executed, and one that is executed pays exactly its stated fee whether it succeeds or fails. A successful transaction with a single message type configured for refunds returns exactly the configured share of its fee to the account that paid it, and of the fees collected in a block exactly the configured share is burned, the rest going to stakers; configured extra gas is always consumed. No fee is charged twice or refunded to anyone else.",
H,"all fee amounts and denominations, payers, fee grants, message mixes and parameter values",
"Tests call the decorators in isolation with single values.",
["x/global/ante.go","x/global/post.go","x/global/abci.go","app/ante.go"],
[("min gas price and gas adjustment ante","x/global/ante.go"),("refund","x/global/post.go"),("burn","x/global/abci.go")],["balances","total supply","gas used","transaction results"])
p("G02","Governance counts exactly the stake of consensus and active protocol validators",
"A governance proposal is decided by the stake of the consensus validators and their delegators plus the stake of the protocol validators that are members of a pool and their delegators, each unit of stake counted exactly once. A protocol delegator's own vote overrides the vote of the validator it delegates to for its part of the stake, and stake of validators outside every pool does not count. A proposal whose messages fail is rolled back completely, and the tally never fails for any state of the protocol.",
["histories","inputs","configurations"],"all voter sets, stake distributions, pool memberships, vote changes and slashes until the voting period ends",
"Tests tally a handful of votes from fixed delegations.",
["x/stakers/keeper/exported_functions.go","x/delegation/keeper/exported_functions.go","app/app.go"],
[("protocol stake in the tally","x/stakers/keeper/exported_functions.go TotalBondedTokens, GetActiveValidators, GetDelegations"),("tally","x/gov keeper of the KYVE cosmos-sdk fork, wired in app/app.go")],["proposal status and final tally"])
p("X01","Every node computes identical results from the same block sequence",
"Any two nodes that execute the same blocks from the same genesis produce identical application hashes, transaction results, events and validator updates, regardless of what else they did (checks, proposals, queries, delays, duplicated or reordered mempool traffic) between blocks. Queries, transaction checks and block proposals never change consensus state.",
["schedules","histories","fault_sequences"],"all blocks, and all per-node interleavings of ABCI calls, queries and delivery order",
"Unit tests run a single keeper on a single context; map iteration order, process-global state and query side effects only show between nodes.",
["app/app.go","x/bundles/keeper/keeper.go","x/delegation/keeper/keeper.go","x/bundles/keeper/logic_round_robin.go","x/bundles/abci.go"],
[("deterministic state machine","app/app.go and all module keepers")],["app hash","FinalizeBlock results"])
p("X02","A crash at any point loses no committed state and recovers identically",
"After a crash at any moment, including in the middle of persisting a block, a restarted node resumes from its last durable state and, after replaying the blocks it missed, has exactly the same state, results and query answers as a node that never crashed. In-memory indexes are rebuilt completely. Disk write errors never lead to a node continuing with diverged state.",
["crash_points","fault_sequences","histories"],"every crash point between and during block execution and commit, with any prefix of each store's unsynced writes surviving, and every history before it",
"The test suite never restarts an application.",
["app/app.go","x/bundles/keeper/keeper.go","x/delegation/keeper/keeper.go","x/delegation/keeper/getters_index_stakers.go"],
[("commit via multistore","app/app.go (baseapp)"),("mem index rebuild at first block","x/bundles/keeper/keeper.go, x/delegation/keeper/keeper.go InitMemStore")],["app hash after recovery","query answers after recovery"],
"x/bundles/keeper/verif_hooks.go, x/delegation/keeper/verif_hooks.go: reset of the process-global 'index initialised' flag so that an in-process restart behaves like a new process")
p("X03","A failed transaction has no effect except its fee",
"A transaction that fails in any of its messages, runs out of gas, or is rejected leaves no trace in any module state or balance other than the fee deduction and sequence increase of accepted-but-failed transactions; all messages of a transaction take effect together or not at all. The same holds for in-memory indexes and for failed governance proposal executions.",
["histories","inputs","fault_sequences"],"all failing messages, multi-message transactions, and gas limits cutting execution at any point",
"Tests run handlers directly, outside the transaction pipeline.",
["x/delegation/keeper/msg_server_delegate.go","x/funders/keeper/msg_server_fund_pool.go","x/stakers/keeper/msg_server_join_pool.go","x/global/post.go"],
[("cached transaction context","baseapp; all msg servers return errors for failures")],["full state comparison after failed transactions"])
p("X04","No user transaction or schedule can halt the chain",
"No sequence of transactions by unprivileged users, passed valid governance proposals, block timings or validator failures makes block processing panic, return an error, or schedule an emergency halt. Module invariants that would trigger an emergency halt are never violated.",
["histories","inputs","schedules","fault_sequences"],"all user inputs including extreme values and all block schedules",
"A halt is reached by extreme or rare combinations the tests do not include.",
["util/logic_error.go","x/bundles/keeper/logic_end_block_handle_upload_timeout.go","x/bundles/abci.go","x/delegation/keeper/logic_unbonding.go"],
[("emergency halt","util PanicHalt"),("begin/end block logic","x/*/abci.go, module.go")],["FinalizeBlock result","upgrade plan"])
p("X05","Exporting and re-importing the state preserves behaviour",
"The state of every protocol module exported at any height passes genesis validation, and importing it into an empty chain reproduces the same exported state. A chain continued from the imported state answers queries identically and processes the same subsequent transactions to the same results.",
["histories","crash_points"],"every reachable state",
"Tests round-trip a few small states and do not continue the imported chain.",
["x/bundles/genesis.go","x/delegation/genesis.go","x/funders/genesis.go","x/pool/genesis.go","x/stakers/genesis.go","x/team/genesis.go","x/stakers/types/genesis.go"],
[("ExportGenesis/InitGenesis/Validate","x/*/genesis.go, x/*/types/genesis.go")],["exported genesis","behaviour after import"])
p("X06","Queries report exactly the chain state",
"Every public query answer (pools, validators, delegations, unbondings, funders, bundles, vote eligibility, account assets, team status) is consistent with the committed chain state and with the other queries, lists every matching entity exactly once across pagination in the stated order, and never fails for existing entities. Secondary indexes always agree with primary records.",
["histories","inputs"],"all reachable states, filters and pagination requests",
"Tests query small fixed states, mostly a single page.",
["x/query/keeper","x/bundles/keeper/getters_bundles.go","x/delegation/keeper/getters_index_stakers.go","x/stakers/keeper/getters_valaccount.go"],
[("query layer","x/query/keeper/*.go"),("secondary indexes","x/*/keeper/getters_*.go")],["gRPC query answers"])
p("X07","Total supply and module balances are conserved",
"The total supply of every coin changes only by the minted inflation and the burned share of fees; every transfer done by a transaction or by block processing has equal debits and credits among the documented accounts. The balances of the funding, staking, delegation, pool and team modules always cover what they owe.",
H,"all histories of all operations in all coins",
"Conservation is a whole-chain property; tests check individual balances in small scenarios.",
["x/bundles/keeper/logic_bundles.go","x/funders/keeper/logic_funders.go","x/delegation/keeper/logic_delegation.go","x/global/abci.go","util/logic_bank.go"],
[("bank transfers","util/*.go and keepers")],["total supply","all account balances"])
p("X08","The v1.5 upgrade migrates the chain without changing anyone's rights",
"When the planned software upgrade v1.5.0 runs on a chain written by version 1.4, every node starts with the new software and executes it with the same result, also after crashes. Fundings, stakes, outstanding rewards, commissions, validators, votes, queues, bundles, pools and governance proposals mean exactly the same as before. Only what the release announces changes: every pool's inflation weight becomes 1, the voting power limit per pool 0.5, the coin whitelist and the storage costs get the values in the upgrade handler, the expedited governance parameters are set, and each pool of an upgraded runtime without a scheduled upgrade gets one. Afterwards the chain keeps working.",
["histories","crash_points"],"every state version 1.4 can have reached and every crash point around the upgrade",
"No test runs the upgrade handler; its effect depends on the whole state it meets, and a node may die at any write of the upgrade.",
["app/upgrades/v1_5/upgrade.go","app/upgrades/v1_5/store.go","app/upgrades/v1_5/v1_4_types","app/app.go"],
[("upgrade handler and migrations","app/upgrades/v1_5/upgrade.go"),("handler and store loader wiring","app/app.go"),("old encodings","app/upgrades/v1_5/v1_4_types")],["all stores after the upgrade","app hash of every node","behaviour after the upgrade"])
ids=[x["id"] for x in P]; assert len(set(ids))==len(ids)
for x in P:
    assert len(x["title"])<=80,(x["id"],len(x["title"]))
    print(json.dumps(x))
