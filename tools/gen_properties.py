#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property list)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [{"name": n, "meaning": m, "where": w} for n, m, w in (state or [])],
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": observe, "hook_needed": None}})

CR = "contracts/connection-router/src/"
GW = "contracts/gateway/src/"
VV = "contracts/voting-verifier/src/"
MS = "contracts/multisig/src/"
MP = "contracts/multisig-prover/src/"
RW = "contracts/rewards/src/"
SR = "contracts/service-registry/src/"
NG = "contracts/nexus-gateway/src/"
AV = "contracts/aggregate-verifier/src/"
BA = "contracts/batching/src/"
WS = "packages/axelar-wasm-std/src/"
RP = "packages/report/src/"

p("C01", "Router delivers only authenticated messages, each to its destination gateway",
  "The router accepts a batch of messages only from the nexus gateway or from the currently registered gateway of a chain, and in the latter case only if every message in the batch names that chain as its source; any other call is rejected and has no effect. Every accepted message is delivered unmodified and exactly once, in the order given, to the currently registered gateway of its destination chain, or to the nexus gateway if the destination chain is not registered (which is an error when the sender is the nexus gateway itself), and nothing is delivered anywhere else. One message_routed event is emitted per message.",
  ["histories", "inputs"], "all interleavings of registrations, gateway upgrades, freezes and routed batches, with any mix of senders, sources and destinations",
  "the unit tests route a handful of fixed batches between two or three chains; they never mix upgrades, freezes, unknown destinations and interleaved destinations in one history",
  [CR + "contract/execute.rs", CR + "state.rs"],
  [("validate_msgs", CR + "contract/execute.rs"), ("route_messages", CR + "contract/execute.rs"), ("GatewayIndex", CR + "state.rs")],
  ["router execute RouteMessages: response messages and events, recipients in a multi-contract app"],
  [("chains", "chain name -> gateway and freeze flags", CR + "state.rs")])
p("C02", "Freezing a chain stops its traffic in exactly the frozen directions",
  "Only the router admin can freeze or unfreeze a registered chain, and each call changes exactly the given direction(s) of exactly that chain, independently of earlier calls and of gateway upgrades. While a chain is frozen for incoming traffic nothing from its gateway is routed, and while it is frozen for outgoing traffic any batch containing a message to it is rejected as a whole; in all other cases routing is unaffected. A freeze is announced with a chain_frozen event and an unfreeze with a chain_unfrozen event naming the chain.",
  ["histories", "inputs"], "all sequences of freeze/unfreeze calls in every direction, interleaved with upgrades and routing",
  "tests check single freeze/unfreeze steps with one order of directions and do not look at the events",
  [CR + "contract/execute.rs", WS + "flagset.rs"],
  [("freeze_chain / unfreeze_chain", CR + "contract/execute.rs"), ("FlagSet", WS + "flagset.rs")],
  ["router GetChainInfo", "routing outcome", "events"],
  [("frozen_status", "set of frozen directions", CR + "state.rs")])
p("C03", "Chain registry: one gateway per chain, one chain per gateway, governance only",
  "Only governance can register a chain or replace a chain's gateway; at any time each chain name, compared case-insensitively, has exactly one gateway and no gateway address serves two chains. A registration or upgrade that would violate this, or an upgrade of an unknown chain, is rejected and changes nothing. Chain queries always report the latest gateway and freeze status, an upgrade takes effect immediately, and a replaced gateway loses every right of the chain and may be registered again.",
  ["histories", "inputs"], "all sequences of register/upgrade calls by any sender with any casing of the chain name",
  "tests cover single duplicate registrations; they do not explore histories of upgrades back and forth or name casing across operations",
  [CR + "contract/execute.rs", CR + "contract/query.rs", CR + "state.rs"],
  [("register_chain / upgrade_gateway", CR + "contract/execute.rs"), ("chain_endpoints index", CR + "state.rs"), ("ChainName::from_str", CR + "state.rs")],
  ["router execute and GetChainInfo"])
p("C04", "Gateway forwards a message to the router only if its verifier confirmed it",
  "When anyone other than the router asks the gateway to route messages, exactly the messages which the verifier currently reports as verified are sent to the router, unmodified and in order, in a single call, and none of the others; the outcome of each message is announced by a message_routed or message_routing_failed event. When asked to verify messages the gateway hands exactly the not yet verified ones to the verifier and nothing if all are verified. A batch with two messages that share an id is always rejected, and the gateway stores nothing in these cases.",
  ["inputs", "histories"], "all batches and all verification states per message (by full message content)",
  "the tests use random batches but only an all-or-nothing or fixed partition through a mocked verifier, not arbitrary histories of verifier state and identical ids with different content",
  [GW + "contract/execute.rs"],
  [("route_incoming_messages / verify", GW + "contract/execute.rs"), ("apply / partition", GW + "contract/execute.rs")],
  ["gateway execute: response messages and events", "real verifier stack in a multi-contract app"])
p("C05", "Gateway stores outgoing messages only from the router and returns them exactly",
  "A message can be read back from the gateway as an outgoing message if and only if the router delivered it to that gateway, and it is then returned with exactly the content of the latest delivery of its id. A query for several ids returns the messages in the order of the ids and fails if any of them was never delivered. Nobody but the router can add to or change the outgoing messages, and a delivery with duplicate ids is rejected as a whole.",
  ["histories", "inputs"], "all histories of router deliveries, third-party route/verify calls and queries, including ids that are similar as strings across chains",
  "tests store and read fixed random batches; they do not check ids that nearly collide as storage keys or the effect of other callers in between",
  [GW + "contract/execute.rs", GW + "contract/query.rs", GW + "state.rs", CR + "state.rs"],
  [("route_outgoing_messages", GW + "contract/execute.rs"), ("CrossChainId PrimaryKey", CR + "state.rs")],
  ["gateway GetMessages"],
  [("outgoing messages", "cc id -> message", GW + "state.rs")])
p("C06", "A message is verified exactly when a quorum of its poll voted success",
  "A message is reported verified if and only if, in the latest poll that contains it, the combined weight of the participants of that poll that voted SucceededOnChain for it has reached the quorum, which is the smallest whole weight not below voting threshold times the total weight of the workers active when the poll started. Each participant's votes count at most once, only in time, only for polls it participates in and only if they cover exactly the messages of the poll; rejected votes change nothing. Other votes, later changes of the worker set and votes in other polls or on other messages of the same poll have no influence.",
  ["histories", "schedules", "inputs"], "all orders of votes, block heights, worker set changes and poll contents for any threshold and any number of workers",
  "tests run a few votes with equal behaviour of all workers; they never compare with an independent tally under mixed votes, partial quorums, late votes and changing worker sets",
  [WS + "voting.rs", WS + "snapshot.rs", VV + "execute.rs", VV + "query.rs"],
  [("WeightedPoll::cast_vote / consensus", WS + "voting.rs"), ("vote", VV + "execute.rs"), ("verification status", VV + "query.rs")],
  ["voting-verifier IsVerified, Vote, VerifyMessages"],
  [("polls", "tallies, participation and quorum", WS + "voting.rs")])
p("C07", "Poll lifecycle: ends once after expiry, honest participants rewarded once",
  "A poll accepts votes only before its expiry height, which is the height at which it was started plus the configured block expiry, and it can be ended exactly once, by anyone, and only at or after that height. Ending it reports for each message the outcome whose vote weight reached the quorum (or none) and the participants that voted on every message with an outcome exactly according to that outcome; for exactly these participants one participation in the poll is reported to the rewards contract. Poll ids are never reused, and a poll_started event describes exactly the polled messages, participants, expiry and confirmation height.",
  ["histories", "schedules"], "all schedules of votes, block heights and end calls over several concurrent polls",
  "tests end one poll after unanimous votes; boundary heights, split votes, partial consensus, double endings and several polls at once are not explored",
  [WS + "voting.rs", VV + "execute.rs", VV + "events.rs"],
  [("WeightedPoll::finish / state", WS + "voting.rs"), ("end_poll", VV + "execute.rs")],
  ["voting-verifier Vote/EndPoll responses, rewards messages, events"])
p("C08", "Verification is final, and messages are independent of each other",
  "Once a message is verified it stays verified for all future and is never polled again. A message that is being polled is not put in a second poll, one whose poll ended without a success quorum can be polled again (and only then), and the responses to verification requests report the status before the request for each message in order. Two messages that differ in any field are independent: neither the verification nor a pending poll of one has any effect on the status or the requests of the other.",
  ["histories", "inputs"], "all histories of repeated verification requests, votes, expiries and endings over batches of similar messages",
  "tests verify at most two polls for the same messages; near-identical messages and repeated retries are not explored",
  [VV + "execute.rs", VV + "query.rs", VV + "state.rs", CR + "state.rs"],
  [("verify_messages", VV + "execute.rs"), ("Message::hash", CR + "state.rs"), ("POLL_MESSAGES", VV + "state.rs")],
  ["voting-verifier VerifyMessages response data, IsVerified, poll_started events"],
  [("poll messages", "message hash -> poll id and index", VV + "state.rs")])
p("C09", "Message ids accepted for verification identify a source event uniquely",
  "A verification request is accepted only if it is not empty, all messages come from the same source chain, and every message id has the form <transaction id>:<event index> with a non-empty transaction id and a 64-bit index; the resulting poll event reports exactly that transaction id and index. No two different ids with the same transaction id denote the same event index.",
  ["inputs"], "all message ids as strings, including odd separators, signs, leading zeros and whitespace",
  "tests use well-formed ids and one or two malformed ones",
  [VV + "events.rs", VV + "execute.rs"],
  [("parse_message_id", VV + "events.rs"), ("validate_source_chain", VV + "execute.rs")],
  ["voting-verifier VerifyMessages / VerifyWorkerSet outcome and events"])
p("C10", "Threshold and quorum arithmetic is exact and safe for every size",
  "A threshold is accepted only if it is a fraction in (0,1], a majority threshold only if it is in (1/2,1], and ordering thresholds agrees with ordering the rational numbers. The quorum of a snapshot is the smallest integer not below threshold times total weight, so it is positive, never exceeds the total weight, and for a majority threshold any two groups of participants that each reach it overlap in positive weight. Snapshots contain exactly the given participants with their weights.",
  ["inputs"], "all numerators, denominators and weights up to their type limits",
  "tests check a few hand-picked fractions and small weights; rounding and overflow boundaries are not covered",
  [WS + "threshold.rs", WS + "snapshot.rs"],
  [("Threshold / MajorityThreshold", WS + "threshold.rs"), ("Snapshot::new", WS + "snapshot.rs")],
  ["axelar-wasm-std public API, also through message deserialization"])
p("C11", "Multisig accepts only genuine signatures of the session's participants",
  "A signature is recorded in a signing session only if its submitter is a participant of the session's worker set, it is a valid signature over exactly the session's message under the public key fixed for that participant in the worker set, of the right type and length, and the participant has not signed yet; otherwise the call is rejected and nothing changes. A recorded signature is returned unchanged, attributed to its signer, for ever. Each accepted signature, and nothing else, is reported as one participation of its signer in that session.",
  ["histories", "inputs"], "all submissions: any sender, session, key type, wrong message, wrong key, malformed length, bit flips, repeated and swapped signatures, key rotations after the session started",
  "tests submit fixed precomputed signatures; they cannot explore forged, swapped or replayed signatures across sessions and worker sets",
  [MS + "signing.rs", MS + "contract.rs", MS + "key.rs"],
  [("validate_session_signature", MS + "signing.rs"), ("submit_signature", MS + "contract.rs"), ("Signature::verify", MS + "key.rs")],
  ["multisig SubmitSignature outcome, GetMultisig, messages to the rewards contract"],
  [("signatures", "session, signer -> signature", MS + "state.rs")])
p("C12", "A signing session completes exactly when its signed weight reaches the quorum",
  "A session is completed exactly when the total weight of the participants that signed is at least the threshold of its worker set, and its completion height is the height of the signature that reached it and never changes. Signatures are accepted at any time before completion and up to and including grace-period blocks after it, and are rejected later; exactly one signing_completed event is emitted per session, at completion. Session ids are never reused and sessions do not influence each other.",
  ["histories", "schedules"], "all weights (including zero and huge), thresholds, signature orders and block heights over several concurrent sessions",
  "tests complete one or two sessions with equal weights; weight boundaries, late signatures at each boundary height and concurrency are not explored",
  [MS + "signing.rs", MS + "contract.rs", MS + "state.rs"],
  [("SigningSession::recalculate_session_state", MS + "signing.rs"), ("grace period check", MS + "signing.rs")],
  ["multisig GetMultisig state, events, SubmitSignature outcome"])
p("C13", "Only authorized callers open signing sessions, only governance authorizes",
  "A signing session is opened only by a caller that is authorized at that moment, only for a registered worker set, and only for a message of exactly 32 bytes; otherwise nothing changes. Authorization is granted and revoked only by governance, takes effect immediately and for exactly that caller. The session is bound to the message and the worker set given, and its signing_started event announces exactly those together with the public keys of the worker set and the chain.",
  ["histories", "inputs"], "all sequences of authorize/unauthorize/start calls by any sender, message lengths, registered and unregistered worker sets",
  "tests authorize one caller and start one session",
  [MS + "contract.rs", MS + "types.rs", MS + "state.rs", MS + "events.rs"],
  [("start_signing_session / require_authorized_caller / require_governance", MS + "contract.rs")],
  ["multisig execute outcome, events, GetMultisig"])
p("C14", "Keys and signatures are validated; keys and worker sets read back exactly",
  "A public key (through the constructor or JSON) or a submitted signature is accepted only if its bytes have a length that is valid for its type, and it survives serialization unchanged. A worker's registered public key per key type is exactly the one the worker itself registered last for that type, unaffected by other workers and key types. A registered worker set is stored under an id that depends on all of its content, and is returned unchanged under that id.",
  ["inputs", "histories"], "all byte strings, key types, workers and registration orders, all worker set contents",
  "tests use a few fixed keys",
  [MS + "key.rs", MS + "worker_set.rs", MS + "contract.rs", MS + "state.rs"],
  [("TryFrom<(KeyType, HexBinary)>", MS + "key.rs"), ("WorkerSet::id", MS + "worker_set.rs"), ("register_pub_key", MS + "contract.rs")],
  ["multisig RegisterPublicKey/GetPublicKey, RegisterWorkerSet/GetWorkerSet, key API"])
p("C15", "EVM proofs carry exactly the batch and a valid quorum of signatures",
  "For the ABI encoder the data to be signed decodes, by an independent decoder of the gateway's format, to the destination chain id and one command per message (and operator transfer) in order, with exactly the message's id hash, source chain and address, destination contract and payload hash, or the new operators. The message handed to the multisig is the Ethereum signed-message hash of exactly that data. Once signing completes, the proof lists the operators in strictly increasing address order with their weights and threshold, and its signatures, in the operators' order, recover each to a different operator of the set, with a combined weight of at least the threshold.",
  ["inputs", "histories"], "all messages, worker sets, weights, thresholds, signing subsets (including malleated but valid signatures) and signing orders",
  "tests compare with a few recorded encodings and one signature set",
  [MP + "encoding/abi.rs", MP + "encoding/mod.rs", MP + "execute.rs", MP + "query.rs", MS + "key.rs"],
  [("CommandBatchBuilder", MP + "encoding/mod.rs"), ("abi encode_execute_data / message_hash_to_sign / make_operators", MP + "encoding/abi.rs"), ("get_proof", MP + "query.rs"), ("to_recoverable", MS + "key.rs")],
  ["multisig-prover ConstructProof/GetProof in a multi-contract app"])
p("C16", "Sui proofs carry exactly the batch and a valid quorum of signatures",
  "For the BCS encoder the data to be signed decodes, by an independent decoder of the gateway's format, to the destination chain id and one command per message (and operator transfer) in order, with exactly the message's id hash, source chain and address, destination contract and payload hash, or the new operators. The message handed to the multisig is the Sui signed-message hash of exactly that data. Once signing completes, the proof lists the operators' public keys in strictly increasing order with their weights and threshold, and its signatures, in the operators' order, recover each to a different operator of the set, with a combined weight of at least the threshold.",
  ["inputs", "histories"], "all messages, worker sets, weights, thresholds, signing subsets and signing orders",
  "tests compare with a few recorded encodings",
  [MP + "encoding/bcs.rs", MP + "encoding/mod.rs", MP + "execute.rs", MP + "query.rs"],
  [("bcs encode_execute_data / message_hash_to_sign / make_operators", MP + "encoding/bcs.rs"), ("get_proof", MP + "query.rs")],
  ["multisig-prover ConstructProof/GetProof in a multi-contract app"])
p("C17", "A proof is for exactly the requested messages, whatever was requested before",
  "Constructing a proof for a set of message ids yields a batch of exactly those messages as the gateway stores them, and fails without effect if any of them is not stored there or is addressed to another chain. Repeated requests for the same ids, in any order, refer to the same messages, and to the identical batch as long as no worker set rotation is involved; requests for different sets of ids never share a batch. Each multisig session started this way remains linked to its own batch: the proof query for it always reports those message ids and the data that was given to sign.",
  ["histories", "inputs"], "all sequences of proof requests with overlapping, permuted, nested and similar-looking id sets",
  "tests construct one proof per contract instance",
  [MP + "execute.rs", MP + "types.rs", MP + "query.rs", MP + "reply.rs", MP + "encoding/mod.rs"],
  [("BatchId", MP + "types.rs"), ("construct_proof", MP + "execute.rs"), ("reply", MP + "reply.rs")],
  ["multisig-prover ConstructProof, GetProof"],
  [("command batches", "batch id -> batch", MP + "state.rs"), ("session batch", "session -> batch id", MP + "state.rs")])
p("C18", "Worker-set rotation happens only after the source gateway confirmed it",
  "The prover's first worker set is taken from the service registry on the first update call; after that the current worker set only changes by confirmation of the pending one, and confirmation succeeds only if the voting verifier reports exactly that worker set as installed on the destination gateway. A pending worker set is created by an update call or a proof request for a new batch exactly when the registry's workers differ sufficiently from the current ones, and while it is pending no other can replace it. Proofs are always signed by the current worker set, and confirmed worker sets become available for signing immediately.",
  ["histories", "schedules"], "all histories of registry changes, updates, proof requests, confirmations and verifier answers, for every diff threshold",
  "tests run one or two rotations with full worker replacement and a stubbed verifier",
  [MP + "execute.rs", MP + "state.rs", MP + "contract.rs"],
  [("update_worker_set / confirm_worker_set / get_next_worker_set / should_update_worker_set / workers_symetric_difference", MP + "execute.rs")],
  ["multisig-prover UpdateWorkerSet/ConfirmWorkerSet/ConstructProof/GetWorkerSet, messages to multisig"],
  [("current and next worker set", "", MP + "state.rs")])
p("C19", "Prover, proof and verifier agree on the identity of a worker set",
  "The operators that a rotation command installs on the destination gateway (addresses, weights and threshold derived from the workers' keys) are exactly those whose installation must be confirmed by the voting verifier to complete the rotation, independent of the order in which the workers are listed. The voting verifier reports a worker set as verified if and only if a quorum voted success in the latest poll about exactly these operators, and sets that differ in any address, weight or threshold are independent. A worker set that was verified cannot be polled again.",
  ["inputs", "histories"], "all worker sets, listing orders, near-identical operator sets and vote histories",
  "tests use one operator set built in one way",
  [WS + "operators.rs", MP + "execute.rs", MP + "encoding/abi.rs", MP + "encoding/bcs.rs", VV + "execute.rs", VV + "query.rs"],
  [("Operators::new / hash", WS + "operators.rs"), ("make_operators", MP + "encoding/abi.rs"), ("verify_worker_set", VV + "execute.rs")],
  ["prover ConstructProof/ConfirmWorkerSet against the real voting verifier"])
p("C20", "Reward pools are conserved and each epoch is paid at most once",
  "For every pool, the tokens paid out never exceed the tokens added, the balance is always exactly deposits minus payouts, and pools of different contracts never mix; a deposit must be exactly one non-zero coin of the rewards denomination or it is rejected. A distribution pays each epoch at most once, in order, at most the requested number of epochs, never pays epochs more recent than two before the current one, and for each epoch pays at most its configured rewards, split equally (rounded down) among the eligible workers. A distribution whose total exceeds the pool fails and changes nothing.",
  ["histories", "inputs"], "all histories of participation, deposits, parameter changes, distributions and block heights, with any amounts",
  "tests distribute over short fixed histories; conservation and double payment cannot be settled from single runs",
  [RW + "contract/execute.rs", RW + "contract.rs", RW + "state.rs"],
  [("distribute_rewards / process_rewards_for_epochs", RW + "contract/execute.rs"), ("RewardsPool::sub_reward", RW + "state.rs"), ("rewards_per_worker", RW + "state.rs")],
  ["rewards execute: bank messages, contract balance"],
  [("rewards watermark", "last epoch paid per contract", RW + "state.rs"), ("rewards pool", "balance per contract", RW + "state.rs")])
p("C21", "Reward epochs advance consistently with block height across parameter changes",
  "Epochs partition the block heights from instantiation on into consecutive windows of the configured duration, and the epoch number never decreases and never skips as the height grows, whatever parameter changes happen in between. A parameter change is accepted only from governance and applies to the current epoch from its start: if the current epoch has already lasted longer than the new duration, a new epoch begins at that moment. Rewards of an epoch of a contract use the parameters in force when the first participation in it was recorded.",
  ["histories", "schedules"], "all sequences of heights and parameter changes (longer and shorter durations, changed rewards and thresholds)",
  "tests check one shortening and one lengthening",
  [RW + "contract/execute.rs", RW + "state.rs"],
  [("Epoch::current / update_params", RW + "contract/execute.rs")],
  ["rewards payouts (which epoch a participation lands in) through DistributeRewards"])
p("C22", "A worker is rewarded in an epoch iff it met the participation threshold",
  "A worker shares in an epoch's rewards for a contract if and only if the number of that contract's events in the epoch in which its participation was recorded, divided by the number of that contract's events in the epoch, is at least the participation threshold. An event counts in the epoch in which it was first recorded for that contract and all participation in it counts there. Participation recorded by one contract never influences another contract's rewards.",
  ["histories", "inputs"], "all participation matrices, event orders, thresholds and epoch boundaries",
  "tests use a few fixed matrices",
  [RW + "contract/execute.rs", RW + "state.rs"],
  [("record_participation", RW + "contract/execute.rs"), ("EpochTally::record_participation / rewards_by_worker", RW + "state.rs")],
  ["rewards payouts"])
p("C23", "Bonded stake is never lost, never duplicated and only withdrawn after unbonding",
  "For each service and worker the stake held is exactly what the worker bonded minus what it claimed, the contract's balance covers the sum of all stakes, and a bond must be exactly one non-zero coin of the service's bond denomination (it may be empty only for a worker that already holds stake, which is then bonded again). Stake can be claimed only by its worker, only in full, only once, and only after unbonding was started and the service's unbonding period has passed since then. Authorization changes and chain declarations never affect stake, and rejected calls never take funds.",
  ["histories", "inputs", "schedules"], "all sequences of bond (any coins), unbond, claim, authorize and time steps over several workers and services",
  "tests walk a few linear bond-unbond-claim stories with single coins",
  [SR + "contract.rs", SR + "state.rs"],
  [("bond_worker / unbond_worker / claim_stake", SR + "contract.rs"), ("BondingState", SR + "state.rs")],
  ["bank balances, GetWorker, execute outcomes"],
  [("workers", "bonding state per worker and service", SR + "state.rs")])
p("C24", "Active workers are exactly the authorized, bonded declarers of a chain",
  "The active workers of a service for a chain are exactly the workers that are authorized for the service, are bonded (not unbonding) with at least the service's minimum bond, and have declared support for that chain in that service; each is listed once. Any loss of one of the conditions removes the worker immediately, and it returns when all hold again. Chain names are compared case-insensitively and services and chains never influence each other.",
  ["histories"], "all sequences of authorizations, bonds, unbonds, claims and chain declarations over several workers, services and chains",
  "tests check single transitions for one worker and one service",
  [SR + "contract.rs", SR + "state.rs", SR + "helpers.rs"],
  [("get_active_workers", SR + "contract.rs"), ("WORKERS_PER_CHAIN", SR + "state.rs")],
  ["service-registry GetActiveWorkers"])
p("C25", "Service registry: governance rights and faithful service and worker records",
  "Only governance can register services and authorize or unauthorize workers, a service name can be registered only once, and every operation on an unknown service fails. Queries for a service return exactly the parameters it was registered with, and queries for a worker return exactly that worker's stake state and authorization in that service. Only a worker that is known to the service can declare chain support.",
  ["histories", "inputs"], "all sequences of registry calls by any sender over several services and workers",
  "tests check each call once; the worker query is not tested at all",
  [SR + "contract.rs", SR + "state.rs"],
  [("require_governance", SR + "contract.rs"), ("register_service / update_worker_authorization_status / get_worker", SR + "contract.rs")],
  ["service-registry execute outcomes, GetService, GetWorker"])
p("C26", "Nexus gateway relays each message at most once, only between router and nexus",
  "The nexus gateway sends messages to the nexus module only when called by the router and to the router only when called by nexus; any other caller is rejected. A message received from the router reaches the nexus module at most once per message id, ever, also within one batch, with all fields preserved and a transaction id and index that correspond to its message id. Messages from the nexus module reach the router unmodified, in order, under the id <hex of transaction id>:<index>, and a message that makes the round trip keeps its transaction id and index.",
  ["histories", "inputs"], "all batches with repeated ids, within and across calls, any id format and any sender",
  "tests use batches with a few distinct messages and mocked stores",
  [NG + "contract/execute.rs", NG + "nexus.rs", NG + "state.rs"],
  [("route_to_nexus / route_to_router", NG + "contract/execute.rs"), ("Message conversions", NG + "nexus.rs"), ("ROUTED_MESSAGE_IDS", NG + "state.rs")],
  ["nexus-gateway execute: response messages"])
p("C27", "The aggregate verifier is transparent",
  "For every list of messages the aggregate verifier's verification status query and the data returned by its verification request are exactly those of the underlying verifier, in the same order, and a verification request passes exactly the given messages to the underlying verifier once. It fails whenever the underlying verifier fails, without leaving effects.",
  ["inputs", "histories"], "all message lists and all states of the underlying verifier",
  "tests use a mock verifier with two messages",
  [AV + "contract.rs"],
  [("execute / reply / query", AV + "contract.rs")],
  ["aggregate-verifier VerifyMessages response data and IsVerified"])
p("C28", "Batching: all-or-nothing for required messages, isolation for optional ones",
  "If any required message of a batch fails, the whole batch fails and has no effect; otherwise every required message takes effect exactly once and in order. A failing optional message has no effect, is reported by a failed_msg event and does not disturb any other message, while every successful optional message takes full effect exactly once. The batch itself succeeds whenever all required messages succeed.",
  ["inputs", "fault_sequences"], "all batches of required and optional messages with any pattern of failing messages, contract calls and token transfers",
  "tests check the response of the entry points for single messages and never execute a batch",
  [BA + "contract.rs"],
  [("execute / reply", BA + "contract.rs")],
  ["effects in a multi-contract app"])
p("C29", "Wire formats round-trip and validated types reject invalid data on every path",
  "Every public value that contracts exchange or store as JSON (chain names, cross-chain ids, messages, votes, poll states, worker sets, keys, signatures, thresholds, operators) is reproduced exactly by decoding its encoding. Values of validated types (chain names, non-empty strings, lists, numbers and timestamps, thresholds, public keys, hashes in hex) can never be obtained with invalid content by parsing, conversion or deserialization, and every valid content is accepted. Chain names are equal if and only if they are equal ignoring case (as Unicode lower case), and parsing the text form of a cross-chain id gives back that id.",
  ["inputs"], "all values of these types and all JSON inputs",
  "tests check a handful of literals",
  [CR + "state.rs", WS + "nonempty/", WS + "threshold.rs", WS + "hex.rs", MS + "key.rs"],
  [("nonempty types", WS + "nonempty"), ("ChainName / CrossChainId", CR + "state.rs"), ("hex serde", WS + "hex.rs")],
  ["serde round trip through cosmwasm to_binary/from_binary"])
p("C30", "End to end: only quorum-verified messages ever reach a destination proof",
  "In the complete system, a message is contained in the outgoing messages of a destination gateway, and so in the data of any proof, only if a quorum of the source chain's active workers voted it succeeded on the source chain (or the nexus module, which vouches for the chains it connects, submitted it) and it was then routed through the registered, unfrozen gateways, and it arrives unmodified. Conversely a message that is verified and routed while nothing is frozen is available at its destination gateway and can be proven there with a completed signing session. No call by an unprivileged account in any order changes this.",
  ["histories", "schedules", "inputs"], "all histories of the assembled contracts: verification, votes, routing, freezes, upgrades, proof construction and signing by honest and dishonest accounts",
  "the integration tests run one linear story and are not part of the buildable suite; unit tests mock the neighbours of each contract",
  [CR + "contract/execute.rs", GW + "contract/execute.rs", AV + "contract.rs", VV + "execute.rs", MP + "execute.rs", MS + "contract.rs"],
  [("the whole pipeline", "contracts/")],
  ["gateway GetMessages, prover GetProof, multisig GetMultisig in a multi-contract app"])
p("C31", "Error conversion keeps the full error chain",
  "Converting any error into the contracts' common error type and any eyre error into a report keeps every message of the error chain in its original order, and flattening a report into its loggable form keeps each message, its causes and its attachments with the message they were attached to. Conversions never panic.",
  ["inputs"], "all error chains of any depth, with any attachments and messages",
  "tests check a few chains of depth two or three",
  [RP + "loggable.rs", RP + "result_ext.rs", WS + "error.rs", "packages/axelar-wasm-std-derive/src/lib.rs"],
  [("LoggableError::from", RP + "loggable.rs"), ("ContractError::from", WS + "error.rs")],
  ["report and axelar-wasm-std public API"])
p("C32", "Stored entries never collide and composite keys decode to what was stored",
  "Two different cross-chain ids, chain names, poll ids, counters or worker keys never share a storage entry, and iterating or decoding stored keys of cross-chain ids, chain names, poll ids, worker keys and batch ids gives back exactly the original keys, in key order for poll ids. Counters that allocate ids return strictly increasing values and never repeat one.",
  ["inputs", "histories"], "all ids, including those that contain separators or are prefixes of each other",
  "tests check single keys",
  [CR + "state.rs", WS + "voting.rs", WS + "counter.rs", MS + "key.rs"],
  [("PrimaryKey/KeyDeserialize impls", CR + "state.rs"), ("PollId key", WS + "voting.rs"), ("Counter", WS + "counter.rs")],
  ["cw-storage-plus maps keyed by the public types"])

AM = "ampd/src/"
EV = "packages/events/src/"
p("C33", "A worker votes truthfully, once, on every message of the polls meant for it",
  "For every poll about messages that its voting verifier starts with the worker among the participants (and, for an EVM chain, about the worker's chain), the off-chain worker sends the verifier, before the poll expires, exactly one vote that holds one entry per message in the poll's order, and that the verifier accepts. An entry is succeeded_on_chain only if the source chain's transaction named by the message id is final (as deep as the poll's confirmation height, or finalized), succeeded, and emitted, at that very index and at the poll's source gateway, a contract call with the same sender, destination chain, destination address and payload hash; it is failed_on_chain if the transaction failed, and not_found in every other case, in particular for ids that cannot exist on the chain or are not in canonical form. Events of other contracts, other chains, expired polls or polls without the worker are ignored whatever they contain; only failures of the worker's node or of sending a vote are errors.",
  ["inputs", "histories", "schedules"], "all messages submitted by anyone, all contents and states of the source chain, all confirmation heights, all polls and all orders in which workers see their events",
  "the tests of the worker mock the chain with fixed receipts and are not part of the buildable suite; none connects the verifier's real events with the worker's handlers and the handlers' votes with the verifier",
  [AM + "handlers/evm_verify_msg.rs", AM + "handlers/sui_verify_msg.rs", AM + "evm/verifier.rs", AM + "sui/verifier.rs", AM + "evm/finalizer.rs", EV + "event.rs", VV + "events.rs"],
  [("Handler::handle", AM + "handlers/evm_verify_msg.rs"), ("verify_message", AM + "evm/verifier.rs"), ("Event from abci::Event", EV + "event.rs")],
  ["messages the handlers broadcast, JSON-RPC requests they make, voting verifier polls"])
p("C34", "A worker confirms exactly the worker sets the source gateway adopted",
  "For every worker set poll meant for it the off-chain worker sends exactly one vote with one entry. It is succeeded_on_chain only if the final, successful transaction named by the message id emitted at that index, at the poll's source gateway, a transfer of operatorship to exactly the poll's operators with their weights and threshold; failed_on_chain if the transaction failed; not_found otherwise, in particular for sets and ids that cannot exist on the chain. Foreign, expired and malformed events neither lead to votes nor stop the worker.",
  ["inputs", "histories", "schedules"], "all worker sets (any order, weights, thresholds, near-identical sets), all contents of the source chain",
  "tests use one or two fixed worker sets and mocked receipts",
  [AM + "handlers/evm_verify_worker_set.rs", AM + "handlers/sui_verify_worker_set.rs", AM + "evm/verifier.rs", AM + "sui/verifier.rs", AM + "handlers/mod.rs"],
  [("Handler::handle", AM + "handlers/evm_verify_worker_set.rs"), ("verify_worker_set", AM + "evm/verifier.rs")],
  ["messages the handlers broadcast, JSON-RPC requests they make, voting verifier polls"])
p("C35", "A worker signs exactly what it is asked to sign, with its registered key",
  "For each signing_started event of its multisig contract that lists the worker, the worker asks its signer exactly once for a signature of exactly the session's message with exactly the listed public key and sends exactly one submit_signature for that session, which the contract accepts as long as the session is open. It never signs anything else: events of other contracts, sessions without the worker, and other events lead neither to a signature nor to a message nor to an error. A failure of the signer or of sending is reported.",
  ["inputs", "histories", "schedules"], "all sessions, key types, messages and participant sets, all orders in which workers see the events",
  "tests check three fixed events with mocked keys; none checks the signature against the multisig contract",
  [AM + "handlers/multisig.rs", AM + "tofnd/mod.rs", AM + "types/key.rs", EV + "event.rs", MS + "events.rs"],
  [("Handler::handle", AM + "handlers/multisig.rs"), ("SharableEcdsaClient", AM + "tofnd/grpc.rs"), ("SigningStarted event", MS + "events.rs")],
  ["requests to the signer, messages the handler broadcasts, multisig contract sessions"])
p("C36", "The broadcast queue sends every accepted message once, in order, in time",
  "Every message a client hands to the broadcast queue and that is accepted is broadcast in exactly one transaction, no later than one interval (plus the time broadcasts take) after the queue learnt of it, or when a forced broadcast is requested or the clients are gone; messages of one client keep their order; no transaction is empty or exceeds the gas limit unless it holds a single message, and none is sent early while the next message would still fit. After the first failure of an estimate or broadcast nothing is broadcast or accepted any more and the failure is reported; nothing is refused before that.",
  ["schedules", "faults", "inputs"], "all interleavings of clients, ticks, forced broadcasts, latencies, gas estimates, channel capacities and failures",
  "tests check one fixed sequence of messages with one gas cost and real time",
  [AM + "queue/queued_broadcaster.rs", AM + "queue/msg_queue.rs"],
  [("QueuedBroadcaster::run", AM + "queue/queued_broadcaster.rs"), ("MsgQueue::push/pop_all", AM + "queue/msg_queue.rs")],
  ["calls of the Broadcaster interface with their times on a paused clock, results of the client"])
p("C37", "Every handler sees all events of all blocks once, in order, despite restarts",
  "Every handler of the off-chain worker sees, from the block it starts with, all events of all blocks of the chain completely and in order, whatever the polling delays, the number of events and the answers of the node, including a node that temporarily falls behind. A block counts as completed for a handler only after all its events up to the end of the block were handled without error; the state saved at shutdown or failure says exactly which block each handler has completed, is read back unchanged, and leaves handlers that do not run untouched, and a restarted worker continues each handler with the next block. The worker stops promptly and reports the failure when a handler fails, the node fails or events were lost, never in the middle of a block otherwise.",
  ["schedules", "faults", "crash points", "histories"], "all numbers of restarts, crash and signal points, handler and node failures, delays, block contents and buffer sizes",
  "tests check single components for a few blocks without failures or restarts",
  [AM + "event_sub.rs", AM + "event_processor.rs", AM + "state.rs", AM + "block_height_monitor.rs", AM + "handlers/end_block.rs", AM + "handlers/chain.rs"],
  [("EventSub::run", AM + "event_sub.rs"), ("skip_to_block", AM + "event_sub.rs"), ("EventProcessor::run", AM + "event_processor.rs"), ("StateUpdater", AM + "state.rs")],
  ["events seen by handlers, the state file, results of the tasks, on a paused clock"],
  [("handler block heights", "last block each handler has completed", AM + "state.rs")])

p("C38", "Events alone tell an observer the contracts' state and deliveries",
  "What the router, gateway, multisig, prover and voting verifier announce in events is true, and each of the following is announced exactly once, with its full content, in the transaction that makes it, so that an observer who sees only the events knows: the router's admin and governance account, its chains and their current gateways; every message routed, delivered, forwarded or refused; the multisig contract's authorized callers, registered keys, and sessions with their worker set, keys, message, signatures and completion height; the voting verifier's setup, polls, voters, and results, which agree with the statuses it reports; and the proofs under construction, each with its session and with a batch id that stands for exactly one content.",
  ["histories", "inputs"], "all histories of accepted and rejected calls by any sender",
  "tests look at single events of single calls, if at all; none compares the announced with the queried state",
  [CR + "events.rs", GW + "events.rs", MS + "events.rs", VV + "events.rs", MP + "events.rs"],
  [("events of register_chain, upgrade_gateway, route_messages", CR + "contract/execute.rs"), ("events of route_messages", GW + "contract/execute.rs"), ("events of the multisig contract", MS + "contract.rs"), ("events of polls and votes", VV + "execute.rs"), ("reply", MP + "reply.rs")],
  ["events of all successful transactions, queries, calls of neighbouring contracts"])

p("C39", "A worker's transactions are authentic, paid for, in sequence and confirmed",
  "Each broadcast of the off-chain worker sends one transaction that holds exactly the given messages, in order, is signed once, by the worker's key (asked for under its id) and over exactly this transaction for the configured chain and the worker's account number, and carries the account's current sequence, so that the node accepts it also after earlier broadcasts; its gas limit is the gas that a simulation of the same messages with the same sequence used, times the adjustment, and its fee pays for that limit at the configured price, rounded up to whole coins. A broadcast succeeds if and only if the node reports, within the configured number of questions about the transaction's hash, that it was executed successfully, and it stops asking then; between two questions it waits for the configured time. If the simulation or the signature fails nothing is sent, and a refused, failed or unconfirmed transaction is an error. Estimates neither sign nor send anything.",
  ["inputs", "faults", "histories"], "all messages, accounts, sequences, prices, gas amounts, and all points at which the node or the key store fails",
  "the tests of the broadcaster check fixed answers of mocked services and no content of the transactions",
  [AM + "broadcaster.rs", AM + "broadcaster/tx.rs", AM + "broadcaster/accounts.rs", AM + "broadcaster/dec_coin.rs", AM + "tofnd/grpc.rs", AM + "types/key.rs"],
  [("BroadcastClient::broadcast/estimate_fee", AM + "broadcaster.rs"), ("TxBuilder::sign_with", AM + "broadcaster/tx.rs"), ("accounts::account", AM + "broadcaster/accounts.rs")],
  ["requests received by the simulated node and key store, results of the broadcaster"])

p("C40", "A running worker answers every request exactly once, across restarts",
  "While the off-chain worker runs with its configured handlers on a live Axelar chain, every message it puts on the chain, sent from its own account and without funds, is the right answer to one request (a poll or signing session that names it) that existed at that time and for which a handler is configured; in one run, and after any number of orderly stops and restarts with the same state file, no request is answered twice; and every request made after a handler first took part is answered before the poll expires, whether the worker was running then or only afterwards, unless a transaction could not be sent. When the worker is asked to stop, by either signal, it stops in bounded time, without an error, and leaves a readable state file; when a service it depends on fails for good it ends with an error rather than going on or claiming success.",
  ["histories", "schedules", "crash points", "faults"], "all histories of requests and blocks, all moments of stops, crashes and failures of services, all orders in which the tasks of the worker proceed",
  "no test runs the worker as a whole; its parts are tested one by one with mocks",
  [AM + "lib.rs", AM + "event_sub.rs", AM + "event_processor.rs", AM + "handlers/end_block.rs", AM + "state.rs", AM + "queue/queued_broadcaster.rs", AM + "block_height_monitor.rs", AM + "commands/daemon.rs"],
  [("daemon::run", AM + "commands/daemon.rs"), ("App::run, configure_handler", AM + "lib.rs")],
  ["messages executed on the simulated chain, result of the run, state file"])

p("C41", "Worker commands and configuration do exactly what they say",
  "Each command of the off-chain worker sends exactly one transaction, from the worker's account, with exactly the one message it stands for (a bond of exactly the given coins, support for the given chains, the registration of a key) to the configured contract, which accepts it; it reports success if and only if the transaction was executed, and sends nothing if it fails before. The key it registers is one with which the running worker's signatures are accepted by the multisig contract, and it is the same each time. Asking for the address sends nothing and names the account of the configured key. No command changes what the handlers recorded in the state file, and a state file that cannot be read is never replaced. A configuration, written as TOML or JSON, is accepted if and only if its values are valid, has exactly the given values and otherwise the defaults, and survives being written and read again.",
  ["inputs", "faults", "histories"], "all arguments, state files, failures of the node and the key store, sequences of commands, and all configurations",
  "the tests read one configuration and run no command",
  [AM + "commands/mod.rs", AM + "commands/bond_worker.rs", AM + "commands/declare_chain_support.rs", AM + "commands/register_public_key.rs", AM + "commands/worker_address.rs", AM + "config.rs", AM + "handlers/config.rs", AM + "state.rs", AM + "url.rs"],
  [("bond_worker/declare_chain_support/register_public_key/worker_address::run", AM + "commands/mod.rs"), ("Config", AM + "config.rs"), ("state::load/flush", AM + "state.rs")],
  ["transactions received by the simulated node, their effect on the real contracts, state file, parsed configuration"])

C = "contracts/"
p("C42", "Contract execution is deterministic",
  "What a contract does with a transaction or query is a function of the contracts' state, the message and the block alone: every node that executes the same transactions in the same order gets the same responses, the same events, the same query results, the same stored state and the same balances, whatever its process executed before, in between or at the same time, and however the entries of in-memory hash maps happen to be arranged. (The order in which the entries of a map are written out is not part of this.)",
  ["histories", "schedules"], "all histories of the contracts, executed any number of times by any process",
  "a unit test executes each call once and compares with a fixed value; differences between two executions of the same history are invisible to it",
  [C + "voting-verifier/src/execute.rs", C + "multisig/src/contract.rs", C + "multisig/src/signing.rs", C + "multisig-prover/src/query.rs", C + "multisig-prover/src/execute.rs", C + "rewards/src/contract/execute.rs", C + "gateway/src/contract/execute.rs", C + "service-registry/src/contract.rs", "packages/axelar-wasm-std/src/snapshot.rs"],
  [("hash maps in snapshots, sessions and epoch tallies", "packages/axelar-wasm-std/src/snapshot.rs"), ("load_session_signatures", C + "multisig/src/state.rs"), ("optimize_signers", C + "multisig-prover/src/query.rs")],
  ["responses, events, query results, raw storage and balances of two executions of one history"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x) + "\n")
print(len(P))
