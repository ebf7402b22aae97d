pub mod axelar;
pub mod commands;
pub mod daemon;
pub mod polls;
pub mod queue;
pub mod sign;
pub mod sim;
pub mod tx;
pub mod worker;

use crate::engine::{Check, Sub};

const STAND_INS: &[&str] = &[
    "the worker's modules are compiled from /repo/ampd against stand-ins for crates that are not available offline (cosmrs, cosmos-sdk-proto, tendermint, sui types, tonic, tokio-stream, clap; derive macros); the real serde, ethers, futures, error-stack and the real contracts are used",
    "the source chain behind JSON-RPC, the signer behind its interface and the Axelar node are simulated and honest, they may fail or be slow",
    "main.rs (command line, choice of configuration files) is not executed",
];

pub fn all() -> Vec<Check> {
    vec![
        Check {
            id: "C33",
            rule: "histories of a simulated EVM or Sui chain with the real voting verifier: transactions with calls, transfers of operatorship, failures, other logs; polls on real, forged, near-identical and malformed messages; each worker handles the events of all contracts in any order, with failing nodes and sending. The chain's content decides the expected vote. Non-trivial: a worker votes in a poll with at least one confirmed message, and with an unconfirmed one unless the poll has only one",
            assumptions: STAND_INS,
            subs: vec![Sub { name: "history", f: polls::c33, quick: 60_000, thorough: 2_000_000 }],
            known: vec![],
        },
        Check {
            id: "C34",
            rule: "as C33 for polls on worker sets: sets that were adopted, reordered, changed in one weight, address or the threshold, or made up. Non-trivial: a worker confirms a worker set",
            assumptions: STAND_INS,
            subs: vec![Sub { name: "history", f: polls::c34, quick: 60_000, thorough: 2_000_000 }],
            known: vec![],
        },
        Check {
            id: "C35",
            rule: "histories of two multisig contracts with ECDSA and Ed25519 keys: worker sets, sessions on generated messages, workers that handle the events in any order, repeated and altered events, failing signers and sending. Signatures are made with real keys and submitted to the contract. Non-trivial: a worker signs in a session",
            assumptions: STAND_INS,
            subs: vec![Sub { name: "history", f: sign::c35, quick: 60_000, thorough: 2_000_000 }],
            known: vec![],
        },
        Check {
            id: "C36",
            rule: "clients that hand over messages at generated times, gas costs around the limit, channel capacities, latencies and failures of estimates and broadcasts, forced broadcasts, on a paused clock. Non-trivial: more than one transaction is broadcast, one of them with several messages",
            assumptions: STAND_INS,
            subs: vec![Sub { name: "schedule", f: queue::c36, quick: 1_200_000, thorough: 20_000_000 }],
            known: vec![],
        },
        Check {
            id: "C37",
            rule: "several runs of the worker's event pipeline on a paused clock over a generated chain, with slow and failing handlers, nodes that fail or fall behind, small buffers, signals and crashes, and the state file carried from run to run. Non-trivial: a restarted worker goes on with several events for every handler",
            assumptions: STAND_INS,
            subs: vec![Sub { name: "schedule", f: daemon::c37, quick: 100_000, thorough: 2_000_000 }],
            known: vec![],
        },
        Check {
            id: "C39",
            rule: "an account, its key in the key store, a gas price and adjustment; estimates and broadcasts of generated messages, where the simulation, the key store, the sending and the questions about the transaction have scripted outcomes. The simulated node checks signature, sequence, account and chain. Non-trivial: a broadcast after a confirmed one",
            assumptions: STAND_INS,
            subs: vec![Sub { name: "history", f: tx::c39, quick: 100_000, thorough: 4_000_000 }],
            known: vec![],
        },
        Check {
            id: "C40",
            rule: "the daemon, configured for up to three source chains and the multisig contract, on a chain of blocks with the events of the real contracts, for one to four runs on a paused clock: stops by either signal, crashes, failures of the Axelar node, the sending, the key store and the source chains, other handlers, gas limits, queue sizes. Non-trivial: the worker answers requests in more than one run",
            assumptions: STAND_INS,
            subs: vec![Sub { name: "runs", f: worker::c40, quick: 6_000, thorough: 200_000 }],
            known: vec![],
        },
        Check {
            id: "C41",
            rule: "a worker's account, keys and configuration with the real service registry and multisig contracts: its commands in any order, with absent, complete and damaged state files and failing services; what they send is executed by the contracts, and the worker signs with the key it registered. Configurations with any subset of the settings, duplicates and errors, in JSON and TOML. Non-trivial: two different commands took effect; a configuration with several handlers and settings",
            assumptions: STAND_INS,
            subs: vec![
                Sub { name: "commands", f: commands::commands, quick: 20_000, thorough: 600_000 },
                Sub { name: "config", f: commands::config, quick: 60_000, thorough: 2_000_000 },
            ],
            known: vec![],
        },
    ]
}
