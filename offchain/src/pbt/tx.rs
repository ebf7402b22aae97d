//! C39: the transactions of the worker, from the messages to their confirmation.
use super::axelar::*;
use crate::broadcaster::accounts::account;
use crate::broadcaster::{self, BroadcastClientBuilder, Broadcaster};
use crate::engine::*;
use crate::tofnd::grpc::{MultisigClient, SharableEcdsaClient};
use crate::types::{PublicKey, TMAddress};
use cosmos_sdk_proto::cosmos::auth::v1beta1::query_client::QueryClient;
use cosmos_sdk_proto::cosmos::tx::v1beta1::service_client::ServiceClient;
use cosmrs::Any;
use serde_json::json;
use std::sync::{Arc, Mutex};

fn any(src: &mut Src, n: usize) -> Any {
    let k = src.below(6) as usize;
    Any {
        type_url: src.pick(&["/cosmwasm.wasm.v1.MsgExecuteContract", "/a.B", ""]).to_string(),
        value: [vec![n as u8], src.bytes(k)].concat(),
    }
}
/// a price and its exact value
fn price(src: &mut Src) -> (String, f64) {
    let digits = 1 + src.below(9999);
    let scale = src.below(8) as u32;
    let s = match scale {
        0 => digits.to_string(),
        _ => {
            let t = format!("{:0>w$}", digits, w = scale as usize + 1);
            format!("{}.{}", &t[..t.len() - scale as usize], &t[t.len() - scale as usize..])
        }
    };
    let v = digits as f64 / 10f64.powi(scale as i32);
    (s, v)
}
/// the fee pays for the gas limit at the price, rounded up to whole coins
fn fee_ok(fee: &cosmrs::tx::Fee, gas: u64, adj: f64, price: f64, denom: &str) -> R {
    let want = gas as f64 * adj;
    ensure!(
        (fee.gas_limit as f64 - want).abs() <= 1.0 + want * 1e-12,
        "gas limit {} for {gas} units of gas, adjusted by {adj}",
        fee.gas_limit
    );
    ensure!(fee.amount.len() == 1, "fee {:?}", fee.amount);
    let c = &fee.amount[0];
    ensure!(c.denom.as_ref() == denom, "fee in {} instead of {denom}", c.denom);
    let cost = fee.gas_limit as f64 * price;
    let eps = 1e-9 + cost * 1e-12;
    ensure!(
        c.amount as f64 >= cost - eps && (c.amount as f64) < cost + 1.0 + eps,
        "fee of {} for {} units of gas at {price}",
        c.amount,
        fee.gas_limit
    );
    ensure!(fee.payer.is_none() && fee.granter.is_none(), "fee is paid by {:?} {:?}", fee.payer, fee.granter);
    Ok(())
}

pub fn c39(src: &mut Src) -> R {
    let seed = src.below(1 << 16);
    let uid = *src.pick(&["axelar", "key", "uid 2"]);
    let party = *src.pick(&["ampd", "party"]);
    let chain_id = *src.pick(&["axelar-dojo-1", "axelar-testnet-lisbon-3", "a"]);
    let number = src.u64_any() >> 1;
    let sequence = src.u64_any() >> 2;
    let retries = if src.chance(1, 40) { u32::MAX - src.below(2) as u32 } else { src.below(5) as u32 };
    let interval = if src.chance(1, 30) { 1 + src.below(3) } else { 0 };
    let (price_text, price) = price(src);
    let denom = *src.pick(&["uaxl", "ibc/AB12", "stake"]);
    let adj = *src.pick(&[1.0, 1.2, 1.5, 2.0, 0.5, 1.05, 10.0]);
    let key = public(&derive(seed, uid));
    let tofnd = Arc::new(Mutex::new(Tofnd { seed, ..Default::default() }));
    tonic::clear();
    serve_tofnd(&tofnd);
    let config: broadcaster::Config = match serde_json::from_value(json!({
        "chain_id": chain_id, "tx_fetch_interval": format!("{interval}ms"), "tx_fetch_max_retries": retries,
        "gas_adjustment": adj, "gas_price": format!("{price_text}{denom}"), "batch_gas_limit": 1000, "queue_cap": 10,
        "broadcast_interval": "1s",
    })) {
        Ok(c) => c,
        Err(e) => return fail(format!("configuration with a gas price of {price_text}{denom}: {e}")),
    };
    futures::executor::block_on(async {
        let multisig = match MultisigClient::connect(party.into(), TOFND.parse().expect("url")).await {
            Ok(c) => c,
            Err(e) => return fail(format!("{e:?}")),
        };
        let signer = SharableEcdsaClient::new(multisig);
        // the key of the worker
        let kf = if src.chance(1, 6) { src.pick(&[Fate::Fails, Fate::Empty, Fate::Reports]).clone() } else { Fate::Fine };
        tofnd.lock().unwrap().keygen_fate = Some(kf.clone());
        let k: Result<PublicKey, _> = signer.keygen(uid).await;
        ensure!(tofnd.lock().unwrap().keygens == vec![(party.to_string(), uid.to_string())], "keys are generated as {:?}", tofnd.lock().unwrap().keygens);
        ensure!(k.is_ok() == (kf == Fate::Fine), "key generation: {k:?} where the key store {kf:?}");
        let Ok(k) = k else {
            src.class("no key");
            return Ok(());
        };
        ensure!(k.to_bytes() == key, "the key is {} instead of {}", hex::encode(k.to_bytes()), hex::encode(&key));
        let Ok(id) = k.account_id("axelar") else { return abandon() };
        let address: TMAddress = id.into();
        let chain = Arc::new(Mutex::new(Chain::new(chain_id, &address.to_string(), number, sequence, key.clone())));
        serve_chain(&chain);
        // the account of the worker
        let af = if src.chance(1, 6) { src.pick(&[Fate::Fails, Fate::Empty, Fate::Reports]).clone() } else { Fate::Fine };
        chain.lock().unwrap().account_fate = af.clone();
        let Ok(qc) = QueryClient::connect(GRPC.to_string()).await else { return abandon() };
        let a = account(qc, &address).await;
        ensure!(chain.lock().unwrap().accounts == vec![address.to_string()], "asked for the accounts {:?}", chain.lock().unwrap().accounts);
        ensure!(a.is_ok() == (af == Fate::Fine), "account: {a:?} where the node {af:?}");
        let Ok(a) = a else {
            src.class("no account");
            return Ok(());
        };
        ensure!(
            a.account_number == number && a.sequence == sequence && a.address == address.to_string(),
            "account {a:?} instead of number {number}, sequence {sequence}"
        );
        let Ok(sc) = ServiceClient::connect(GRPC.to_string()).await else { return abandon() };
        let built = BroadcastClientBuilder::default()
            .client(sc)
            .signer(signer)
            .acc_number(a.account_number)
            .acc_sequence(a.sequence)
            .pub_key((uid.to_string(), k))
            .config(config)
            .build();
        let mut b = match built {
            Ok(b) => b,
            Err(e) => return fail(format!("{e}")),
        };
        src.note(|| format!("chain {chain_id}, account {number}, sequence {sequence}, key {uid}, {retries} retries, gas × {adj} at {price_text}{denom}"));
        let mut confirmed = 0u64;
        let steps = 1 + src.below(6) as usize;
        for step in 0..steps {
            let count = 1 + src.below(4) as usize;
            let msgs: Vec<Any> = (0..count).map(|n| any(src, n)).collect();
            let gas = match src.below(4) {
                0 => src.below(10),
                1 => src.below(1 << 40),
                _ => src.below(5_000_000),
            };
            let bad = |src: &mut Src, n: u64| if src.chance(1, n) { src.pick(&[Fate::Fails, Fate::Empty, Fate::Reports]).clone() } else { Fate::Fine };
            let (f_sim, f_send, f_sign) = (bad(src, 10), bad(src, 12), bad(src, 12));
            let mut polls = vec![];
            for _ in 0..src.below(6) {
                if src.chance(1, 2) {
                    polls.push(if src.bool() { Poll::Error } else { Poll::Unknown });
                }
            }
            polls.push(match src.below(8) {
                0 => Poll::Code(1 + src.below(40) as u32),
                // somebody who never gives up has to get an answer
                1 if retries < 5 => Poll::Unknown,
                2 if retries < 5 => Poll::Error,
                _ => Poll::Code(0),
            });
            {
                let mut c = chain.lock().unwrap();
                c.gas = Some(gas);
                c.simulate_fate = f_sim.clone();
                c.broadcast_fate = f_send.clone();
                c.polls = polls.clone();
                c.simulated.clear();
                c.sent.clear();
                c.asked.clear();
                let mut t = tofnd.lock().unwrap();
                t.sign_fate = Some(f_sign.clone());
                t.signs.clear();
            }
            let estimate = src.chance(1, 4);
            src.note(|| format!("{} of {msgs:?}, gas {gas}, simulation {f_sim:?}, key store {f_sign:?}, sending {f_send:?}, then {polls:?}", if estimate { "estimate" } else { "broadcast" }));
            let seq = sequence + confirmed;
            let start = std::time::Instant::now();
            let res = if estimate { b.estimate_fee(msgs.clone()).await.map(Some).map_err(|e| format!("{e:?}")).map(|f| (f, None)) } else {
                b.broadcast(msgs.clone()).await.map(|r| (None, Some(r))).map_err(|e| format!("{e:?}"))
            };
            let c = chain.lock().unwrap();
            let t = tofnd.lock().unwrap();
            ensure!(c.wrong.is_empty(), "the node does not accept: {:?}", c.wrong);
            // the simulated transaction is the one to be sent
            ensure!(c.simulated.len() == 1, "{} simulations", c.simulated.len());
            let s = &c.simulated[0];
            ensure!(s.body.messages == msgs, "{:?} is simulated instead of {msgs:?}", s.body.messages);
            ensure!(
                s.auth.signer_infos.len() == 1 && s.auth.signer_infos[0].sequence == seq && s.auth.signer_infos[0].public_key.map(|k| k.to_bytes()).as_ref() == Some(&key),
                "simulated for {:?}, the account is at {seq}",
                s.auth.signer_infos
            );
            ensure!(s.raw.signatures.len() == 1, "{} signatures for the simulation", s.raw.signatures.len());
            if estimate {
                ensure!(c.sent.is_empty() && t.signs.is_empty(), "an estimate signs or sends something");
                ensure!(res.is_ok() == (f_sim == Fate::Fine), "estimate {res:?} where the node {f_sim:?}");
                if let Ok((Some(f), _)) = &res {
                    fee_ok(f, gas, adj, price, denom)?;
                    src.class("estimate");
                }
                continue;
            }
            if f_sim != Fate::Fine {
                ensure!(res.is_err() && c.sent.is_empty() && t.signs.is_empty(), "without an estimate: {res:?}, {} sent, {} signed", c.sent.len(), t.signs.len());
                src.class("no estimate");
                continue;
            }
            ensure!(t.signs.len() == 1, "{} signatures for a transaction", t.signs.len());
            let call = &t.signs[0];
            ensure!(call.party == party && call.uid == uid && call.key == key, "signed with {call:?}");
            if f_sign != Fate::Fine {
                ensure!(res.is_err() && c.sent.is_empty(), "without a signature: {res:?}, {} sent", c.sent.len());
                src.class("not signed");
                continue;
            }
            ensure!(c.sent.len() == 1, "{} transactions are sent", c.sent.len());
            let (s, mode) = &c.sent[0];
            ensure!(*mode == SYNC, "broadcast mode {mode}");
            ensure!(s.body.messages == msgs, "{:?} is sent instead of {msgs:?}", s.body.messages);
            ensure!(s.auth.signer_infos[0].sequence == seq, "sequence {} instead of {seq}", s.auth.signer_infos[0].sequence);
            fee_ok(&s.auth.fee, gas, adj, price, denom)?;
            if f_send != Fate::Fine {
                ensure!(res.is_err() && c.asked.is_empty(), "not taken by the node: {res:?}, asked for {:?}", c.asked);
                src.class("not taken");
                continue;
            }
            // confirmed only if the node says so within the retries
            let hash = Chain::hash(&serde_json::to_vec(&s.raw).expect("transaction"));
            ensure!(c.asked.iter().all(|h| *h == hash), "asked for {:?} instead of {hash}", c.asked);
            let waits = (c.asked.len() as u64).saturating_sub(1);
            ensure!(start.elapsed().as_millis() as u64 >= waits * interval, "asked {} times in {:?}, every {interval} ms", waits + 1, start.elapsed());
            if waits * interval > 0 {
                src.class("waited");
            }
            let n = (retries as usize + 1).min(polls.len() + 5);
            let mut answers: Vec<Poll> = polls.clone();
            while answers.len() < n {
                answers.push(polls[polls.len() - 1].clone());
            }
            answers.truncate(n);
            let at = answers.iter().position(|p| matches!(p, Poll::Code(_)));
            let ok = at.map_or(false, |i| answers[i] == Poll::Code(0));
            ensure!(res.is_ok() == ok, "{res:?} where the node answers {answers:?}");
            let want = at.map_or(n, |i| i + 1);
            ensure!(c.asked.len() == want, "asked {} times where the node answers {answers:?}", c.asked.len());
            match res {
                Ok((_, Some(r))) => {
                    ensure!(r.txhash == hash, "reports the transaction {} instead of {hash}", r.txhash);
                    confirmed += 1;
                    src.class("confirmed");
                    if at > Some(0) {
                        src.class("confirmed after retries");
                    }
                }
                _ => {
                    src.class(if at.is_some() { "not executed" } else { "not confirmed" });
                    // the sender gives up, and starts again with the account as it is then
                    if confirmed > 0 {
                        src.nontrivial();
                    }
                    return Ok(());
                }
            }
            if step > 0 && confirmed > 1 {
                src.nontrivial();
            }
        }
        Ok(())
    })
}
