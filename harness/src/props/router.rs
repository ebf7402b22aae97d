//! C01, C02, C03: connection-router against a reference model, in a multi-contract app where
//! every gateway (and the nexus gateway) is a recording mock.
use crate::engine::*;
use crate::util::app::*;
use crate::util::gen::*;
use connection_router::msg::{ExecuteMsg, InstantiateMsg, QueryMsg};
use connection_router::state::{GatewayDirection, Message};
use cosmwasm_std::Addr;
use std::collections::BTreeMap;

#[derive(Clone, Debug)]
struct Chain {
    gateway: Addr,
    frozen: u8,
}

struct Sys {
    w: World,
    router: Addr,
    gov: Addr,
    admin: Addr,
    nexus: Addr,
    gateways: Vec<Addr>,
    logs: BTreeMap<Addr, usize>,
    chains: BTreeMap<String, Chain>,
    /// also check the freeze events (C02)
    freeze_events: bool,
}

fn dir_bits(d: &GatewayDirection) -> u8 {
    match d {
        GatewayDirection::None => 0,
        GatewayDirection::Incoming => 1,
        GatewayDirection::Outgoing => 2,
        GatewayDirection::Bidirectional => 3,
    }
}
const DIRS: [GatewayDirection; 4] = [
    GatewayDirection::Incoming,
    GatewayDirection::Outgoing,
    GatewayDirection::Bidirectional,
    GatewayDirection::None,
];

impl Sys {
    fn new() -> Sys {
        let mut w = World::new();
        let nexus = w.mock().0;
        let gateways: Vec<Addr> = (0..6).map(|_| w.mock().0).collect();
        let (gov, admin) = (addr("governance"), addr("admin"));
        let router = w
            .instantiate(
                w_router(),
                &InstantiateMsg {
                    admin_address: admin.to_string(),
                    governance_address: gov.to_string(),
                    nexus_gateway: nexus.to_string(),
                },
                "router",
            )
            .expect("router instantiates");
        Sys {
            w,
            router,
            gov,
            admin,
            nexus,
            gateways,
            logs: BTreeMap::new(),
            chains: BTreeMap::new(),
            freeze_events: false,
        }
    }
    fn chain_of_gateway(&self, g: &Addr) -> Option<String> {
        self.chains
            .iter()
            .find(|(_, c)| &c.gateway == g)
            .map(|(n, _)| n.clone())
    }
    /// new records at a mock since the last call
    fn delivered(&mut self, a: &Addr) -> R<Vec<serde_json::Value>> {
        let log = self.w.mock_log(a);
        let seen = self.logs.entry(a.clone()).or_insert(0);
        let new = &log[*seen..];
        let mut out = vec![];
        for r in new {
            ensure_eq!(r.sender, self.router, "sender of a delivery");
            ensure!(r.funds.is_empty(), "delivery carries funds");
            let j = r.json();
            let Some(ms) = j.get("route_messages").and_then(|m| m.as_array()) else {
                return fail(format!("unexpected call of a gateway: {j}"));
            };
            out.extend(ms.iter().cloned());
        }
        *seen = log.len();
        Ok(out)
    }
    fn query_chain(&self, name: &str) -> Result<serde_json::Value, String> {
        self.w.query(&self.router, &QueryMsg::GetChainInfo(chain(name)))
    }
    fn check_registry(&self, src: &mut Src) -> R {
        for base in CHAINS {
            let asked = recase(src, base);
            let got = self.query_chain(&asked);
            match (self.chains.get(*base), got) {
                (None, Ok(v)) => return fail(format!("query of unregistered chain {asked} returned {v}")),
                (None, Err(_)) => {}
                (Some(c), Err(e)) => return fail(format!("query of registered chain {asked} ({c:?}) failed: {e}")),
                (Some(c), Ok(v)) => {
                    ensure_eq!(v["name"], serde_json::json!(base), "name of chain {asked}");
                    ensure_eq!(
                        v["gateway"]["address"],
                        serde_json::json!(c.gateway),
                        "gateway of chain {asked}"
                    );
                    let bits = v["frozen_status"].as_u64();
                    ensure_eq!(bits, Some(c.frozen as u64), "frozen status of chain {asked}");
                }
            }
        }
        Ok(())
    }
}

struct Profile {
    /// register, upgrade, freeze, unfreeze, route
    weights: [u64; 5],
    ops: usize,
    prereg: bool,
    freeze_events: bool,
}

fn sender(src: &mut Src, sys: &Sys, right: &Addr) -> Addr {
    match src.weighted(&[16, 1, 1, 1, 1, 1]) {
        0 => right.clone(),
        1 => sys.gov.clone(),
        2 => sys.admin.clone(),
        3 => sys.nexus.clone(),
        4 => src.pick(&sys.gateways).clone(),
        _ => addr("somebody"),
    }
}

fn op_register(src: &mut Src, sys: &mut Sys, upgrade: bool) -> R {
    let base = *src.pick(CHAINS);
    let name = recase(src, base);
    // the nexus gateway as a chain gateway is out of the intended configuration: not generated
    let gw = src.pick(&sys.gateways).clone();
    let s = sender(src, sys, &sys.gov.clone());
    let msg = if upgrade {
        ExecuteMsg::UpgradeGateway {
            chain: chain(&name),
            contract_address: gw.to_string(),
        }
    } else {
        ExecuteMsg::RegisterChain {
            chain: chain(&name),
            gateway_address: gw.to_string(),
        }
    };
    let taken = sys.chain_of_gateway(&gw).is_some();
    let known = sys.chains.contains_key(base);
    let expect = s == sys.gov && !taken && known == upgrade;
    let r = sys.w.exec(&s, &sys.router, &msg, &[]);
    src.note(|| {
        format!(
            "{} {name} -> {gw} by {s}: {}",
            if upgrade { "upgrade" } else { "register" },
            if r.is_ok() { "ok" } else { "rejected" }
        )
    });
    ensure_eq!(
        r.is_ok(),
        expect,
        "{} {name} -> {gw} by {s} (gateway taken: {taken}, chain known: {known}) accepted",
        if upgrade { "upgrade" } else { "register" }
    );
    if expect {
        src.class(if upgrade { "upgrade_ok" } else { "register_ok" });
        if upgrade {
            src.nontrivial();
            sys.chains.get_mut(base).unwrap().gateway = gw;
        } else {
            sys.chains.insert(
                base.to_string(),
                Chain {
                    gateway: gw,
                    frozen: 0,
                },
            );
        }
    } else if s == sys.gov {
        src.class("conflict_rejected");
        src.nontrivial();
    } else {
        src.class("unauthorized_rejected");
    }
    Ok(())
}

fn op_freeze(src: &mut Src, sys: &mut Sys, unfreeze: bool) -> R {
    let known: Vec<&str> = CHAINS.iter().copied().filter(|c| sys.chains.contains_key(*c)).collect();
    let base = if !known.is_empty() && src.chance(7, 8) {
        *src.pick(&known)
    } else {
        *src.pick(CHAINS)
    };
    let name = recase(src, base);
    let s = sender(src, sys, &sys.admin.clone());
    let d = src.pick(&DIRS).clone();
    let bits = dir_bits(&d);
    let msg = if unfreeze {
        ExecuteMsg::UnfreezeChain {
            chain: chain(&name),
            direction: d,
        }
    } else {
        ExecuteMsg::FreezeChain {
            chain: chain(&name),
            direction: d,
        }
    };
    let expect = s == sys.admin && sys.chains.contains_key(base);
    let r = sys.w.exec(&s, &sys.router, &msg, &[]);
    let what = if unfreeze { "unfreeze" } else { "freeze" };
    src.note(|| format!("{what} {name} dir {bits} by {s}: {}", if r.is_ok() { "ok" } else { "rejected" }));
    ensure_eq!(r.is_ok(), expect, "{what} {name} by {s} accepted");
    if let Ok(r) = r {
        let c = sys.chains.get_mut(base).unwrap();
        let before = c.frozen;
        if unfreeze {
            c.frozen &= !bits;
        } else {
            c.frozen |= bits;
        }
        if before != c.frozen && before != 0 {
            src.nontrivial();
        }
        src.class(if unfreeze { "unfreeze_ok" } else { "freeze_ok" });
        if sys.freeze_events {
            let f = events(&r, &sys.router, "chain_frozen");
            let u = events(&r, &sys.router, "chain_unfrozen");
            let (want, other) = if unfreeze { (&u, &f) } else { (&f, &u) };
            ensure!(other.is_empty(), "{what} of {name} emits the opposite event");
            ensure_eq!(want.len(), 1, "number of events announcing {what} of {name}");
            ensure_eq!(attr(want[0], "name"), Some(base), "chain named by the {what} event");
        }
    } else {
        src.class("freeze_rejected");
    }
    Ok(())
}

fn op_route(src: &mut Src, sys: &mut Sys) -> R {
    // sender: mostly a registered gateway
    let registered: Vec<(String, Addr)> = sys
        .chains
        .iter()
        .map(|(n, c)| (n.clone(), c.gateway.clone()))
        .collect();
    let s = match src.weighted(&[if registered.is_empty() { 0 } else { 10 }, 3, 1, 1]) {
        0 => src.pick(&registered).1.clone(),
        1 => sys.nexus.clone(),
        2 => src.pick(&sys.gateways).clone(),
        _ => {
            let all = [addr("somebody"), sys.admin.clone(), sys.gov.clone(), sys.router.clone()];
            src.pick(&all).clone()
        }
    };
    let own = sys.chain_of_gateway(&s);
    let n = match src.weighted(&[10, 2, 1]) {
        0 => src.size(5, 150),
        1 => 6 + src.idx(10),
        _ => 0,
    };
    let mixed = src.chance(1, 8);
    let reg_dest = src.chance(3, 5);
    let mut msgs: Vec<Message> = vec![];
    for _ in 0..n {
        let source = match &own {
            Some(c) if !(mixed && src.chance(1, 2)) => recase(src, &c.clone()),
            _ => src.pick(CHAINS).to_string(),
        };
        let dest = if reg_dest && !registered.is_empty() {
            let d = src.pick(&registered).0.clone();
            recase(src, &d)
        } else {
            let d = *src.pick(CHAINS);
            recase(src, d)
        };
        let m = message(src, &source, &dest);
        msgs.push(m);
    }
    if n > 1 && src.chance(1, 6) {
        let d = if src.bool() { msgs[0].clone() } else { near(src, &msgs[0]) };
        msgs.push(d); // duplicates are not the router's business: delivered twice
        src.class("duplicate_in_batch");
    }
    // model
    let mut expect: Result<BTreeMap<Addr, Vec<serde_json::Value>>, &str> = Ok(BTreeMap::new());
    if s != sys.nexus {
        match &own {
            None => expect = Err("sender is not a gateway"),
            Some(c) => {
                if sys.chains[c].frozen & 1 != 0 {
                    expect = Err("source frozen");
                } else if msgs.iter().any(|m| m.cc_id.chain.to_string() != *c) {
                    expect = Err("wrong source chain");
                }
            }
        }
    }
    if expect.is_ok() {
        let mut out: BTreeMap<Addr, Vec<serde_json::Value>> = BTreeMap::new();
        for m in &msgs {
            let to = match sys.chains.get(&m.destination_chain.to_string()) {
                Some(c) if c.frozen & 2 != 0 => {
                    expect = Err("destination frozen");
                    break;
                }
                Some(c) => c.gateway.clone(),
                None if s != sys.nexus => sys.nexus.clone(),
                None => {
                    expect = Err("unknown destination from nexus");
                    break;
                }
            };
            out.entry(to).or_default().push(msg_json(m));
        }
        if expect.is_ok() {
            expect = Ok(out);
        }
    }
    let r = sys.w.exec(&s, &sys.router, &ExecuteMsg::RouteMessages(msgs.clone()), &[]);
    src.note(|| {
        format!(
            "route by {s} (gateway of {own:?}): [{}] -> {} (model {})",
            msgs.iter().map(short).collect::<Vec<_>>().join("; "),
            if r.is_ok() { "ok" } else { "rejected" },
            match &expect { Ok(_) => "accepts", Err(e) => e }
        )
    });
    ensure_eq!(
        r.is_ok(),
        expect.is_ok(),
        "routing by {s} (gateway of {own:?}), model says {:?}, code says {:?}; accepted",
        expect.as_ref().err(),
        r.as_ref().err()
    );
    let targets: Vec<Addr> = sys
        .gateways
        .iter()
        .chain([&sys.nexus])
        .cloned()
        .collect();
    match &expect {
        Ok(by_target) => {
            if by_target.len() > 1 {
                src.class("multi_destination");
                src.nontrivial();
            }
            if by_target.contains_key(&sys.nexus) {
                src.class("to_nexus");
            }
            if s == sys.nexus {
                src.class("from_nexus");
            }
            if n > 0 {
                src.class("routed_nonempty");
                src.nontrivial();
            }
        }
        Err(e) => src.class(match *e {
            "sender is not a gateway" => "rej_not_gateway",
            "source frozen" => "rej_source_frozen",
            "wrong source chain" => "rej_wrong_source",
            "destination frozen" => "rej_dest_frozen",
            _ => "rej_unknown_dest",
        }),
    }
    for t in targets {
        let got = sys.delivered(&t)?;
        let want = match &expect {
            Ok(m) => m.get(&t).cloned().unwrap_or_default(),
            Err(_) => vec![],
        };
        ensure_eq!(got, want, "messages delivered to {t}");
    }
    if let Ok(r) = r {
        let ev = events(&r, &sys.router, "message_routed");
        let got: Vec<_> = ev
            .iter()
            .map(|e| {
                [
                    "id",
                    "source_chain",
                    "source_addresses",
                    "destination_chain",
                    "destination_addresses",
                    "payload_hash",
                ]
                .map(|k| attr(e, k).unwrap_or("").to_string())
            })
            .collect();
        let want: Vec<_> = msgs
            .iter()
            .map(|m| {
                [
                    m.cc_id.id.to_string(),
                    m.cc_id.chain.to_string(),
                    m.source_address.to_string(),
                    m.destination_chain.to_string(),
                    m.destination_address.to_string(),
                    hexs(&m.payload_hash),
                ]
            })
            .collect();
        ensure_eq!(got, want, "message_routed events");
    }
    Ok(())
}

fn history(src: &mut Src, p: &Profile) -> R {
    history_on(src, &mut Sys::new(), p)
}
fn history_on(src: &mut Src, sys: &mut Sys, p: &Profile) -> R {
    sys.freeze_events = p.freeze_events;
    if p.prereg {
        // a populated registry, so that routing dominates
        let n = src.range(2, 5) as usize;
        for i in 0..n {
            let name = CHAINS[i];
            let g = sys.gateways[i].clone();
            let r = sys.w.exec(
                &sys.gov.clone(),
                &sys.router,
                &ExecuteMsg::RegisterChain {
                    chain: chain(name),
                    gateway_address: g.to_string(),
                },
                &[],
            );
            ensure!(r.is_ok(), "governance cannot register {name}: {r:?}");
            sys.chains.insert(name.to_string(), Chain { gateway: g, frozen: 0 });
        }
        src.note(|| format!("registered {n} chains"));
    }
    src.repeat(1, p.ops, p.ops as u64, |src, _| {
        match src.weighted(&p.weights) {
            0 => op_register(src, sys, false)?,
            1 => op_register(src, sys, true)?,
            2 => op_freeze(src, sys, false)?,
            3 => op_freeze(src, sys, true)?,
            _ => op_route(src, sys)?,
        }
        sys.check_registry(src)
    })
}

fn c01_case(src: &mut Src) -> R {
    history(
        src,
        &Profile {
            weights: [2, 2, 1, 2, 10],
            ops: 14,
            prereg: true,
            freeze_events: false,
        },
    )
}
fn c02_case(src: &mut Src) -> R {
    history(
        src,
        &Profile {
            weights: [1, 2, 6, 5, 8],
            ops: 18,
            prereg: true,
            freeze_events: true,
        },
    )
}
fn c03_case(src: &mut Src) -> R {
    history(
        src,
        &Profile {
            weights: [6, 8, 1, 1, 4],
            ops: 24,
            prereg: false,
            freeze_events: false,
        },
    )
}

/// a single direction matrix, exhaustively drawn: freeze state x message direction
fn c02_matrix(src: &mut Src) -> R {
    let mut sys = Sys::new();
    sys.freeze_events = true;
    for i in 0..3 {
        let g = sys.gateways[i].clone();
        sys.w
            .exec(
                &sys.gov.clone(),
                &sys.router,
                &ExecuteMsg::RegisterChain {
                    chain: chain(CHAINS[i]),
                    gateway_address: g.to_string(),
                },
                &[],
            )
            .map_err(|e| Fail { msg: format!("register: {e}"), sig: None })?;
        sys.chains.insert(CHAINS[i].into(), Chain { gateway: g, frozen: 0 });
    }
    let n = src.range(1, 5);
    for _ in 0..n {
        let u = src.chance(1, 3);
        op_freeze(src, &mut sys, u)?;
    }
    for _ in 0..3 {
        op_route(src, &mut sys)?;
    }
    src.nontrivial();
    sys.check_registry(src)
}

/// C38: the registry and all deliveries follow from the events alone
pub fn c38_router(src: &mut Src) -> R {
    let mut sys = Sys::new();
    sys.w.record = true;
    let born: Vec<_> = sys.w.born.iter().filter(|(a, _)| *a == sys.router).collect();
    let made = events(&born[0].1, &sys.router, "router_instantiated");
    ensure_eq!(made.len(), 1, "router_instantiated events");
    ensure_eq!(attr(made[0], "admin_address"), Some(sys.admin.as_str()), "announced admin");
    ensure_eq!(attr(made[0], "governance_address"), Some(sys.gov.as_str()), "announced governance account");
    let prereg = src.bool();
    let r = history_on(
        src,
        &mut sys,
        &Profile { weights: [3, 5, 1, 1, 6], ops: 18, prereg, freeze_events: false },
    );
    // replay
    let mut reg: BTreeMap<String, String> = BTreeMap::new();
    let mut want: BTreeMap<String, Vec<[String; 6]>> = BTreeMap::new();
    for tx in &sys.w.log {
        for (name, k, g) in [("chain_registered", "name", "gateway"), ("gateway_upgraded", "chain", "gateway_address")] {
            for e in events(&tx.res, &sys.router, name) {
                let (Some(c), Some(g)) = (attr(e, k), attr(e, g)) else {
                    return fail(format!("{name} without chain or gateway: {e:?}"));
                };
                let old = reg.insert(c.to_string(), g.to_string());
                ensure!(old.is_some() == (name == "gateway_upgraded"), "{name} for a chain that {}: {e:?}",
                    if old.is_some() { "is registered" } else { "is not registered" });
                src.class(if old.is_some() { "upgraded" } else { "registered" });
            }
        }
        for e in events(&tx.res, &sys.router, "message_routed") {
            let m = super::events::message_of(e);
            let to = reg.get(&m[3]).cloned().unwrap_or(sys.nexus.to_string());
            want.entry(to).or_default().push(m);
            src.class("message_routed");
        }
    }
    for c in CHAINS {
        let got = sys.query_chain(c).ok().map(|v| v["gateway"]["address"].as_str().unwrap_or("").to_string());
        ensure_eq!(got, reg.get(*c).cloned(), "gateway of {c} and the one its events announce");
    }
    for a in sys.gateways.iter().chain([&sys.nexus]) {
        let mut got: Vec<[String; 6]> = sys
            .w
            .mock_log(a)
            .iter()
            .flat_map(|r| r.json()["route_messages"].as_array().cloned().unwrap_or_default())
            .map(|m| super::events::message_in(&m))
            .collect();
        let mut exp = want.remove(a.as_str()).unwrap_or_default();
        got.sort();
        exp.sort();
        ensure_eq!(got, exp, "messages {a} received and the ones announced for it");
    }
    ensure!(want.is_empty(), "messages announced for {:?}", want.keys());
    if reg.len() > 1 {
        src.nontrivial();
    }
    r.or_else(|_| abandon())
}

pub fn checks() -> Vec<Check> {
    const A: &[&str] = &[
        "neighbouring gateways are recording mocks that accept every call",
        "the nexus gateway is never registered as the gateway of a chain",
    ];
    vec![
        Check {
            id: "C01",
            rule: "random histories of register/upgrade/freeze/unfreeze/route calls by right and wrong senders; non-trivial: a non-empty batch was routed or a governance conflict was rejected",
            assumptions: A,
            subs: vec![Sub { name: "history", f: c01_case, quick: 36_000, thorough: 432_000 }],
            known: vec![],
        },
        Check {
            id: "C02",
            rule: "random histories dominated by freeze/unfreeze and routing; non-trivial: a freeze status changed from a non-zero state, or routing was decided under the freeze state",
            assumptions: A,
            subs: vec![
                Sub { name: "history", f: c02_case, quick: 24_000, thorough: 288_000 },
                Sub { name: "matrix", f: c02_matrix, quick: 24_000, thorough: 288_000 },
            ],
            known: vec![],
        },
        Check {
            id: "C03",
            rule: "random histories dominated by register/upgrade with random casing; non-trivial: a conflict was rejected by governance's call or an upgrade took effect",
            assumptions: A,
            subs: vec![Sub { name: "history", f: c03_case, quick: 40_000, thorough: 480_000 }],
            known: vec![],
        },
    ]
}
