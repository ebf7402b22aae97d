use crate::engine::Check;
mod e2e;
mod edge;
mod events;
mod gateway;
mod multisig;
mod prover;
mod registry;
mod rewards;
mod router;
mod twice;
mod types;
mod voting;

pub fn all() -> Vec<Check> {
    let mut v = base();
    v.extend(twice::checks());
    v
}
fn base() -> Vec<Check> {
    let mut v = vec![];
    v.extend(router::checks());
    v.extend(gateway::checks());
    v.extend(multisig::checks());
    v.extend(prover::checks());
    v.extend(edge::checks());
    v.extend(registry::checks());
    v.extend(rewards::checks());
    v.extend(types::checks());
    v.extend(e2e::checks());
    v.extend(voting::checks());
    v.extend(events::checks());
    v
}
