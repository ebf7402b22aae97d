//! Deterministic test keys.
use k256::ecdsa::signature::hazmat::{PrehashSigner, PrehashVerifier};
use k256::ecdsa::{Signature, SigningKey, VerifyingKey};
use sha3::{Digest, Keccak256};
use std::sync::OnceLock;

pub struct K {
    pub secp: SigningKey,
    pub compressed: Vec<u8>,
    pub uncompressed: Vec<u8>,
    pub eth: [u8; 20],
    pub ed: ed25519_zebra::SigningKey,
    pub ed_pk: [u8; 32],
}

pub fn keccak(b: &[u8]) -> [u8; 32] {
    Keccak256::digest(b).into()
}

pub const N: usize = 256;

pub fn key(i: usize) -> &'static K {
    static KEYS: OnceLock<Vec<K>> = OnceLock::new();
    &KEYS.get_or_init(|| {
        (0..N)
            .map(|i| {
                let seed = keccak(format!("pbt key {i}").as_bytes());
                let secp = SigningKey::from_bytes((&seed).into()).expect("scalar");
                let vk = VerifyingKey::from(&secp);
                let uncompressed = vk.to_encoded_point(false).as_bytes().to_vec();
                let mut eth = [0u8; 20];
                eth.copy_from_slice(&keccak(&uncompressed[1..])[12..]);
                let ed = ed25519_zebra::SigningKey::from(seed);
                let ed_pk: [u8; 32] = ed25519_zebra::VerificationKey::from(&ed).into();
                K {
                    compressed: vk.to_encoded_point(true).as_bytes().to_vec(),
                    uncompressed,
                    eth,
                    secp,
                    ed,
                    ed_pk,
                }
            })
            .collect()
    })[i]
}

/// 64 byte low-S signature over a 32 byte hash
pub fn sign(i: usize, hash: &[u8]) -> Vec<u8> {
    let s: Signature = key(i).secp.sign_prehash(hash).expect("sign");
    let s = s.normalize_s().unwrap_or(s);
    s.to_vec()
}
/// the other (high-S) form of a signature
pub fn high_s(sig: &[u8]) -> Vec<u8> {
    let s = Signature::from_slice(sig).expect("signature");
    let (r, s) = s.split_scalars();
    let neg = -*s;
    Signature::from_scalars(r.to_bytes(), neg.to_bytes()).expect("scalars").to_vec()
}
pub fn sign_ed(i: usize, msg: &[u8]) -> Vec<u8> {
    let s: [u8; 64] = key(i).ed.sign(msg).into();
    s.to_vec()
}
/// either form of S is a correct signature
pub fn verify(pk: &[u8], hash: &[u8], sig: &[u8]) -> bool {
    let Ok(vk) = VerifyingKey::from_sec1_bytes(pk) else { return false };
    let Ok(s) = Signature::from_slice(sig) else { return false };
    let s = s.normalize_s().unwrap_or(s);
    vk.verify_prehash(hash, &s).is_ok()
}
pub fn verify_ed(pk: &[u8], msg: &[u8], sig: &[u8]) -> bool {
    let Ok(pk): Result<[u8; 32], _> = pk.try_into() else { return false };
    let Ok(sig): Result<[u8; 64], _> = sig.try_into() else { return false };
    let Ok(vk) = ed25519_zebra::VerificationKey::try_from(pk) else { return false };
    vk.verify(&ed25519_zebra::Signature::from(sig), msg).is_ok()
}
