//! Independent decoders of the destination gateways' formats (Solidity ABI and BCS), written from
//! the format specifications, and signature recovery.
use crate::util::keys::keccak;
use k256::ecdsa::{RecoveryId, Signature, VerifyingKey};

pub type D<T> = Result<T, String>;

pub struct Abi<'a>(pub &'a [u8]);
impl<'a> Abi<'a> {
    fn word(&self, at: usize) -> D<&'a [u8]> {
        let end = at.checked_add(32).ok_or("offset overflow")?;
        self.0.get(at..end).ok_or_else(|| format!("word at {at} is beyond the end ({})", self.0.len()))
    }
    fn small(&self, at: usize) -> D<usize> {
        let w = self.word(at)?;
        if w[..24].iter().any(|b| *b != 0) {
            return Err(format!("length or offset at {at} is huge"));
        }
        Ok(u64::from_be_bytes(w[24..].try_into().unwrap()) as usize)
    }
    /// i-th head word
    pub fn uint(&self, i: usize) -> D<[u8; 32]> {
        Ok(self.word(32 * i)?.try_into().unwrap())
    }
    pub fn address(&self, i: usize) -> D<[u8; 20]> {
        let w = self.word(32 * i)?;
        if w[..12].iter().any(|b| *b != 0) {
            return Err("dirty address".into());
        }
        Ok(w[12..].try_into().unwrap())
    }
    fn at(&self, off: usize) -> D<Abi<'a>> {
        Ok(Abi(self.0.get(off..).ok_or("offset beyond the end")?))
    }
    /// dynamic bytes referenced by the i-th head word
    pub fn bytes(&self, i: usize) -> D<Vec<u8>> {
        let b = self.at(self.small(32 * i)?)?;
        let n = b.small(0)?;
        let end = n.checked_add(32).ok_or("length overflow")?;
        let v = b.0.get(32..end).ok_or("bytes beyond the end")?;
        // padded with zeros to full words
        let pad = b.0.get(end..(end + 31) / 32 * 32).ok_or("missing padding")?;
        if pad.iter().any(|x| *x != 0) {
            return Err("dirty padding".into());
        }
        Ok(v.to_vec())
    }
    pub fn string(&self, i: usize) -> D<String> {
        String::from_utf8(self.bytes(i)?).map_err(|e| e.to_string())
    }
    /// the array referenced by the i-th head word: its length and its body
    pub fn array(&self, i: usize) -> D<(usize, Abi<'a>)> {
        let b = self.at(self.small(32 * i)?)?;
        let n = b.small(0)?;
        if n > self.0.len() {
            return Err("huge array".into());
        }
        Ok((n, b.at(32)?))
    }
    pub fn list<T>(&self, i: usize, f: impl Fn(&Abi<'a>, usize) -> D<T>) -> D<Vec<T>> {
        let (n, b) = self.array(i)?;
        (0..n).map(|k| f(&b, k)).collect()
    }
}

pub struct Bcs<'a>(pub &'a [u8]);
impl<'a> Bcs<'a> {
    pub fn take(&mut self, n: usize) -> D<&'a [u8]> {
        if self.0.len() < n {
            return Err(format!("{n} bytes wanted, {} left", self.0.len()));
        }
        let (a, b) = self.0.split_at(n);
        self.0 = b;
        Ok(a)
    }
    pub fn len(&mut self) -> D<usize> {
        let mut v: u64 = 0;
        for i in 0..5 {
            let b = self.take(1)?[0];
            v |= ((b & 0x7f) as u64) << (7 * i);
            if b & 0x80 == 0 {
                if b == 0 && i > 0 {
                    return Err("non-canonical length".into());
                }
                return if v <= u32::MAX as u64 { Ok(v as usize) } else { Err("huge length".into()) };
            }
        }
        Err("unterminated length".into())
    }
    pub fn bytes(&mut self) -> D<Vec<u8>> {
        let n = self.len()?;
        Ok(self.take(n)?.to_vec())
    }
    pub fn string(&mut self) -> D<String> {
        String::from_utf8(self.bytes()?).map_err(|e| e.to_string())
    }
    pub fn u64(&mut self) -> D<u64> {
        Ok(u64::from_le_bytes(self.take(8)?.try_into().unwrap()))
    }
    pub fn u128(&mut self) -> D<u128> {
        Ok(u128::from_le_bytes(self.take(16)?.try_into().unwrap()))
    }
    pub fn list<T>(&mut self, f: impl Fn(&mut Bcs<'a>) -> D<T>) -> D<Vec<T>> {
        let n = self.len()?;
        let mut v = vec![];
        for _ in 0..n {
            v.push(f(self)?);
        }
        Ok(v)
    }
    pub fn end(&self) -> D<()> {
        if self.0.is_empty() {
            Ok(())
        } else {
            Err(format!("{} trailing bytes", self.0.len()))
        }
    }
}

/// numbers of all formats are compared as decimal text
pub fn dec_be(b: &[u8; 32]) -> String {
    cosmwasm_std::Uint256::from_be_bytes(*b).to_string()
}

#[derive(Clone, Debug, PartialEq)]
pub struct Command {
    pub id: [u8; 32],
    pub ty: String,
    pub params: Vec<u8>,
}
#[derive(Clone, Debug, PartialEq)]
pub struct Data {
    pub chain_id: String,
    pub commands: Vec<Command>,
}
#[derive(Clone, Debug, PartialEq)]
pub struct Approve {
    pub chain: String,
    pub source: String,
    pub dest: Vec<u8>,
    pub hash: [u8; 32],
}
#[derive(Clone, Debug, PartialEq)]
pub struct Ops {
    pub ops: Vec<(Vec<u8>, String)>,
    pub threshold: String,
}
#[derive(Clone, Debug, PartialEq)]
pub struct Proof {
    pub ops: Ops,
    pub sigs: Vec<Vec<u8>>,
}

fn zip(ids: Vec<[u8; 32]>, tys: Vec<String>, params: Vec<Vec<u8>>) -> D<Vec<Command>> {
    if ids.len() != tys.len() || ids.len() != params.len() {
        return Err(format!("{} ids, {} types, {} parameters", ids.len(), tys.len(), params.len()));
    }
    Ok(ids
        .into_iter()
        .zip(tys)
        .zip(params)
        .map(|((id, ty), params)| Command { id, ty, params })
        .collect())
}
fn zip_ops(a: Vec<Vec<u8>>, w: Vec<String>, threshold: String) -> D<Ops> {
    if a.len() != w.len() {
        return Err(format!("{} operators, {} weights", a.len(), w.len()));
    }
    Ok(Ops {
        ops: a.into_iter().zip(w).collect(),
        threshold,
    })
}

pub fn data(abi: bool, b: &[u8]) -> D<Data> {
    if abi {
        let a = Abi(b);
        Ok(Data {
            chain_id: dec_be(&a.uint(0)?),
            commands: zip(a.list(1, |b, k| b.uint(k))?, a.list(2, |b, k| b.string(k))?, a.list(3, |b, k| b.bytes(k))?)?,
        })
    } else {
        let mut r = Bcs(b);
        let chain_id = r.u64()?.to_string();
        let ids = r.list(|r| Ok(r.take(32)?.try_into().unwrap()))?;
        let tys = r.list(|r| r.string())?;
        let params = r.list(|r| r.bytes())?;
        r.end()?;
        Ok(Data {
            chain_id,
            commands: zip(ids, tys, params)?,
        })
    }
}
pub fn approve(abi: bool, b: &[u8]) -> D<Approve> {
    if abi {
        let a = Abi(b);
        Ok(Approve {
            chain: a.string(0)?,
            source: a.string(1)?,
            dest: a.address(2)?.to_vec(),
            hash: a.uint(3)?,
        })
    } else {
        let mut r = Bcs(b);
        let chain = r.string()?;
        let source = r.string()?;
        let dest = r.take(32)?.to_vec();
        let hash = r.bytes()?.try_into().map_err(|_| "payload hash length".to_string())?;
        r.end()?;
        Ok(Approve {
            chain,
            source,
            dest,
            hash,
        })
    }
}
pub fn operators(abi: bool, b: &[u8]) -> D<Ops> {
    if abi {
        let a = Abi(b);
        zip_ops(
            a.list(0, |b, k| Ok(b.address(k)?.to_vec()))?,
            a.list(1, |b, k| Ok(dec_be(&b.uint(k)?)))?,
            dec_be(&a.uint(2)?),
        )
    } else {
        let mut r = Bcs(b);
        let ops = r.list(|r| r.bytes())?;
        let ws = r.list(|r| Ok(r.u128()?.to_string()))?;
        let t = r.u128()?.to_string();
        r.end()?;
        zip_ops(ops, ws, t)
    }
}
/// execute data: the signed data and the proof
pub fn execute(abi: bool, b: &[u8]) -> D<(Vec<u8>, Proof)> {
    if abi {
        if b.get(..4) != Some(&keccak(b"execute(bytes)")[..4]) {
            return Err("wrong function selector".into());
        }
        let input = Abi(&b[4..]).bytes(0)?;
        let a = Abi(&input);
        let (d, p) = (a.bytes(0)?, a.bytes(1)?);
        let a = Abi(&p);
        let ops = zip_ops(
            a.list(0, |b, k| Ok(b.address(k)?.to_vec()))?,
            a.list(1, |b, k| Ok(dec_be(&b.uint(k)?)))?,
            dec_be(&a.uint(2)?),
        )?;
        Ok((
            d,
            Proof {
                ops,
                sigs: a.list(3, |b, k| b.bytes(k))?,
            },
        ))
    } else {
        let mut r = Bcs(b);
        let (d, p) = (r.bytes()?, r.bytes()?);
        r.end()?;
        let mut r = Bcs(&p);
        let ops = r.list(|r| r.bytes())?;
        let ws = r.list(|r| Ok(r.u128()?.to_string()))?;
        let t = r.u128()?.to_string();
        let sigs = r.list(|r| r.bytes())?;
        r.end()?;
        Ok((
            d,
            Proof {
                ops: zip_ops(ops, ws, t)?,
                sigs,
            },
        ))
    }
}
/// the hash the signers of the gateway sign
pub fn digest(abi: bool, data: &[u8]) -> [u8; 32] {
    if abi {
        let mut v = b"\x19Ethereum Signed Message:\n32".to_vec();
        v.extend(keccak(data));
        keccak(&v)
    } else {
        let mut v = b"\x19Sui Signed Message:\n".to_vec();
        v.extend(data);
        keccak(&v)
    }
}
/// the key that produced the signature, as the gateway's ecrecover sees it: 65 bytes, low S,
/// recovery id 27/28 (EVM) or 0/1 (Sui)
pub fn recover(abi: bool, hash: &[u8], sig: &[u8]) -> D<VerifyingKey> {
    if sig.len() != 65 {
        return Err(format!("signature of {} bytes", sig.len()));
    }
    let v = if abi { sig[64].checked_sub(27).ok_or("recovery id below 27")? } else { sig[64] };
    if v > 1 {
        return Err(format!("recovery id {}", sig[64]));
    }
    let s = Signature::from_slice(&sig[..64]).map_err(|e| e.to_string())?;
    if s.normalize_s().is_some() {
        return Err("high S".into());
    }
    VerifyingKey::recover_from_prehash(hash, &s, RecoveryId::from_byte(v).unwrap()).map_err(|e| e.to_string())
}
/// the operator address of a key
pub fn eth_address(k: &VerifyingKey) -> Vec<u8> {
    keccak(&k.to_encoded_point(false).as_bytes()[1..])[12..].to_vec()
}
