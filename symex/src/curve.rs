//! Real values of the signature functions that harness models leave uninterpreted.
use secp256k1::ecdsa::{RecoverableSignature, RecoveryId};
use secp256k1::{Message, PublicKey, Secp256k1, SecretKey};

/// 1001: secret -> public key (64 bytes); 1002: secret, message -> r, s, recovery id (72 bytes);
/// 1003: r, s, recovery id (72 bytes), message -> public key, success (72 bytes). Zeroes on failure.
pub fn real(tag: u32, pre: &[u8]) -> Vec<u8> {
    let secp = Secp256k1::new();
    match tag {
        1001 => match SecretKey::from_slice(pre) {
            Ok(k) => PublicKey::from_secret_key(&secp, &k).serialize_uncompressed()[1..].to_vec(),
            Err(_) => vec![0; 64],
        },
        1002 => match (SecretKey::from_slice(&pre[..32]), Message::from_slice(&pre[32..])) {
            (Ok(k), Ok(m)) => {
                let (v, sig) = secp.sign_ecdsa_recoverable(&m, &k).serialize_compact();
                let mut o = sig.to_vec();
                o.push(v.to_i32() as u8);
                o.extend([0; 7]);
                o
            }
            _ => vec![0; 72],
        },
        _ => {
            let r = RecoveryId::from_i32(pre[64] as i32).ok().and_then(|v| RecoverableSignature::from_compact(&pre[..64], v).ok()).and_then(|s| Message::from_slice(&pre[72..]).ok().and_then(|m| secp.recover_ecdsa(&m, &s).ok()));
            match r {
                Some(k) => {
                    let mut o = k.serialize_uncompressed()[1..].to_vec();
                    o.push(1);
                    o.extend([0; 7]);
                    o
                }
                None => vec![0; 72],
            }
        }
    }
}
