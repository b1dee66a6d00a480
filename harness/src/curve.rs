//! Models of the C functions of secp256k1 that fuel-crypto calls (symbolic runs only; native runs use
//! the real library). Key derivation, signing and recovery are uninterpreted functions; a signature
//! made by a key recovers to that key. Opaque structures hold the plain bytes.
#![allow(clippy::missing_safety_doc)]
extern "C" {
    fn sym_uf(tag: u32, flags: u32, i: *const u8, n: usize, o: *mut u8, k: usize);
    fn sym_assume(c: bool);
}
use std::slice::{from_raw_parts as sl, from_raw_parts_mut as slm};
const N: [u64; 4] = [0xFFFFFFFFFFFFFFFF, 0xFFFFFFFFFFFFFFFE, 0xBAAEDCE6AF48A03B, 0xBFD25E8CD0364141];

fn word(x: &[u8], i: usize) -> u64 {
    u64::from_be_bytes([x[i], x[i + 1], x[i + 2], x[i + 3], x[i + 4], x[i + 5], x[i + 6], x[i + 7]])
}
/// below the order of the curve, as one term
fn reduced(x: &[u8]) -> bool {
    let mut r = false;
    for i in [3, 2, 1, 0] {
        let w = word(x, 8 * i);
        r = (w < N[i]) | ((w == N[i]) & r);
    }
    r
}
fn zero(x: &[u8]) -> bool {
    (word(x, 0) | word(x, 8) | word(x, 16) | word(x, 24)) == 0
}
unsafe fn pubkey(sec: &[u8]) -> [u8; 64] {
    let mut o = [0; 64];
    sym_uf(1, 0, sec.as_ptr(), 32, o.as_mut_ptr(), 64);
    o
}
/// signature bytes, recovery id, seven zeroes; message
unsafe fn recover(sig: &[u8], msg: &[u8]) -> [u8; 72] {
    let mut i = [0; 104];
    i[..65].copy_from_slice(&sig[..65]);
    i[72..].copy_from_slice(msg);
    let mut o = [0; 72];
    sym_uf(3, 0, i.as_ptr(), 104, o.as_mut_ptr(), 72);
    o
}
#[no_mangle]
pub unsafe extern "C" fn model_context_preallocated_size(_: u32) -> usize {
    16
}
#[no_mangle]
pub unsafe extern "C" fn model_context_preallocated_create(p: *mut u8, _: u32) -> *mut u8 {
    p
}
#[no_mangle]
pub unsafe extern "C" fn model_context_preallocated_destroy(_: *mut u8) {}
#[no_mangle]
pub unsafe extern "C" fn model_context_randomize(_: *mut u8, _: *const u8) -> i32 {
    1
}
#[no_mangle]
pub unsafe extern "C" fn model_ec_seckey_verify(_: *const u8, k: *const u8) -> i32 {
    let k = sl(k, 32);
    (reduced(k) & !zero(k)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn model_ec_pubkey_create(_: *const u8, pk: *mut u8, k: *const u8) -> i32 {
    let k = sl(k, 32);
    slm(pk, 64).copy_from_slice(&pubkey(k));
    (reduced(k) & !zero(k)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn model_ec_pubkey_serialize(_: *const u8, o: *mut u8, n: *mut usize, pk: *const u8, _: u32) -> i32 {
    *o = 4;
    slm(o.add(1), 64).copy_from_slice(sl(pk, 64));
    *n = 65;
    1
}
#[no_mangle]
pub unsafe extern "C" fn model_ecdsa_recoverable_signature_parse_compact(_: *const u8, sig: *mut u8, i: *const u8, v: i32) -> i32 {
    let i = sl(i, 64);
    let ok = reduced(&i[..32]) & reduced(&i[32..]);
    let o = slm(sig, 65);
    if ok {
        o[..64].copy_from_slice(i);
        o[64] = v as u8;
        1
    } else {
        o.fill(0);
        0
    }
}
#[no_mangle]
pub unsafe extern "C" fn model_ecdsa_recoverable_signature_serialize_compact(_: *const u8, o: *mut u8, v: *mut i32, sig: *const u8) -> i32 {
    let s = sl(sig, 65);
    slm(o, 64).copy_from_slice(&s[..64]);
    *v = s[64] as i32;
    1
}
#[no_mangle]
pub unsafe extern "C" fn model_ecdsa_sign_recoverable(_: *const u8, sig: *mut u8, msg: *const u8, k: *const u8, _: *const u8, _: *const u8) -> i32 {
    let mut i = [0; 64];
    i[..32].copy_from_slice(sl(k, 32));
    i[32..].copy_from_slice(sl(msg, 32));
    let mut o = [0; 72];
    sym_uf(2, 0, i.as_ptr(), 64, o.as_mut_ptr(), 72);
    let (r, s) = (&o[..32], &o[32..64]);
    sym_assume(reduced(r) & !zero(r) & reduced(s) & !zero(s) & (s[0] < 0x80) & (o[64] < 2) & (word(&o, 64) & 0xff_ffff_ffff_ffff == 0));
    let (p, q) = (recover(&o, sl(msg, 32)), pubkey(sl(k, 32)));
    let mut same = true;
    for j in 0..8 {
        same = same & (word(&p, 8 * j) == word(&q, 8 * j));
    }
    sym_assume(same & (p[64] == 1));
    slm(sig, 65).copy_from_slice(&o[..65]);
    1
}
#[no_mangle]
pub unsafe extern "C" fn model_ecdsa_recover(_: *const u8, pk: *mut u8, sig: *const u8, msg: *const u8) -> i32 {
    let s = sl(sig, 65);
    let o = recover(s, sl(msg, 32));
    sym_assume(o[64] < 2);
    if (o[64] == 1) & !zero(&s[..32]) & !zero(&s[32..64]) {
        slm(pk, 64).copy_from_slice(&o[..64]);
        1
    } else {
        0
    }
}
