// A requester and a responder of spdmlib joined by an in-memory wire, with deterministic stand-ins for all crypto.
#![allow(dead_code)]
use codec::{Codec, Writer};
use spdmlib::common::*;
use spdmlib::crypto::*;
use spdmlib::error::*;
use spdmlib::protocol::*;
use spdmlib::requester::RequesterContext;
use spdmlib::responder::ResponderContext;
use spdmlib::secret::*;
use spdmlib::{config, crypto, secret};
use std::cell::RefCell;
use std::collections::HashMap;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::SeqCst};

// ---------------------------------------------------------------- switches
pub static FAIL_VERIFY: AtomicBool = AtomicBool::new(false); // signature verification rejects
pub static FAIL_HMAC_VERIFY: AtomicBool = AtomicBool::new(false);
pub static FAIL_CHAIN: AtomicBool = AtomicBool::new(false); // certificate chain verification rejects
pub static FAIL_RANDOM: AtomicBool = AtomicBool::new(false);
pub static FAIL_SIGN: AtomicBool = AtomicBool::new(false);
pub static FAIL_HMAC: AtomicBool = AtomicBool::new(false);
pub static FAIL_ENCRYPT: AtomicBool = AtomicBool::new(false);
pub static FAIL_DECRYPT: AtomicBool = AtomicBool::new(false);
pub static FAIL_DHE: AtomicBool = AtomicBool::new(false);
pub static RSP_SEND_FAIL: AtomicBool = AtomicBool::new(false);
pub static REQ_SEND_FAIL: AtomicBool = AtomicBool::new(false);
pub static RANDOM: AtomicUsize = AtomicUsize::new(1);
pub static FAIL_HKDF_AFTER: AtomicUsize = AtomicUsize::new(usize::MAX); // hkdf_expand calls until failures start
thread_local! {
    pub static LOG: RefCell<Vec<(String, Vec<u8>)>> = RefCell::new(vec![]); // what reached the crypto callbacks
    pub static CTX: RefCell<HashMap<usize, Vec<u8>>> = RefCell::new(HashMap::new());
}
pub fn log(what: &str, data: &[u8]) {
    LOG.with(|l| l.borrow_mut().push((what.to_string(), data.to_vec())));
}
pub fn logged(what: &str) -> Vec<Vec<u8>> {
    LOG.with(|l| l.borrow().iter().filter(|x| x.0 == what).map(|x| x.1.clone()).collect())
}
pub fn clear_log() {
    LOG.with(|l| l.borrow_mut().clear());
}

// ---------------------------------------------------------------- crypto
pub fn mix(parts: &[&[u8]], n: usize) -> Vec<u8> {
    let mut out = vec![];
    let mut k = 0u64;
    while out.len() < n {
        let mut h = 0xcbf29ce484222325u64 ^ k.wrapping_mul(0x9E3779B97F4A7C15);
        for p in parts {
            for b in (p.len() as u32).to_le_bytes().iter().chain(p.iter()) {
                h = (h ^ *b as u64).wrapping_mul(0x100000001b3);
                h ^= h >> 29;
            }
        }
        out.extend_from_slice(&h.to_le_bytes());
        k += 1;
    }
    out.truncate(n);
    out
}
fn digest(a: SpdmBaseHashAlgo, parts: &[&[u8]]) -> SpdmDigestStruct {
    SpdmDigestStruct::from(&mix(parts, a.get_size() as usize)[..])
}
fn hash_all(a: SpdmBaseHashAlgo, d: &[u8]) -> Option<SpdmDigestStruct> {
    Some(digest(a, &[b"hash", d]))
}
static NEXT: AtomicUsize = AtomicUsize::new(1);
fn ctx_init(a: SpdmBaseHashAlgo) -> Option<usize> {
    let h = NEXT.fetch_add(1, SeqCst);
    CTX.with(|c| c.borrow_mut().insert(h, vec![a.get_size() as u8]));
    Some(h)
}
fn ctx_update(h: usize, d: &[u8]) -> SpdmResult {
    CTX.with(|c| match c.borrow_mut().get_mut(&h) {
        Some(v) => {
            v.extend_from_slice(d);
            Ok(())
        }
        None => Err(SPDM_STATUS_CRYPTO_ERROR),
    })
}
fn ctx_finalize(h: usize) -> Option<SpdmDigestStruct> {
    let v = CTX.with(|c| c.borrow_mut().remove(&h))?;
    log("hash", &v[1..]);
    Some(SpdmDigestStruct::from(&mix(&[b"hash", &v[1..]], v[0] as usize)[..]))
}
fn ctx_dup(h: usize) -> Option<usize> {
    let n = NEXT.fetch_add(1, SeqCst);
    CTX.with(|c| {
        let v = c.borrow().get(&h)?.clone();
        c.borrow_mut().insert(n, v);
        Some(n)
    })
}
fn hmac(a: SpdmBaseHashAlgo, k: &[u8], d: &[u8]) -> Option<SpdmDigestStruct> {
    if FAIL_HMAC.load(SeqCst) {
        return None;
    }
    log("hmac", d);
    Some(digest(a, &[b"hmac", k, d]))
}
fn hmac_verify(a: SpdmBaseHashAlgo, k: &[u8], d: &[u8], m: &SpdmDigestStruct) -> SpdmResult {
    log("hmac_verify", d);
    let want = digest(a, &[b"hmac", k, d]);
    if FAIL_HMAC_VERIFY.load(SeqCst) || want.as_ref() != m.as_ref() {
        return Err(SPDM_STATUS_VERIF_FAIL);
    }
    Ok(())
}
pub fn leaf(chain: &[u8]) -> Vec<u8> {
    // last DER certificate of a chain
    let mut at = 0;
    let mut last = vec![];
    while at + 4 <= chain.len() {
        let n = ((chain[at + 2] as usize) << 8 | chain[at + 3] as usize) + 4;
        if at + n > chain.len() {
            break;
        }
        last = chain[at..at + n].to_vec();
        at += n;
    }
    last
}
fn sign(_h: SpdmBaseHashAlgo, a: SpdmBaseAsymAlgo, d: &[u8]) -> Option<SpdmSignatureStruct> {
    if FAIL_SIGN.load(SeqCst) {
        return None;
    }
    log("sign", d);
    Some(SpdmSignatureStruct::from(bytes::BytesMut::from(&mix(&[b"sig", d], a.get_size() as usize)[..])))
}
fn verify(_h: SpdmBaseHashAlgo, a: SpdmBaseAsymAlgo, cert: &[u8], d: &[u8], s: &SpdmSignatureStruct) -> SpdmResult {
    log("verify", d);
    log("verify_cert", cert);
    let want = mix(&[b"sig", d], a.get_size() as usize);
    if FAIL_VERIFY.load(SeqCst) || want[..] != *s.as_ref() {
        return Err(SPDM_STATUS_VERIF_FAIL);
    }
    Ok(())
}
struct Dhe(Vec<u8>);
impl SpdmDheKeyExchange for Dhe {
    fn compute_final_key(self: Box<Self>, peer: &SpdmDheExchangeStruct) -> Option<SpdmDheFinalKeyStruct> {
        let x: Vec<u8> = self.0.iter().zip(peer.as_ref().iter()).map(|(a, b)| a ^ b).collect();
        Some(SpdmDheFinalKeyStruct::from(&mix(&[b"dhe", &x], 48)[..]))
    }
}
fn key_pair(a: SpdmDheAlgo) -> Option<(SpdmDheExchangeStruct, Box<dyn SpdmDheKeyExchange>)> {
    if FAIL_DHE.load(SeqCst) {
        return None;
    }
    let n = RANDOM.fetch_add(1, SeqCst);
    let k = mix(&[b"key", &n.to_le_bytes()], a.get_size() as usize);
    log("share", &k);
    Some((SpdmDheExchangeStruct::from(bytes::BytesMut::from(&k[..])), Box::new(Dhe(k))))
}
fn cert_of(chain: &[u8], index: isize) -> SpdmResult<(usize, usize)> {
    let mut v = vec![];
    let mut at = 0;
    while at + 4 <= chain.len() {
        let n = ((chain[at + 2] as usize) << 8 | chain[at + 3] as usize) + 4;
        if at + n > chain.len() {
            break;
        }
        v.push((at, at + n));
        at += n;
    }
    let i = if index < 0 { v.len() as isize - 1 } else { index };
    v.get(i as usize).copied().ok_or(SPDM_STATUS_INVALID_CERT)
}
fn verify_chain(_c: &[u8]) -> SpdmResult {
    if FAIL_CHAIN.load(SeqCst) {
        return Err(SPDM_STATUS_INVALID_CERT);
    }
    Ok(())
}
fn extract(a: SpdmBaseHashAlgo, salt: &[u8], ikm: &SpdmHkdfInputKeyingMaterial) -> Option<SpdmHkdfPseudoRandomKey> {
    SpdmHkdfPseudoRandomKey::from_input_keying_material(&SpdmHkdfInputKeyingMaterial::SpdmDigest(&digest(a, &[b"extract", salt, ikm.as_ref()])))
}
fn expand(_a: SpdmBaseHashAlgo, prk: &SpdmHkdfPseudoRandomKey, info: &[u8], n: u16) -> Option<SpdmHkdfOutputKeyingMaterial> {
    log("info", info);
    let left = FAIL_HKDF_AFTER.load(SeqCst);
    if left == 0 {
        return None;
    }
    if left != usize::MAX {
        FAIL_HKDF_AFTER.store(left - 1, SeqCst);
    }
    okm(&mix(&[b"expand", prk.as_ref(), info], n as usize))
}
fn okm(d: &[u8]) -> Option<SpdmHkdfOutputKeyingMaterial> {
    let mut data = Box::new([0u8; SPDM_MAX_HKDF_OKM_SIZE]);
    data[..d.len()].copy_from_slice(d);
    Some(SpdmHkdfOutputKeyingMaterial { data_size: d.len() as u16, data })
}
fn encrypt(_a: SpdmAeadAlgo, k: &SpdmAeadKeyStruct, iv: &SpdmAeadIvStruct, aad: &[u8], p: &[u8], tag: &mut [u8], c: &mut [u8]) -> SpdmResult<(usize, usize)> {
    log("nonce", &[k.as_ref(), iv.as_ref()].concat());
    log("enc_aad", aad);
    if FAIL_ENCRYPT.load(SeqCst) {
        return Err(SPDM_STATUS_CRYPTO_ERROR);
    }
    let ks = mix(&[b"aead", k.as_ref(), iv.as_ref()], p.len());
    for i in 0..p.len() {
        c[i] = p[i] ^ ks[i];
    }
    let t = mix(&[b"tag", k.as_ref(), iv.as_ref(), aad, p], 16);
    tag[..16].copy_from_slice(&t);
    Ok((p.len(), 16))
}
fn decrypt(_a: SpdmAeadAlgo, k: &SpdmAeadKeyStruct, iv: &SpdmAeadIvStruct, aad: &[u8], c: &[u8], tag: &[u8], p: &mut [u8]) -> SpdmResult<usize> {
    log("dec_aad", aad);
    log("dec_tag", tag);
    let ks = mix(&[b"aead", k.as_ref(), iv.as_ref()], c.len());
    for i in 0..c.len() {
        p[i] = c[i] ^ ks[i];
    }
    let t = mix(&[b"tag", k.as_ref(), iv.as_ref(), aad, &p[..c.len()]], 16);
    if FAIL_DECRYPT.load(SeqCst) || t[..tag.len()] != *tag {
        return Err(SPDM_STATUS_CRYPTO_ERROR);
    }
    Ok(c.len())
}
fn random(d: &mut [u8]) -> SpdmResult<usize> {
    if FAIL_RANDOM.load(SeqCst) {
        return Err(SPDM_STATUS_CRYPTO_ERROR);
    }
    let n = RANDOM.fetch_add(1, SeqCst);
    d.copy_from_slice(&mix(&[b"rand", &n.to_le_bytes()], d.len()));
    log("rand", d);
    Ok(d.len())
}
fn measure(_v: SpdmVersion, _s: SpdmMeasurementSpecification, _h: SpdmMeasurementHashAlgo, i: usize) -> Option<SpdmMeasurementRecordStructure> {
    let mut r = SpdmMeasurementRecordStructure::default();
    r.number_of_blocks = 1;
    if i != 0 {
        r.measurement_record_data[..4].copy_from_slice(&[1, 1, 0, 0]);
        r.measurement_record_length = codec::u24::new(4);
    }
    Some(r)
}
fn summary(_v: SpdmVersion, h: SpdmBaseHashAlgo, _s: SpdmMeasurementSpecification, _m: SpdmMeasurementHashAlgo, t: SpdmMeasurementSummaryHashType) -> Option<SpdmDigestStruct> {
    match t {
        SpdmMeasurementSummaryHashType::SpdmMeasurementSummaryHashTypeNone => None,
        _ => Some(digest(h, &[b"summary"])),
    }
}
fn psk_hs(_v: SpdmVersion, h: SpdmBaseHashAlgo, hint: &SpdmPskHintStruct, info: &[u8]) -> Option<SpdmHkdfOutputKeyingMaterial> {
    log("psk_hs", info);
    okm(&mix(&[b"psk hs", hint.as_ref(), info], h.get_size() as usize))
}
fn psk_ms(_v: SpdmVersion, h: SpdmBaseHashAlgo, hint: &SpdmPskHintStruct, info: &[u8]) -> Option<SpdmHkdfOutputKeyingMaterial> {
    log("psk_ms", info);
    okm(&mix(&[b"psk ms", hint.as_ref(), info], h.get_size() as usize))
}
pub fn register() {
    hash::register(SpdmHash { hash_all_cb: hash_all, hash_ctx_init_cb: ctx_init, hash_ctx_update_cb: ctx_update, hash_ctx_finalize_cb: ctx_finalize, hash_ctx_dup_cb: ctx_dup });
    crypto::hmac::register(SpdmHmac { hmac_cb: hmac, hmac_verify_cb: hmac_verify });
    asym_verify::register(SpdmAsymVerify { verify_cb: verify });
    dhe::register(SpdmDhe { generate_key_pair_cb: key_pair });
    cert_operation::register(SpdmCertOperation { get_cert_from_cert_chain_cb: cert_of, verify_cert_chain_cb: verify_chain });
    hkdf::register(SpdmHkdf { hkdf_extract_cb: extract, hkdf_expand_cb: expand });
    aead::register(SpdmAead { encrypt_cb: encrypt, decrypt_cb: decrypt });
    rand::register(SpdmCryptoRandom { get_random_cb: random });
    measurement::register(SpdmSecretMeasurement { measurement_collection_cb: measure, generate_measurement_summary_hash_cb: summary });
    psk::register(SpdmSecretPsk { handshake_secret_hkdf_expand_cb: psk_hs, master_secret_hkdf_expand_cb: psk_ms });
    secret::asym_sign::register(SpdmSecretAsymSign { sign_cb: sign });
    spdmlib::time::register(spdmlib::time::SpdmTime { sleep_cb: |_| {} });
}

// ---------------------------------------------------------------- wire
// transport: one byte (1 = secured) in front of the message; app layer: one byte (1 = application data)
pub struct Encap;
impl SpdmTransportEncap for Encap {
    fn encap(&mut self, s: &[u8], t: &mut [u8], secured: bool) -> SpdmResult<usize> {
        t[0] = secured as u8;
        t[1..1 + s.len()].copy_from_slice(s);
        Ok(1 + s.len())
    }
    fn decap(&mut self, t: &[u8], s: &mut [u8]) -> SpdmResult<(usize, bool)> {
        if t.is_empty() {
            return Err(SPDM_STATUS_DECAP_FAIL);
        }
        s[..t.len() - 1].copy_from_slice(&t[1..]);
        Ok((t.len() - 1, t[0] == 1))
    }
    fn encap_app(&mut self, s: &[u8], a: &mut [u8], app: bool) -> SpdmResult<usize> {
        a[0] = app as u8;
        a[1..1 + s.len()].copy_from_slice(s);
        Ok(1 + s.len())
    }
    fn decap_app(&mut self, a: &[u8], s: &mut [u8]) -> SpdmResult<(usize, bool)> {
        if a.is_empty() {
            return Err(SPDM_STATUS_DECAP_APP_FAIL);
        }
        s[..a.len() - 1].copy_from_slice(&a[1..]);
        Ok((a.len() - 1, a[0] == 1))
    }
    fn get_sequence_number_count(&mut self) -> u8 {
        SEQ_COUNT.load(SeqCst) as u8
    }
    fn get_max_random_count(&mut self) -> u16 {
        0
    }
}
pub static SEQ_COUNT: AtomicUsize = AtomicUsize::new(0);

#[derive(Default)]
pub struct Wire {
    pub to_rsp: std::collections::VecDeque<Vec<u8>>,
    pub to_req: std::collections::VecDeque<Vec<u8>>,
    pub trace: Vec<(bool, Vec<u8>)>, // (sent by the requester, packet)
    pub tamper: Option<Box<dyn FnMut(bool, &mut Vec<u8>)>>,
    pub responder: Option<*mut ResponderContext<'static>>,
    pub results: Vec<Result<bool, ()>>,
}
pub fn wire() -> &'static mut Wire {
    thread_local! { static W: *mut Wire = Box::into_raw(Box::new(Wire::default())); }
    W.with(|w| unsafe { &mut **w })
}
pub struct ReqIo;
pub struct RspIo;
impl SpdmDeviceIo for ReqIo {
    fn send(&mut self, b: &[u8]) -> SpdmResult {
        if REQ_SEND_FAIL.load(SeqCst) {
            return Err(SPDM_STATUS_SEND_FAIL);
        }
        let mut v = b.to_vec();
        let w = wire();
        if let Some(t) = &mut w.tamper {
            t(true, &mut v);
        }
        w.trace.push((true, v.clone()));
        w.to_rsp.push_back(v);
        if let Some(r) = w.responder {
            let x = unsafe { &mut *r }.process_message(0, &[0x55]);
            wire().results.push(x.map_err(|_| ()));
        }
        Ok(())
    }
    fn receive(&mut self, b: &mut [u8], _t: usize) -> Result<usize, usize> {
        let v = wire().to_req.pop_front().ok_or(0usize)?;
        b[..v.len()].copy_from_slice(&v);
        Ok(v.len())
    }
    fn flush_all(&mut self) -> SpdmResult {
        Ok(())
    }
}
impl SpdmDeviceIo for RspIo {
    fn send(&mut self, b: &[u8]) -> SpdmResult {
        if RSP_SEND_FAIL.load(SeqCst) {
            return Err(SPDM_STATUS_SEND_FAIL);
        }
        let mut v = b.to_vec();
        let w = wire();
        if let Some(t) = &mut w.tamper {
            t(false, &mut v);
        }
        w.trace.push((false, v.clone()));
        w.to_req.push_back(v);
        Ok(())
    }
    fn receive(&mut self, b: &mut [u8], _t: usize) -> Result<usize, usize> {
        let v = wire().to_rsp.pop_front().ok_or(0usize)?;
        b[..v.len()].copy_from_slice(&v);
        Ok(v.len())
    }
    fn flush_all(&mut self) -> SpdmResult {
        Ok(())
    }
}

// ---------------------------------------------------------------- the two sides
pub struct Setup {
    pub req_caps: SpdmRequestCapabilityFlags,
    pub rsp_caps: SpdmResponseCapabilityFlags,
    pub mut_auth: bool,
    pub chain_slots: Vec<usize>,
}
impl Default for Setup {
    fn default() -> Self {
        use SpdmRequestCapabilityFlags as Q;
        use SpdmResponseCapabilityFlags as R;
        Setup {
            req_caps: Q::CERT_CAP | Q::CHAL_CAP | Q::ENCRYPT_CAP | Q::MAC_CAP | Q::KEY_EX_CAP | Q::PSK_CAP | Q::ENCAP_CAP | Q::HBEAT_CAP | Q::KEY_UPD_CAP,
            rsp_caps: R::CERT_CAP | R::CHAL_CAP | R::MEAS_CAP_SIG | R::MEAS_FRESH_CAP | R::ENCRYPT_CAP | R::MAC_CAP | R::KEY_EX_CAP | R::PSK_CAP_WITH_CONTEXT | R::ENCAP_CAP | R::HBEAT_CAP | R::KEY_UPD_CAP,
            mut_auth: true,
            chain_slots: vec![0],
        }
    }
}
pub fn chain() -> SpdmCertChainData {
    let mut c = SpdmCertChainData::default();
    let mut v = vec![];
    for n in ["ca", "inter", "end_responder"] {
        v.extend(std::fs::read(format!("{}/test_key/ecp384/{}.cert.der", repo(), n)).unwrap());
    }
    c.data[..v.len()].copy_from_slice(&v);
    c.data_size = v.len() as u16;
    c
}
pub fn root() -> SpdmCertChainData {
    let mut c = SpdmCertChainData::default();
    let v = std::fs::read(format!("{}/test_key/ecp384/ca.cert.der", repo())).unwrap();
    c.data[..v.len()].copy_from_slice(&v);
    c.data_size = v.len() as u16;
    c
}
pub struct World {
    pub req: &'static mut RequesterContext<'static>,
    pub rsp: &'static mut ResponderContext<'static>,
}
fn leak<T>(t: T) -> &'static mut T {
    Box::leak(Box::new(t))
}
pub fn config_info(s: &Setup) -> SpdmConfigInfo {
    SpdmConfigInfo {
        spdm_version: [SpdmVersion::SpdmVersion10, SpdmVersion::SpdmVersion11, SpdmVersion::SpdmVersion12],
        req_capabilities: if s.mut_auth { s.req_caps | SpdmRequestCapabilityFlags::MUT_AUTH_CAP } else { s.req_caps },
        rsp_capabilities: if s.mut_auth { s.rsp_caps | SpdmResponseCapabilityFlags::MUT_AUTH_CAP } else { s.rsp_caps },
        measurement_specification: SpdmMeasurementSpecification::DMTF,
        measurement_hash_algo: SpdmMeasurementHashAlgo::TPM_ALG_SHA_384,
        base_asym_algo: SpdmBaseAsymAlgo::TPM_ALG_ECDSA_ECC_NIST_P384,
        base_hash_algo: SpdmBaseHashAlgo::TPM_ALG_SHA_384,
        dhe_algo: SpdmDheAlgo::SECP_384_R1,
        aead_algo: SpdmAeadAlgo::AES_256_GCM,
        req_asym_algo: SpdmReqAsymAlgo::TPM_ALG_ECDSA_ECC_NIST_P384,
        key_schedule_algo: SpdmKeyScheduleAlgo::SPDM_KEY_SCHEDULE,
        opaque_support: SpdmOpaqueSupport::OPAQUE_DATA_FMT1,
        data_transfer_size: config::MAX_SPDM_MSG_SIZE as u32,
        max_spdm_msg_size: config::MAX_SPDM_MSG_SIZE as u32,
        heartbeat_period: 5,
        secure_spdm_version: [DMTF_SECURE_SPDM_VERSION_10, DMTF_SECURE_SPDM_VERSION_11],
        ..Default::default()
    }
}
pub fn provision(s: &Setup) -> SpdmProvisionInfo {
    let mut p = SpdmProvisionInfo::default();
    for i in &s.chain_slots {
        p.my_cert_chain_data[*i] = Some(chain());
    }
    p.peer_root_cert_data = Some(root());
    p
}
impl World {
    pub fn with(s: Setup) -> World {
        register();
        let req = leak(RequesterContext::new(leak(ReqIo), leak(Encap), config_info(&s), provision(&s)));
        let rsp = leak(ResponderContext::new(leak(RspIo), leak(Encap), config_info(&s), provision(&s)));
        *wire() = Wire::default();
        wire().responder = Some(rsp as *mut _);
        World { req, rsp }
    }
    pub fn new() -> World {
        World::with(Setup::default())
    }
    pub fn connect(&mut self) {
        self.req.init_connection().expect("connection");
    }
    pub fn certified(&mut self) {
        self.connect();
        self.req.send_receive_spdm_digest(None).expect("digests");
        self.req.send_receive_spdm_certificate(None, 0).expect("certificate");
    }
    pub fn session(&mut self) -> u32 {
        self.certified();
        self.req.start_session(false, 0, SpdmMeasurementSummaryHashType::SpdmMeasurementSummaryHashTypeNone).expect("session")
    }
    pub fn psk_session(&mut self) -> u32 {
        self.connect();
        self.req.start_session(true, 0, SpdmMeasurementSummaryHashType::SpdmMeasurementSummaryHashTypeNone).expect("psk session")
    }
    /// deliver one raw packet (transport byte first) to the responder, return what it sent
    pub fn inject(&mut self, pkt: &[u8]) -> Vec<Vec<u8>> {
        let w = wire();
        w.to_req.clear();
        w.to_rsp.push_back(pkt.to_vec());
        let x = self.rsp.process_message(0, &[0x55]);
        wire().results.push(x.map_err(|_| ()));
        wire().to_req.drain(..).collect()
    }
    pub fn rsp_state(&self, id: u32) -> Option<session::SpdmSessionState> {
        self.rsp.common.get_immutable_session_via_id(id).map(|s| s.get_session_state())
    }
    pub fn req_state(&self, id: u32) -> Option<session::SpdmSessionState> {
        self.req.common.get_immutable_session_via_id(id).map(|s| s.get_session_state())
    }
    /// requester sends a raw message inside session `id` and returns the plaintext answer, if any
    pub fn in_session(&mut self, id: u32, msg: &[u8], app: bool) -> Option<Vec<u8>> {
        wire().to_req.clear();
        self.req.send_secured_message(id, msg, app).ok()?;
        let mut b = [0u8; config::MAX_SPDM_MSG_SIZE];
        let n = self.req.receive_secured_message(id, &mut b, false).ok()?;
        Some(b[..n].to_vec())
    }
    /// requester sends a raw message in the clear and returns the answer, if any
    pub fn clear(&mut self, msg: &[u8]) -> Option<Vec<u8>> {
        wire().to_req.clear();
        self.req.send_message(msg).ok()?;
        let mut b = [0u8; config::MAX_SPDM_MSG_SIZE];
        let n = self.req.receive_message(&mut b, false).ok()?;
        Some(b[..n].to_vec())
    }
}
/// run f, turning a panic into Err
pub fn quietly<T>(f: impl FnOnce() -> T) -> Result<T, ()> {
    std::panic::set_hook(Box::new(|_| {}));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|_| ());
    let _ = std::panic::take_hook();
    r
}
/// big stack: spdmlib keeps its buffers on the stack
pub fn on_big_stack(f: fn()) {
    std::thread::Builder::new().stack_size(256 << 20).spawn(f).unwrap().join().unwrap_or_else(|_| std::process::exit(1));
}
fn repo() -> String {
    std::env::var("REPO").unwrap_or("/repo".into())
}
/// end the demonstration: nonzero if the property was seen to fail
pub fn check(ok: bool, what: &str) {
    println!("{}: {}", if ok { "holds" } else { "BROKEN" }, what);
    if !ok {
        std::process::exit(1);
    }
}
