P = "C14"
FILES = {"spdmlib/src/common/session.rs": [
("""                    let r = self.encode_msg(
                        app_buffer,
                        secured_buffer,
                        &self.application_secret.response_direction,
                    );
                    self.application_secret.response_direction.sequence_number += 1;
                    r""", """                    let used = self.encode_msg(
                        app_buffer,
                        secured_buffer,
                        &self.application_secret.response_direction,
                    )?;
                    self.application_secret.response_direction.sequence_number += 1;
                    Ok(used)"""),
]}
NEEDS = "an AEAD engine that fails (or is aborted) once while the responder protects a record in an established session, and then works again"
BREAKS = "the sequence number is not consumed by the failed attempt, so the next record goes out under the same key and nonce"
DEMO = '''
fn run() {
    let mut w = World::new();
    let id = w.session();
    clear_log();
    w.req.send_secured_message(id, &[0x12, 0xE8, 0, 0], false).unwrap();
    wire().responder = None;
    w.req.send_secured_message(id, &[0x12, 0xE8, 0, 0], false).unwrap();
    let pkt = wire().to_rsp.pop_front().unwrap();
    w.req.send_secured_message(id, &[0x12, 0xE8, 0, 0], false).unwrap();
    let pkt2 = wire().to_rsp.pop_front().unwrap();
    clear_log();
    FAIL_ENCRYPT.store(true, SeqCst);
    w.inject(&pkt);
    FAIL_ENCRYPT.store(false, SeqCst);
    w.inject(&pkt2);
    let n = logged("nonce");
    let mut u = n.clone();
    u.sort();
    u.dedup();
    check(n.len() >= 2 && u.len() == n.len(), "no key and nonce is given to the AEAD twice");
}
'''
