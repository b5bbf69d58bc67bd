P = "C13"
FILES = {"spdmlib/src/common/session.rs": [
("            &aad_buffer[..aad_size],\n            &plain_text_buf[0..cipher_text_size],", "            &aad_buffer[..6],\n            &plain_text_buf[0..cipher_text_size],"),
("            &secured_buffer[..aad_size],\n            &secured_buffer[aad_size..", "            &secured_buffer[..6],\n            &secured_buffer[aad_size.."),
]}
NEEDS = "a transport that puts sequence number bytes into the record header (get_sequence_number_count() > 0)"
BREAKS = "both sides authenticate only the first six header bytes: with explicit sequence numbers the length field is no longer covered by the AEAD"
DEMO = '''
fn run() {
    SEQ_COUNT.store(2, SeqCst);
    let mut w = World::new();
    let id = w.session();
    clear_log();
    w.req.send_receive_spdm_heartbeat(id).unwrap();
    for (what, n) in [("enc_aad", 2), ("dec_aad", 2)] {
        let l = logged(what);
        check(l.len() == n && l.iter().all(|a| a.len() == 8), "the whole record header is authenticated");
    }
}
'''
