P = "C01"
FILES = {"spdmlib/src/responder/finish_rsp.rs": [
("""        if (!mut_auth_attributes.is_empty()
            && !finish_request_attributes.contains(SpdmFinishRequestAttributes::SIGNATURE_INCLUDED))
            || (mut_auth_attributes.is_empty()
                && finish_request_attributes
                    .contains(SpdmFinishRequestAttributes::SIGNATURE_INCLUDED))
        {""", """        let is_mut_auth =
            finish_request_attributes.contains(SpdmFinishRequestAttributes::SIGNATURE_INCLUDED);
        if mut_auth_attributes.is_empty() && is_mut_auth {"""),
("""        let is_mut_auth = !mut_auth_attributes.is_empty();
        if is_mut_auth {
            let session""", """        if is_mut_auth {
            let session"""),
]}
NEEDS = "a requester that was asked for mutual authentication but sends FINISH without SIGNATURE_INCLUDED and with a correct HMAC"
BREAKS = "the responder decides from the peer's FINISH attributes, not from its own demand, whether the requester has to sign; an unauthenticated requester gets an Established session"
DEMO = '''
fn run() {
    let mut w = World::new();
    w.certified();
    let id = w.req.send_receive_spdm_key_exchange(0, NoSum).unwrap();
    w.req.session_based_mutual_authenticate(id).unwrap();
    let head = [0x12u8, 0xE5, 0, 0];
    w.req.common.append_message_f(true, id, &head).unwrap();
    let s = w.req.common.get_immutable_session_via_id(id).unwrap();
    let th = w.req.common.calc_req_transcript_hash(false, 0, true, s).unwrap();
    let mac = s.generate_hmac_with_request_finished_key(th.as_ref()).unwrap();
    w.in_session(id, &[&head[..], mac.as_ref()].concat(), false);
    check(w.rsp_state(id) != Some(SpdmSessionState::SpdmSessionEstablished), "a requester that did not sign has no session");
    let mut w = World::new();
    let id = w.session();
    check(w.rsp_state(id) == Some(SpdmSessionState::SpdmSessionEstablished), "an honest requester gets one");
}
'''
