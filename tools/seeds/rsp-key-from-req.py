P = "C18"
FILES = {"spdmlib/src/common/session.rs": [
("""            &SpdmMajorSecret::SpdmDirectionDataSecret(
                &self.application_secret.response_data_secret,
            ),
        ) {
            aki
        } else {
            return Err(SPDM_STATUS_CRYPTO_ERROR);
        };
        self.application_secret.response_direction.encryption_key = res.0;
        self.application_secret.response_direction.salt = res.1;
        debug!(
            "!!! response_direction.encryption_key !!!: {:02x?}\\n",
            self.application_secret
                .response_direction
                .encryption_key
                .as_ref()
        );
        debug!(
            "!!! response_direction.salt !!!: {:02x?}\\n",
            self.application_secret.response_direction.salt.as_ref()
        );

        self.application_secret.export_master_secret""", """            &SpdmMajorSecret::SpdmDirectionDataSecret(
                if self.use_psk {
                    &self.application_secret.request_data_secret
                } else {
                    &self.application_secret.response_data_secret
                },
            ),
        ) {
            aki
        } else {
            return Err(SPDM_STATUS_CRYPTO_ERROR);
        };
        self.application_secret.response_direction.encryption_key = res.0;
        self.application_secret.response_direction.salt = res.1;
        debug!(
            "!!! response_direction.encryption_key !!!: {:02x?}\\n",
            self.application_secret
                .response_direction
                .encryption_key
                .as_ref()
        );
        debug!(
            "!!! response_direction.salt !!!: {:02x?}\\n",
            self.application_secret.response_direction.salt.as_ref()
        );

        self.application_secret.export_master_secret"""),
]}
NEEDS = "a PSK session: the application keys of both directions come from the request direction's secret"
BREAKS = "both directions of an established PSK session use one key and IV, so a record can be reflected and key and nonce pairs repeat"
DEMO = '''
fn run() {
    let mut w = World::new();
    let id = w.psk_session();
    clear_log();
    w.req.send_receive_spdm_heartbeat(id).unwrap();
    let mut n = logged("nonce");
    n.sort();
    n.dedup();
    check(n.len() == 2, "request and response direction have keys of their own");
    let mut w = World::new();
    let id = w.session();
    clear_log();
    w.req.send_receive_spdm_heartbeat(id).unwrap();
    let mut n = logged("nonce");
    n.sort();
    n.dedup();
    check(n.len() == 2, "request and response direction have keys of their own");
}
'''
