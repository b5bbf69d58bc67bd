mod world;
use world::*;
use spdmlib::protocol::SpdmMeasurementSummaryHashType::SpdmMeasurementSummaryHashTypeNone as NoSum;
use spdmlib::message::*;
fn main() { on_big_stack(run) }
fn run() {
    let mut w = World::new();
    w.certified();
    println!("challenge {:?}", w.req.send_receive_spdm_challenge(0, NoSum));
    println!("challenge {:?}", w.req.send_receive_spdm_challenge(0, NoSum));
    let mut w = World::new();
    let id = w.session();
    clear_log();
    println!("challenge {:?}", w.req.send_receive_spdm_challenge(0, NoSum));
    println!("signed {:02x?}", logged("sign").iter().map(|x| x.len()).collect::<Vec<_>>());
    println!("verified {:02x?}", logged("verify").iter().map(|x| x.len()).collect::<Vec<_>>());
    LOG.with(|l| for (a, d) in l.borrow().iter() { println!("H {} {} {:016x}", a, d.len(), d.iter().fold(7u64, |h, b| (h ^ *b as u64).wrapping_mul(0x100000001b3))); });
    println!("session {:x} {:?} {:?}", id, w.req_state(id), w.rsp_state(id));
    println!("{:?}", w.req.send_receive_spdm_heartbeat(id));
    println!("{:?}", w.req.send_receive_spdm_key_update(id, SpdmKeyUpdateOperation::SpdmUpdateAllKeys));
    println!("{:?}", w.req.send_receive_spdm_key_update(id, SpdmKeyUpdateOperation::SpdmUpdateSingleKey));
    println!("{:?}", w.req.send_receive_spdm_heartbeat(id));
    println!("{:?}", w.req.end_session(id));
    let mut w = World::new();
    let id = w.psk_session();
    println!("{:?}", w.req.send_receive_spdm_heartbeat(id));
}
