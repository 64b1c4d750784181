// Known finding: a send over a connection that is already gone is reported as success.
// run with EXTRA_DEPS='rcgen = "0.12"'
use bytes::Bytes;
use iris_mpc::prelude::*;
use mpc_net::config::{NetworkConfig, NetworkParty};
#[tokio::main]
async fn main() {
    let dir = std::env::temp_dir().join(format!("f08-{}", std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    let mut parties = vec![];
    for i in 0..3usize {
        let c = rcgen::generate_simple_self_signed(vec!["localhost".to_string()]).unwrap();
        std::fs::write(dir.join(format!("k{i}")), c.serialize_private_key_der()).unwrap();
        std::fs::write(dir.join(format!("c{i}")), c.serialize_der().unwrap()).unwrap();
        let a = format!("127.0.0.1:{}", 23410 + i).parse().unwrap();
        parties.push(NetworkParty { id: i, dns_name: "localhost".into(), bind_addr: a, public_addr: a, cert_path: dir.join(format!("c{i}")) });
    }
    let hs: Vec<_> = (0..3).map(|i| { let c = NetworkConfig { parties: parties.clone(), my_id: i, key_path: dir.join(format!("k{i}")) }; tokio::spawn(Aby3Network::new(c)) }).collect();
    let mut n = vec![];
    for h in hs { n.push(h.await.unwrap().unwrap()); }
    std::fs::remove_dir_all(&dir).unwrap();
    let mut a = n.remove(0);
    drop(n);                                        // both peers are gone
    let r = a.receive_next_id().await;              // the library knows: the connection is closed
    println!("receive: {r:?}");
    assert!(r.is_err());
    let s = a.send_next_id(Bytes::from_static(b"never delivered")).await;
    println!("send: {s:?}");
    std::process::exit(s.is_ok() as i32);
}
