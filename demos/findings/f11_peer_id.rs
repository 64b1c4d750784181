// A peer that announces an id nobody configured, an id that is taken, or a wrong id for a channel:
// establishing must fail with an error instead of registering the connection or panicking.
// run with EXTRA_DEPS=$'rcgen = "0.12"\nquinn = "0.10"\nrustls = "0.21"\nfutures = "0.3"'
use mpc_net::{config::{NetworkConfig, NetworkParty}, MpcNetworkHandler};
use std::time::Duration;
use tokio::io::{AsyncReadExt, AsyncWriteExt};

fn client(cert: Vec<u8>) -> quinn::Endpoint {
    let mut roots = rustls::RootCertStore::empty();
    roots.add(&rustls::Certificate(cert)).unwrap();
    let mut e = quinn::Endpoint::client("0.0.0.0:0".parse().unwrap()).unwrap();
    e.set_default_client_config(quinn::ClientConfig::with_root_certificates(roots));
    e
}

/// party 0 of `n` parties against clients that announce the given ids
async fn run(port: u16, n: usize, ids: &[u32], chan: Option<u32>) -> Result<String, String> {
    let dir = std::env::temp_dir().join(format!("f11-{}-{}", std::process::id(), port));
    std::fs::create_dir_all(&dir).unwrap();
    let mut parties = vec![];
    for i in 0..n {
        let c = rcgen::generate_simple_self_signed(vec!["localhost".to_string()]).unwrap();
        std::fs::write(dir.join(format!("k{i}")), c.serialize_private_key_der()).unwrap();
        std::fs::write(dir.join(format!("c{i}")), c.serialize_der().unwrap()).unwrap();
        let a: std::net::SocketAddr = format!("127.0.0.1:{}", port + i as u16).parse().unwrap();
        parties.push(NetworkParty { id: i, dns_name: "localhost".into(), bind_addr: a, public_addr: a, cert_path: dir.join(format!("c{i}")) });
    }
    let cert = std::fs::read(dir.join("c0")).unwrap();
    let addr = parties[0].public_addr;
    let cfg = NetworkConfig { parties, my_id: 0, key_path: dir.join("k0") };
    let h = tokio::spawn(async move {
        let mut h = MpcNetworkHandler::establish(cfg).await.map_err(|e| format!("{e}"))?;
        let known: Vec<usize> = (0..100).filter(|i| h.get_send_receive(*i).is_ok()).collect();
        if chan.is_some() {
            h.get_byte_channels().await.map_err(|e| format!("{e}"))?;
        }
        Ok::<_, String>(format!("registered {known:?}"))
    });
    tokio::time::sleep(Duration::from_millis(300)).await;
    let e = client(cert);
    let mut keep = vec![];
    for id in ids {
        let Ok(c) = e.connect(addr, "localhost").unwrap().await else { continue };
        let mut u = c.open_uni().await.unwrap();
        u.write_u32(*id).await.unwrap();
        let _ = u.finish().await;
        if let Some(x) = chan {
            let (mut s, mut r) = c.open_bi().await.unwrap();
            s.write_u32(x).await.unwrap();
            let _ = r.read_u32().await;
        }
        keep.push(c);
    }
    let r = tokio::time::timeout(Duration::from_secs(20), h).await;
    std::fs::remove_dir_all(&dir).unwrap();
    match r {
        Ok(Ok(x)) => x,
        Ok(Err(j)) => Ok(format!("PANIC {}", j.is_panic())),
        Err(_) => Err("timeout".into()),
    }
}

#[tokio::main]
async fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let good = run(23510, 2, &[1], None).await;
    println!("announces 1: {good:?}");
    let goodc = run(23520, 2, &[1], Some(1)).await;
    println!("announces 1, channel 1: {goodc:?}");
    let unknown = run(23530, 2, &[7], None).await;
    println!("announces 7: {unknown:?}");
    let own = run(23540, 2, &[0], None).await;
    println!("announces 0: {own:?}");
    let twice = run(23550, 3, &[1, 1], None).await;
    println!("announces 1 twice: {twice:?}");
    let wrong = run(23560, 2, &[1], Some(2)).await;
    println!("announces 1, channel 2: {wrong:?}");
    let bad = !good.is_ok() as i32 + !goodc.is_ok() as i32 + [unknown, own, twice, wrong].iter().filter(|x| x.is_ok()).count() as i32;
    std::process::exit(bad)
}
