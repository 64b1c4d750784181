// The cut-and-choose opening of triples must not accept a tampered message.
mod tamper;
use iris_mpc::prelude::*;
use tamper::*;
type E = SpdzWise<Net, <u16 as Sharable>::VerificationShare>;
async fn party(net: Net) -> Result<(), Error> {
    let mut p = E::new(net);
    MpcTrait::<u16, _, Aby3Share<Bit>>::preprocess(&mut p).await?;
    MpcTrait::<u16, _, Aby3Share<Bit>>::precompute_and_triples(&mut p, 128).await
}
async fn run(t: Option<Tamper>) -> (Vec<bool>, Vec<(char, usize, Vec<u8>)>) {
    let (n, logs) = nets(0, t);
    let hs: Vec<_> = n.into_iter().map(|n| tokio::spawn(party(n))).collect();
    let mut out = vec![];
    for h in hs { out.push(matches!(h.await, Ok(Ok(())))); }
    let l = logs[0].lock().unwrap().clone();
    (out, l)
}
#[tokio::main]
async fn main() {
    let (r, log) = run(None).await;
    assert!(r.iter().all(|x| *x), "honest run failed");
    let recv: Vec<_> = log.iter().filter(|x| x.0 == 'R').collect();
    let k = recv.iter().position(|x| x.2.len() == 48).expect("the opening of one triple register (3 x 16 bytes)");
    let mut bad = 0;
    for i in 0..12usize {
        let (r, _) = run(Some(Box::new(move |n, _, d| if n == k { d[i] ^= 1 << (i % 8) }))).await;
        if r[0] { println!("opening message with byte {i} changed was accepted"); bad += 1; }
    }
    if bad > 0 { std::process::exit(1) }
    println!("every changed opening was rejected");
}
