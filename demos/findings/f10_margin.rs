// A share changed by an additive error must not be opened successfully (element types whose verification ring is not
// larger than their own ring must be refused).
mod tamper;
use iris_mpc::prelude::*;
use tamper::*;
type U = <u128 as Sharable>::VerificationShare;
type E = SpdzWise<Net, U>;
type B = Aby3Share<Bit>;
async fn party(net: Net, err: u128) -> Result<u128, Error> {
    let mut p = E::new(net);
    MpcTrait::<u128, _, B>::preprocess(&mut p).await?;
    MpcTrait::<u128, SpdzWiseShare<U>, B>::set_new_mac_key(&mut p);
    let id = MpcTrait::<u128, _, B>::get_id(&p);
    let s: SpdzWiseShare<U> = MpcTrait::<u128, _, B>::input(&mut p, if id == 0 { Some(1234) } else { None }, 0).await?;
    // a cheating party 2 adds an error to the additive share it has in common with party 0
    let (v, m) = s.get();
    let (mut a, mut b) = v.get_ab();
    if id == 2 { a += <u128 as Sharable>::to_sharetype(err); }
    if id == 0 { b += <u128 as Sharable>::to_sharetype(err); }
    let s = SpdzWiseShare::new(Aby3Share::new(a, b), m);
    MpcTrait::<u128, _, B>::open(&mut p, s).await
}
async fn run(err: u128) -> Vec<Option<Result<u128, Error>>> {
    let (n, _) = nets(0, None);
    let hs: Vec<_> = n.into_iter().map(|n| tokio::spawn(party(n, err))).collect();
    let mut out = vec![];
    for h in hs { out.push(h.await.ok()); }
    out
}
#[tokio::main]
async fn main() {
    let mut bad = 0;
    for _ in 0..12 {
        let r = run(1 << 127).await;
        if let Some(Ok(v)) = &r[0] { if *v != 1234 { bad += 1; println!("an error of 2^127 was accepted: party 0 opened {v}"); } }
    }
    if bad > 0 { std::process::exit(1) }
    println!("ok");
}
