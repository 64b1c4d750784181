// A query whose verification fails must return the error, not panic.
mod tamper;
use iris_mpc::prelude::*;
use plain_reference::IrisCode;
use rand::SeedableRng;
use rand_chacha::ChaCha12Rng;
use tamper::*;
type V = <u16 as Sharable>::VerificationShare;
type E = SpdzWise<Net, V>;
fn sh(c: &IrisCode, id: usize, mac: V, rng: &mut ChaCha12Rng) -> SpdzWiseVecShare<V> {
    SpdzWiseVecShare::from_vec((0..IrisCode::IRIS_CODE_SIZE).map(|i| <E as MpcTrait<u16, SpdzWiseShare<V>, Aby3Share<Bit>>>::share(u16::from(c.code.get_bit(i)), mac.clone(), rng)[id].to_owned()).collect())
}
async fn party(net: Net) -> Result<bool, Error> {
    let mut rng = ChaCha12Rng::from_seed([7; 32]);
    let a = IrisCode::random_rng(&mut rng);
    let b = a.get_similar_iris(&mut rng);
    let id = net.get_id();
    let mut iris = IrisSpdzWise::<u16, E>::new(E::new(net))?;
    iris.preprocessing().await?;
    let mac: V = 0x1234_5678_9abc_def1;
    iris.set_mac_key(<E as MpcTrait<u16, SpdzWiseShare<V>, Aby3Share<Bit>>>::share(1, mac, &mut rng)[id].to_owned());
    let (x, y) = (sh(&a, id, mac, &mut rng), sh(&b, id, mac, &mut rng));
    iris.iris_in_db(&x, &[y], &a.mask, &[b.mask], 32).await
}
async fn run(t: Option<Tamper>) -> (Vec<Result<Result<bool, Error>, tokio::task::JoinError>>, usize) {
    let (n, logs) = nets(0, t);
    let hs: Vec<_> = n.into_iter().map(|n| tokio::spawn(party(n))).collect();
    let mut out = vec![];
    for h in hs { out.push(h.await); }
    let k = logs[0].lock().unwrap().iter().filter(|x| x.0 == 'R').count();
    (out, k)
}
#[tokio::main]
async fn main() {
    let t0 = std::time::Instant::now(); let (r, k) = run(None).await; println!("{k} messages, {:?}", t0.elapsed());
    for x in &r { assert!(*x.as_ref().unwrap().as_ref().unwrap(), "honest run wrong"); }
    let mut bad = 0;
    for i in [k - 1, k - 2, k - 4] {
        let (r, _) = run(Some(Box::new(move |n, _, d| if n == i && !d.is_empty() { d[0] ^= 1 }))).await;
        for (p, x) in r.iter().enumerate() { if x.is_err() { println!("message {i}/{k} to party 0 tampered: party {p} panicked"); bad += 1; } }
    }
    if bad > 0 { std::process::exit(1) }
    println!("tampering always gives an error");
}
