// A peer that adds an error to the last message of an opening must be caught.
mod tamper;
use iris_mpc::prelude::*;
use tamper::*;
type E = SpdzWise<Net, <u16 as Sharable>::VerificationShare>;
async fn party(net: Net) -> Result<(u16, Vec<u16>), Error> {
    let mut p = E::new(net);
    let v: u16 = 1234;
    MpcTrait::<u16, _, Aby3Share<Bit>>::preprocess(&mut p).await?;
    let id = MpcTrait::<u16, _, Aby3Share<Bit>>::get_id(&p);
    let s = MpcTrait::<u16, _, Aby3Share<Bit>>::input(&mut p, if id == 0 { Some(v) } else { None }, 0).await?;
    let t = s.clone();
    let a: u16 = MpcTrait::<u16, _, Aby3Share<Bit>>::open(&mut p, s).await?;
    let vs = VecShareTraitFrom::one(t);
    let b: Vec<u16> = MpcTrait::<u16, _, Aby3Share<Bit>>::open_many(&mut p, vs).await?;
    Ok((a, b))
}
struct VecShareTraitFrom;
impl VecShareTraitFrom {
    fn one(t: SpdzWiseShare<<u16 as Sharable>::VerificationShare>) -> SpdzWiseVecShare<<u16 as Sharable>::VerificationShare> { SpdzWiseVecShare::from_vec(vec![t]) }
}
async fn run(t: Option<Tamper>) -> (Vec<Option<Result<(u16, Vec<u16>), Error>>>, usize) {
    let (n, logs) = nets(0, t);
    let hs: Vec<_> = n.into_iter().map(|n| tokio::spawn(party(n))).collect();
    let mut out = vec![];
    for h in hs { out.push(h.await.ok()); }
    let k = logs[0].lock().unwrap().iter().filter(|x| x.0 == 'R').count();
    (out, k)
}
#[tokio::main]
async fn main() {
    let (r, k) = run(None).await;
    for x in &r { let v = x.as_ref().unwrap().as_ref().unwrap(); assert!(v.0 == 1234 && v.1 == vec![1234], "honest run wrong"); }
    let mut bad = 0;
    for i in 0..k { for e in 0..2 {
        let (r, _) = run(Some(Box::new(move |n, _, d| if n == i && !d.is_empty() { { let j = if e == 0 { 0 } else { d.len() - 1 }; d[j] ^= 1 } }))).await;
        if let Some(Ok(v)) = &r[0] {
            if v.0 != 1234 || v.1 != vec![1234] { println!("message {i}/{k} tampered: party 0 returned {v:?} as success"); bad += 1; }
        }
    } }
    if bad > 0 { std::process::exit(1) }
    println!("all {k} tampered messages detected or harmless");
}
