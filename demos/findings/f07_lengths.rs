// Inner products of vectors of different lengths must be refused before anything is sent.
mod tamper;
use iris_mpc::prelude::*;
use plain_reference::IrisCodeArray;
use tamper::*;
fn fresh() -> (Net, Log) { let (mut n, mut l) = nets(0, None); std::mem::forget((n.split_off(1), l.split_off(1))); (n.remove(0), l.remove(0)) }
async fn lim<T>(f: impl std::future::Future<Output = Result<T, Error>> + Send + 'static) -> &'static str where T: Send + 'static {
    match tokio::time::timeout(std::time::Duration::from_secs(3), tokio::spawn(f)).await {
        Err(_) => "waits for peers", Ok(Err(_)) => "panic", Ok(Ok(Ok(_))) => "success", Ok(Ok(Err(_))) => "error" }
}
#[tokio::main]
async fn main() {
    let mut bad = 0;
    macro_rules! run { ($name:expr, $eng:ty, $sh:ty, $b:ty, |$p:ident| $body:expr) => {{
        let (n, l) = fresh();
        let r = lim(async move { let mut $p = <$eng>::new(n); $body.await }).await;
        let k = l.lock().unwrap().len();
        if r != "error" || k > 0 { println!("{}: {r}, {k} messages", $name); bad += 1; }
    }} }
    type V = <u16 as Sharable>::VerificationShare;
    type A = Aby3Share<u16>; type B = Aby3Share<Bit>; type S = Swift3Share<u16>; type W = SpdzWiseShare<V>;
    let (m1, m2) = (IrisCodeArray::ONES, IrisCodeArray::ONES); let _ = m2;
    run!("MalAby3::dot_many", MalAby3<Net>, A, B, |p| MpcTrait::<u16, A, B>::dot_many(&mut p, &[vec![A::default(); 2]], &[vec![A::default(); 3]]));
    run!("Swift3::dot_many", Swift3<Net, u16>, S, Swift3Share<Bit>, |p| MpcTrait::<u16, S, Swift3Share<Bit>>::dot_many(&mut p, &[vec![S::default(); 2]], &[vec![S::default(); 3]]));
    let v = || vec![A::default(); 12800];
    run!("Aby3::masked_dot_many", Aby3<Net>, A, B, |p| { let (a, b, m) = (v(), vec![v(), v()], [m1]); async move { MpcTrait::<u16, A, B>::masked_dot_many(&mut p, &a, &b, &m).await } });
    run!("MalAby3::masked_dot_many", MalAby3<Net>, A, B, |p| { let (a, b, m) = (v(), vec![v(), v()], [m1]); async move { MpcTrait::<u16, A, B>::masked_dot_many(&mut p, &a, &b, &m).await } });
    let w = |n| SpdzWiseVecShare::from_vec(vec![W::default(); n]);
    run!("SpdzWise::masked_dot_many (masks)", SpdzWise<Net, V>, W, B, |p| { let (a, b, m) = (w(12800), vec![w(12800), w(12800)], [m1]); async move { MpcTrait::<u16, W, B>::masked_dot_many(&mut p, &a, &b, &m).await } });
    run!("SpdzWise::masked_dot_many (code)", SpdzWise<Net, V>, W, B, |p| { let (a, b, m) = (w(12800), vec![w(5)], [m1]); async move { MpcTrait::<u16, W, B>::masked_dot_many(&mut p, &a, &b, &m).await } });
    if bad > 0 { std::process::exit(1) }
    println!("all refused");
}
