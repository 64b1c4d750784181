// A peer that sends a byte that is no bit must get its counterpart an error, not a panic.
mod tamper;
use iris_mpc::prelude::*;
use tamper::*;
type A = Aby3Share<u16>; type B = Aby3Share<Bit>;
#[tokio::main]
async fn main() {
    let (nets, _) = nets(0, Some(Box::new(|_, _, d| d[0] = 2)));
    let mut h = Vec::new();
    for n in nets {
        h.push(tokio::spawn(async move {
            let mut p = Aby3::<Net>::new(n);
            MpcTrait::<u16, A, B>::open_bit_many(&mut p, vec![B::default(); 4]).await.map(|_| ())
        }));
    }
    let r = h.remove(0).await;
    println!("{r:?}");
    if r.is_err() { std::process::exit(1) }
}
