//! In-memory three-party runs of the real engines with one party's incoming messages optionally tampered with.
#![allow(dead_code)]
use bytes::{Bytes, BytesMut};
use iris_mpc::prelude::*;
use std::io::{Error as IoErr, Write};
use std::sync::{Arc, Mutex};

/// what happened on a network: ('S'|'R', peer, bytes)
pub type Log = Arc<Mutex<Vec<(char, usize, Vec<u8>)>>>;
/// called for every received message: (running index of received messages, peer, data)
pub type Tamper = Box<dyn FnMut(usize, usize, &mut BytesMut) + Send>;

pub struct Net {
    inner: PartyTestNetwork,
    pub log: Log,
    n: usize,
    t: Option<Tamper>,
}
impl Net {
    pub fn new(inner: PartyTestNetwork, t: Option<Tamper>) -> Self {
        Net { inner, log: Default::default(), n: 0, t }
    }
    fn got(&mut self, id: usize, mut d: BytesMut) -> BytesMut {
        if let Some(t) = self.t.as_mut() { t(self.n, id, &mut d) }
        self.n += 1;
        self.log.lock().unwrap().push(('R', id, d.to_vec()));
        d
    }
    fn sent(&mut self, id: usize, d: &Bytes) { self.log.lock().unwrap().push(('S', id, d.to_vec())); }
}
impl NetworkTrait for Net {
    fn get_id(&self) -> usize { self.inner.get_id() }
    fn get_num_parties(&self) -> usize { 3 }
    fn print_connection_stats(&self, out: &mut impl Write) -> Result<(), IoErr> { self.inner.print_connection_stats(out) }
    async fn shutdown(self) -> Result<(), IoErr> { self.inner.shutdown().await }
    async fn send(&mut self, id: usize, data: Bytes) -> Result<(), IoErr> { self.sent(id, &data); self.inner.send(id, data).await }
    async fn send_next_id(&mut self, data: Bytes) -> Result<(), IoErr> { let i = (self.get_id() + 1) % 3; self.sent(i, &data); self.inner.send_next_id(data).await }
    async fn send_prev_id(&mut self, data: Bytes) -> Result<(), IoErr> { let i = (self.get_id() + 2) % 3; self.sent(i, &data); self.inner.send_prev_id(data).await }
    async fn receive(&mut self, id: usize) -> Result<BytesMut, IoErr> { let d = self.inner.receive(id).await?; Ok(self.got(id, d)) }
    async fn receive_prev_id(&mut self) -> Result<BytesMut, IoErr> { let i = (self.get_id() + 2) % 3; let d = self.inner.receive_prev_id().await?; Ok(self.got(i, d)) }
    async fn receive_next_id(&mut self) -> Result<BytesMut, IoErr> { let i = (self.get_id() + 1) % 3; let d = self.inner.receive_next_id().await?; Ok(self.got(i, d)) }
    async fn broadcast(&mut self, data: Bytes) -> Result<Vec<BytesMut>, IoErr> {
        let me = self.get_id();
        for i in 0..3 { if i != me { self.send(i, data.clone()).await?; } }
        let mut r = Vec::new();
        for i in 0..3 { if i == me { r.push(BytesMut::from(data.as_ref())) } else { r.push(self.receive(i).await?) } }
        Ok(r)
    }
}

/// networks for the three parties; `t` tampers with what party `victim` receives
pub fn nets(victim: usize, t: Option<Tamper>) -> (Vec<Net>, Vec<Log>) {
    let mut t = t;
    let mut v = Vec::new();
    for (i, n) in TestNetwork3p::new().get_party_networks().into_iter().enumerate() {
        v.push(Net::new(n, if i == victim { t.take() } else { None }));
    }
    let l = v.iter().map(|n| n.log.clone()).collect();
    (v, l)
}
