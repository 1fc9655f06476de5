use tokio::sync::mpsc::error::TryRecvError;
use tokio::sync::mpsc::{unbounded_channel, UnboundedReceiver};
use utils_networking::broadcaster::Broadcaster;

//@ prop=N02
//@ time=90
//@ covers=received|closed
//@ bounds=all sequences of four steps with up to two subscribers: a subscription, a broadcast of any byte, a subscriber leaving, a purge
#[no_mangle]
pub extern "C" fn h_broadcast() {
    let mut b = Broadcaster::<u8>::new();
    let mut subs: Vec<(Option<UnboundedReceiver<u8>>, Vec<u8>)> = vec![];
    for i in 0..4 {
        match sym::choose(["s0", "s1", "s2", "s3"][i], 5) {
            0 if subs.len() < 2 => {
                let (tx, rx) = unbounded_channel();
                b.subscribe_using(tx);
                subs.push((Some(rx), vec![]));
            }
            1 => {
                let v = sym::u8(["v0", "v1", "v2", "v3"][i]);
                b.broadcast(&v);
                subs.iter_mut().for_each(|s| s.1.push(v));
            }
            k @ (2 | 3) if k - 2 < subs.len() => subs[k - 2].0 = None,
            4 => b.purge(),
            _ => return,
        }
        let live = subs.iter().filter(|s| s.0.is_some()).count();
        sym::check(b.num_subscribers() >= live && b.num_subscribers() <= subs.len(), "every live subscriber is counted");
    }
    b.purge();
    sym::check(b.num_subscribers() == subs.iter().filter(|s| s.0.is_some()).count(), "a purge leaves the live subscribers");
    let end = sym::flag("drop");
    let kept = Some(b).filter(|_| !end);
    for (rx, want) in &mut subs {
        let Some(rx) = rx else { continue };
        for v in want {
            sym::cover("received");
            sym::check(rx.try_recv() == Ok(*v), "a subscriber receives each value once in order");
        }
        let e = if kept.is_some() { TryRecvError::Empty } else { TryRecvError::Disconnected };
        sym::cover_if(kept.is_none(), "closed");
        sym::check(rx.try_recv() == Err(e), "a subscriber receives nothing else and sees the end");
    }
}

/// what a future gives when polled once
fn poll<T>(f: impl std::future::Future<Output = T>) -> Option<T> {
    let mut f = std::pin::pin!(f);
    match f.as_mut().poll(&mut std::task::Context::from_waker(std::task::Waker::noop())) {
        std::task::Poll::Ready(v) => Some(v),
        std::task::Poll::Pending => None,
    }
}

//@ prop=N02
//@ time=90
//@ covers=early|late|closed
//@ bounds=124 to 132 subscriptions, all but three given up, one of the kept any of the first or last four; two broadcasts of any byte before or between
#[no_mangle]
pub extern "C" fn h_broadcast_many() {
    let mut b = Broadcaster::<u8>::new();
    let n = 124 + sym::choose("subscriptions", 9);
    let k = sym::choose("kept", 8);
    let k = if k < 4 { k } else { n - 8 + k };
    let (v, w) = (sym::u8("first"), sym::u8("second"));
    let at = sym::choose("broadcast at", 3);
    let mut kept = vec![];
    for i in 0..n {
        let r = b.subscribe();
        if i == k || i == 60 || i + 1 == n {
            kept.push((r, i < [2, 64, n][at]));
        }
        if i + 1 == [2, 64, n][at] {
            b.broadcast(&v);
        }
    }
    sym::check(b.num_subscribers() >= kept.len(), "every live subscriber is counted");
    b.broadcast(&w);
    sym::check(b.num_subscribers() == kept.len(), "a broadcast leaves the live subscribers");
    let end = sym::flag("drop");
    let hold = Some(b).filter(|_| !end);
    for (r, early) in &mut kept {
        sym::cover(if *early { "early" } else { "late" });
        if *early {
            sym::check(poll(r.recv()) == Some(Some(v)), "a subscriber receives what was broadcast since it subscribed");
        }
        sym::check(poll(r.recv()) == Some(Some(w)), "a subscriber receives what was broadcast since it subscribed");
        sym::cover_if(hold.is_none(), "closed");
        sym::check(poll(r.recv()) == if hold.is_some() { None } else { Some(None) }, "a subscriber receives nothing else and sees the end");
    }
}
