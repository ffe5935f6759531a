//! A controlled scheduler: runs each virtual thread on its own OS thread, but only one at a time;
//! at every yield point the explorer decides who continues.
use crate::Ctx;
use std::cell::RefCell;
use std::sync::{Arc, Condvar, Mutex};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum St {
    Ready,
    Done,
}

struct Inner {
    turn: Option<usize>,
    st: Vec<St>,
    arrived: bool,
}

pub struct Baton {
    m: Mutex<Inner>,
    cv: Condvar,
}

thread_local! {
    static ME: RefCell<Option<(Arc<Baton>, usize)>> = const { RefCell::new(None) };
}

/// A scheduling point. A no-op outside of a scheduled thread.
pub fn point() {
    let me = ME.with(|m| m.borrow().clone());
    if let Some((b, id)) = me {
        let mut g = b.m.lock().unwrap();
        g.turn = None;
        g.arrived = true;
        b.cv.notify_all();
        while g.turn != Some(id) {
            g = b.cv.wait(g).unwrap();
        }
    }
}

/// Runs the bodies under every schedule `cx` chooses; switching away from a thread that could go
/// on is a deviation (preemption). Returns each body's result (panics as `Err`) and the schedule.
pub fn run<T: Send>(cx: &mut Ctx, bodies: Vec<Box<dyn FnOnce() -> T + Send + '_>>) -> (Vec<Result<T, String>>, Vec<usize>) {
    let n = bodies.len();
    let baton = Arc::new(Baton { m: Mutex::new(Inner { turn: None, st: vec![St::Ready; n], arrived: true }), cv: Condvar::new() });
    let results: Vec<Mutex<Option<Result<T, String>>>> = (0..n).map(|_| Mutex::new(None)).collect();
    let mut schedule = Vec::new();
    std::thread::scope(|s| {
        for (id, body) in bodies.into_iter().enumerate() {
            let (b, slot) = (baton.clone(), &results[id]);
            s.spawn(move || {
                {
                    let mut g = b.m.lock().unwrap();
                    while g.turn != Some(id) {
                        g = b.cv.wait(g).unwrap();
                    }
                }
                ME.with(|m| *m.borrow_mut() = Some((b.clone(), id)));
                let r = crate::catch(body);
                ME.with(|m| *m.borrow_mut() = None);
                *slot.lock().unwrap() = Some(r);
                let mut g = b.m.lock().unwrap();
                g.st[id] = St::Done;
                g.turn = None;
                g.arrived = true;
                b.cv.notify_all();
            });
        }
        let mut cur: Option<usize> = None;
        loop {
            let enabled: Vec<usize> = {
                let mut g = baton.m.lock().unwrap();
                while !g.arrived {
                    g = baton.cv.wait(g).unwrap();
                }
                (0..n).filter(|&i| g.st[i] == St::Ready).collect()
            };
            if enabled.is_empty() {
                break;
            }
            let next = match cur {
                Some(c) if enabled.contains(&c) => {
                    // Running thread first, then the others in ascending order.
                    let mut order = vec![c];
                    order.extend(enabled.iter().copied().filter(|&i| i != c));
                    order[cx.dev(order.len())]
                }
                _ => enabled[cx.pick(enabled.len())],
            };
            schedule.push(next);
            cur = Some(next);
            let mut g = baton.m.lock().unwrap();
            g.arrived = false;
            g.turn = Some(next);
            baton.cv.notify_all();
        }
    });
    (results.into_iter().map(|r| r.into_inner().unwrap().unwrap()).collect(), schedule)
}
