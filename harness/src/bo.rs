//! block_on calls with scripted futures.
use crate::prog::{self, Op};
use crate::world::*;
use simrt::{ev, rt};
use std::future::Future;
use std::pin::Pin;
use std::task::{Context, Poll};

#[derive(Clone, Debug)]
pub enum Finish {
    /// ready at the n-th poll (1 = immediately)
    Polls(u32),
    /// ready once the harness says so
    Done,
    /// ready when timer t (of the library) completes
    Timer(usize),
    /// ready when wait s (of the library) completes
    Slot(usize),
}

#[derive(Clone, Debug)]
pub enum BoAct {
    WakeSelf,
    Busy(u64),
    Nested(BoSpec),
    Exec(Op),
}

#[derive(Clone, Debug)]
pub struct BoSpec {
    pub b: usize,
    pub acts: Vec<Vec<BoAct>>,
    pub finish: Finish,
}

struct Fut<'a> {
    spec: &'a BoSpec,
    n: u32,
    fwd: usize,
}

impl Future for Fut<'_> {
    type Output = usize;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<usize> {
        let b = self.spec.b;
        self.n += 1;
        ev!("\"k\":\"bp\",\"b\":{}", b);
        w().b[b].polls += 1;
        w().b[b].waker = Some(cx.waker().clone());
        if self.n > 400 {
            // Endless polling: report what was seen and let go.
            w().exhausted = true;
            ev!("\"k\":\"bpr\",\"b\":{},\"r\":1", b);
            return Poll::Ready(b);
        }
        rt::point();
        if let Some(acts) = self.spec.acts.get(self.n as usize - 1) {
            for a in acts {
                match a {
                    BoAct::WakeSelf => wake_block_on(b, cx.waker().clone()),
                    BoAct::Busy(us) => rt::sleep_us(*us),
                    BoAct::Nested(s) => run(s),
                    BoAct::Exec(op) => prog::exec(op),
                }
            }
        }
        let ready = match &self.spec.finish {
            Finish::Polls(n) => self.n >= *n,
            Finish::Done => w().b[b].done,
            Finish::Timer(_) | Finish::Slot(_) => {
                if w().b[b].done {
                    true
                } else {
                    // Poll a library future with a waker that records and forwards.
                    if self.fwd == 0 {
                        self.fwd = new_wk(WkKind::Plain, vec![]);
                        unsafe {
                            *w().wakers[self.fwd].fwd.get() = Some((b, cx.waker().clone()));
                        }
                    }
                    let keep = prog::WkSpec::keep();
                    match &self.spec.finish {
                        Finish::Timer(t) => {
                            w().t[*t].wk = self.fwd;
                            let had = w().t[*t].t.is_some();
                            prog::exec(&Op::TPoll { t: *t, wk: keep, stream: false });
                            had && !w().t[*t].pending
                        }
                        Finish::Slot(s) => {
                            w().s[*s].wk = self.fwd;
                            prog::exec(&Op::Poll { s: *s, wk: keep });
                            w().s[*s].done
                        }
                        _ => unreachable!(),
                    }
                }
            }
        };
        rt::point();
        ev!("\"k\":\"bpr\",\"b\":{},\"r\":{}", b, ready as u8);
        if ready {
            Poll::Ready(b)
        } else {
            Poll::Pending
        }
    }
}

pub fn run(spec: &BoSpec) {
    let b = spec.b;
    if w().b[b].active || w().b[b].polls > 0 {
        return;
    }
    w().b[b].active = true;
    w().b[b].thread = rt::tid();
    ev!("\"k\":\"bc\",\"b\":{}", b);
    rt::point();
    let v = async_io::block_on(Fut { spec, n: 0, fwd: 0 });
    rt::point();
    w().b[b].active = false;
    ev!("\"k\":\"br\",\"b\":{},\"v\":{}", b, v);
}
