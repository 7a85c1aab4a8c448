//! The control of a service, by way of each of its interfaces: the control itself, the
//! asynchronous one, and the context its handlers get.
use futures::future::BoxFuture;
use std::{
    collections::{HashMap, VecDeque},
    future::Future,
    sync::{
        atomic::{AtomicU64, AtomicUsize, Ordering},
        Arc, Condvar, Mutex,
    },
    task::{Context, Poll, Wake, Waker},
    time::{Duration, Instant},
};
use tentacle::{
    bytes::Bytes,
    context::ServiceContext,
    error::SendErrorKind,
    multiaddr::Multiaddr,
    service::{ServiceAsyncControl, ServiceControl, TargetProtocol, TargetSession},
    ProtocolId, SessionId,
};

pub type Res = Result<(), SendErrorKind>;

pub enum Who<'a> {
    Context(&'a ServiceContext),
    Control(&'a ServiceControl),
}

type Job = Box<dyn FnOnce(Who<'_>) -> Res + Send>;

#[derive(Default)]
struct Cmd {
    job: Mutex<Option<Job>>,
    res: Mutex<Option<Res>>,
    cv: Condvar,
}

/// what the handlers of a node are to do when next polled
#[derive(Default)]
pub struct Cmds {
    q: Mutex<VecDeque<Arc<Cmd>>>,
    wakers: Mutex<HashMap<u64, Waker>>,
    pub done: AtomicUsize,
}

impl Cmds {
    pub fn poll(&self, who: u64, cx: &Context, c: &ServiceContext) {
        {
            let mut w = self.wakers.lock().unwrap();
            match w.get(&who) {
                Some(k) if k.will_wake(cx.waker()) => (),
                _ => {
                    w.insert(who, cx.waker().clone());
                }
            }
        }
        loop {
            let cmd = match self.q.lock().unwrap().pop_front() {
                Some(c) => c,
                None => return,
            };
            let job = cmd.job.lock().unwrap().take();
            if let Some(j) = job {
                let r = j(Who::Context(c));
                self.done.fetch_add(1, Ordering::SeqCst);
                *cmd.res.lock().unwrap() = Some(r);
                cmd.cv.notify_all();
            }
        }
    }
    pub fn gone(&self, who: u64) {
        self.wakers.lock().unwrap().remove(&who);
    }
}

struct Unpark(std::thread::Thread);
impl Wake for Unpark {
    fn wake(self: Arc<Self>) {
        self.0.unpark();
    }
}

fn run(f: impl Future<Output = Res>) -> Res {
    futures::pin_mut!(f);
    let w = Waker::from(Arc::new(Unpark(std::thread::current())));
    let mut cx = Context::from_waker(&w);
    let start = Instant::now();
    loop {
        if let Poll::Ready(r) = f.as_mut().poll(&mut cx) {
            return r;
        }
        vcommon::exec::beat();
        if start.elapsed().as_secs() > 60 {
            return Err(SendErrorKind::WouldBlock);
        }
        std::thread::park_timeout(Duration::from_millis(20));
    }
}

#[derive(Clone)]
pub struct Ctl {
    pub raw: ServiceControl,
    cmds: Arc<Cmds>,
    calls: Arc<AtomicU64>,
    skip: Arc<AtomicU64>,
    seed: u64,
}

#[derive(PartialEq)]
enum Way {
    Control,
    Async,
    Handler,
}

impl Ctl {
    pub fn new(raw: ServiceControl, cmds: Arc<Cmds>, seed: u64) -> Ctl {
        Ctl { raw, cmds, calls: Default::default(), skip: Default::default(), seed }
    }

    fn way(&self) -> Way {
        let k = self.calls.fetch_add(1, Ordering::SeqCst);
        match vcommon::mix(self.seed, k) % 16 {
            0..=8 => Way::Control,
            9..=13 => Way::Async,
            _ if self.skip.load(Ordering::SeqCst) <= k && !self.cmds.wakers.lock().unwrap().is_empty() => Way::Handler,
            _ => Way::Control,
        }
    }

    /// a handler does it when it is polled, or else the caller
    fn by_handler(&self, job: Job) -> Res {
        let cmd = Arc::new(Cmd { job: Mutex::new(Some(job)), ..Cmd::default() });
        self.cmds.q.lock().unwrap().push_back(cmd.clone());
        for w in self.cmds.wakers.lock().unwrap().values() {
            w.wake_by_ref();
        }
        let start = Instant::now();
        let mut g = cmd.res.lock().unwrap();
        loop {
            if let Some(r) = g.take() {
                return r;
            }
            if start.elapsed().as_millis() > 30 {
                if let Some(j) = cmd.job.lock().unwrap().take() {
                    // nobody is polled just now
                    self.skip.store(self.calls.load(Ordering::SeqCst) + 300, Ordering::SeqCst);
                    return j(Who::Control(&self.raw));
                }
            }
            g = cmd.cv.wait_timeout(g, Duration::from_millis(5)).unwrap().0;
        }
    }

    pub fn future_task<T>(&self, task: T) -> Res
    where
        T: Future<Output = ()> + 'static + Send,
    {
        let f: BoxFuture<'static, ()> = Box::pin(task);
        match self.way() {
            Way::Control => self.raw.future_task(f),
            Way::Async => {
                let mut a = ServiceAsyncControl::from(self.raw.clone());
                run(a.future_task(f))
            }
            Way::Handler => self.by_handler(Box::new(move |w| match w {
                Who::Context(c) => c.future_task(f),
                Who::Control(c) => c.future_task(f),
            })),
        }
    }
}

macro_rules! ways {
    ($(fn $name:ident($($a:ident: $t:ty),*);)*) => {
        impl Ctl {
            $(pub fn $name(&self, $($a: $t),*) -> Res {
                match self.way() {
                    Way::Control => self.raw.$name($($a),*),
                    Way::Async => {
                        let mut a = ServiceAsyncControl::from(self.raw.clone());
                        run(a.$name($($a),*))
                    }
                    Way::Handler => self.by_handler(Box::new(move |w| match w {
                        Who::Context(c) => c.$name($($a),*),
                        Who::Control(c) => c.$name($($a),*),
                    })),
                }
            })*
        }
    };
}

ways! {
    fn listen(address: Multiaddr);
    fn dial(address: Multiaddr, target: TargetProtocol);
    fn disconnect(session: SessionId);
    fn send_message_to(session: SessionId, proto: ProtocolId, data: Bytes);
    fn quick_send_message_to(session: SessionId, proto: ProtocolId, data: Bytes);
    fn filter_broadcast(target: TargetSession, proto: ProtocolId, data: Bytes);
    fn quick_filter_broadcast(target: TargetSession, proto: ProtocolId, data: Bytes);
    fn open_protocol(session: SessionId, proto: ProtocolId);
    fn open_protocols(session: SessionId, target: TargetProtocol);
    fn close_protocol(session: SessionId, proto: ProtocolId);
    fn set_service_notify(proto: ProtocolId, interval: Duration, token: u64);
    fn set_session_notify(session: SessionId, proto: ProtocolId, interval: Duration, token: u64);
    fn remove_service_notify(proto: ProtocolId, token: u64);
    fn remove_session_notify(session: SessionId, proto: ProtocolId, token: u64);
    fn close();
    fn shutdown();
}
