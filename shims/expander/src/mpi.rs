//! In-process stand-in for rsmpi: every rank is a thread, every collective an all-gather.
use std::cell::Cell;
use std::sync::{Arc, Condvar, Mutex, MutexGuard};
use std::time::Duration;

struct Round {
    slots: Vec<Option<Vec<u8>>>,
    result: Option<Arc<Vec<Vec<u8>>>>,
    left: usize,
    poisoned: bool,
}
pub struct Group {
    members: Vec<usize>,
    /// the world it is part of
    world: usize,
    round: Mutex<Round>,
    cv: Condvar,
}
impl Group {
    fn new(members: Vec<usize>) -> Group {
        let n = members.len();
        Group {
            members,
            world: WORLD.with(|w| w.get()),
            round: Mutex::new(Round { slots: vec![None; n], result: None, left: 0, poisoned: false }),
            cv: Condvar::new(),
        }
    }
    fn wait<'a>(&'a self, mut r: MutexGuard<'a, Round>, blocked: fn(&Round) -> bool) -> MutexGuard<'a, Round> {
        let mut late = false;
        while blocked(&r) {
            if late || r.poisoned {
                r.poisoned = true;
                self.cv.notify_all();
                drop(r);
                panic!("MPI stand-in: collective mismatch (a rank left or is stuck)");
            }
            let (g, t) = self.cv.wait_timeout(r, Duration::from_secs(60)).unwrap();
            r = g;
            late = t.timed_out();
        }
        r
    }
    fn allgather(&self, me: usize, data: Vec<u8>) -> Arc<Vec<Vec<u8>>> {
        let n = self.members.len();
        let mut r = self.round.lock().unwrap();
        r = self.wait(r, |r| r.result.is_some());
        r.slots[me] = Some(data);
        if r.slots.iter().all(|s| s.is_some()) {
            let v: Vec<Vec<u8>> = r.slots.iter_mut().map(|s| s.take().unwrap()).collect();
            r.result = Some(Arc::new(v));
            r.left = n;
            self.cv.notify_all();
        }
        r = self.wait(r, |r| r.result.is_none());
        let out = r.result.clone().unwrap();
        r.left -= 1;
        if r.left == 0 {
            r.result = None;
            self.cv.notify_all();
        }
        out
    }
    fn poison(&self) {
        if let Ok(mut r) = self.round.lock() {
            r.poisoned = true;
        }
        self.cv.notify_all();
    }
}

static GROUPS: Mutex<Vec<Arc<Group>>> = Mutex::new(Vec::new());
static DEAD: Mutex<Vec<usize>> = Mutex::new(Vec::new());
fn register(g: Group) -> usize {
    let mut gs = GROUPS.lock().unwrap();
    if DEAD.lock().unwrap().contains(&g.world) {
        g.poison();
    }
    gs.push(Arc::new(g));
    gs.len() - 1
}
pub(crate) fn group(id: usize) -> Arc<Group> {
    GROUPS.lock().unwrap()[id].clone()
}
thread_local! {
    static RANK: Cell<usize> = const { Cell::new(0) };
    static WORLD: Cell<usize> = const { Cell::new(usize::MAX) };
    static LAST_SPLIT: Cell<Option<usize>> = const { Cell::new(None) };
}
pub(crate) fn take_last_split() -> Option<usize> {
    LAST_SPLIT.with(|c| c.take())
}
pub(crate) fn group_size(id: usize) -> usize {
    group(id).members.len()
}
pub(crate) fn group_rank(id: usize) -> usize {
    let me = RANK.with(|r| r.get());
    group(id).members.iter().position(|&m| m == me).expect("not a member")
}
pub(crate) fn allgather(id: usize, data: Vec<u8>) -> Arc<Vec<Vec<u8>>> {
    let g = group(id);
    let me = group_rank(id);
    g.allgather(me, data)
}

/// Run `f(rank)` on `n` ranks; returns each rank's result, Err for a rank that panicked.
pub fn run_world<T: Send>(
    n: usize,
    f: impl Fn(usize, &'static topology::SimpleCommunicator) -> T + Sync,
) -> Vec<Result<T, String>> {
    static WORLDS: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
    let world = WORLDS.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
    let id = register(Group { world, ..Group::new((0..n).collect()) });
    let comm: &'static topology::SimpleCommunicator =
        Box::leak(Box::new(topology::SimpleCommunicator { id }));
    let f = &f;
    std::thread::scope(|s| {
        let hs: Vec<_> = (0..n)
            .map(|rank| {
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(s, move || {
                        RANK.with(|r| r.set(rank));
                        WORLD.with(|r| r.set(world));
                        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(rank, comm)));
                        r.map_err(|e| {
                            // whoever waits for this rank has to stop as well
                            let gs = GROUPS.lock().unwrap();
                            DEAD.lock().unwrap().push(world);
                            for g in gs[id..].iter().filter(|g| g.world == world) {
                                g.poison();
                            }
                            e.downcast_ref::<String>()
                                .cloned()
                                .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
                                .unwrap_or_else(|| "panic".into())
                        })
                    })
                    .unwrap()
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    })
}

pub mod environment {
    pub struct Universe {
        pub(crate) id: usize,
    }
    impl Universe {
        pub fn world(&self) -> super::topology::SimpleCommunicator {
            super::topology::SimpleCommunicator { id: self.id }
        }
    }
}
pub(crate) fn init() -> Option<environment::Universe> {
    Some(environment::Universe { id: register(Group::new(vec![0])) })
}
pub mod topology {
    pub struct SimpleCommunicator {
        pub(crate) id: usize,
    }
    #[derive(Clone, Copy)]
    pub struct Color(pub i32);
    impl Color {
        pub fn with_value(v: i32) -> Color {
            Color(v)
        }
    }
}
pub mod traits {
    use super::*;
    pub trait Communicator {
        fn split_by_color_with_key(&self, color: topology::Color, key: i32) -> Option<topology::SimpleCommunicator>;
        fn size(&self) -> i32;
        fn rank(&self) -> i32;
    }
    impl Communicator for topology::SimpleCommunicator {
        fn split_by_color_with_key(&self, color: topology::Color, key: i32) -> Option<topology::SimpleCommunicator> {
            let me = group_rank(self.id);
            let g = group(self.id);
            let mut msg = color.0.to_le_bytes().to_vec();
            msg.extend(key.to_le_bytes());
            let all = allgather(self.id, msg);
            let mut mine: Vec<(i32, usize)> = all
                .iter()
                .enumerate()
                .filter(|(_, b)| b[..4] == color.0.to_le_bytes())
                .map(|(i, b)| (i32::from_le_bytes(b[4..8].try_into().unwrap()), i))
                .collect();
            mine.sort();
            let leader = mine[0].1;
            let id_msg = if leader == me {
                register(Group::new(mine.iter().map(|&(_, i)| g.members[i]).collect())).to_le_bytes().to_vec()
            } else {
                vec![0; 8]
            };
            let ids = allgather(self.id, id_msg);
            let id = usize::from_le_bytes(ids[leader][..8].try_into().unwrap());
            LAST_SPLIT.with(|c| c.set(Some(id)));
            Some(topology::SimpleCommunicator { id })
        }
        fn size(&self) -> i32 {
            group_size(self.id) as i32
        }
        fn rank(&self) -> i32 {
            group_rank(self.id) as i32
        }
    }
}
pub mod ffi {
    #[allow(non_camel_case_types)]
    pub struct ompi_win_t {
        pub(crate) _p: u8,
    }
    /// # Safety
    /// nothing to finalize
    #[allow(non_snake_case)]
    pub unsafe fn MPI_Finalize() -> i32 {
        0
    }
}
