//! Z06: what clients and prover processes hand to each other arrives unchanged.
//! Whole sessions go through the client's own calls; `mpiexec` is a stub that notes its arguments,
//! the server's ranks are threads, HTTP requests are handed to the root's own handler.
use crate::hist::Sf;
use crate::sys::*;
use crate::*;
use ::axum::{extract::State, Json};
use arith::SimdField;
use clap::Parser;
use expander_compiler::circuit::layered::NormalInputType;
use expander_compiler::zkcuda::context::ProofTemplate;
use expander_compiler::zkcuda::kernel::{Kernel, LayeredCircuitInputVec};
use expander_compiler::zkcuda::proving_system::expander::setup_impl::local_setup_impl;
use expander_compiler::zkcuda::proving_system::expander::structs::ExpanderProof;
use expander_compiler::zkcuda::proving_system::expander_parallelized::client_utils::{wait_async, ClientHttpHelper};
use expander_compiler::zkcuda::proving_system::expander_parallelized::server_ctrl::*;
use expander_compiler::zkcuda::proving_system::expander_parallelized::server_fns::{broadcast_string, ServerFns};
use expander_compiler::zkcuda::proving_system::expander_parallelized::shared_memory_utils::{SharedMemoryEngine, SHARED_MEMORY};
use expander_compiler::zkcuda::shape::BitOrder;
use gkr_engine::{window, MPIConfig, MPIEngine, MPISharedMemory};
use shared_memory::ShmemConf;
use std::collections::HashMap;
use std::sync::mpsc::{channel, Receiver, Sender};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};
use tokio::sync::{oneshot, Mutex as TMutex};

fn graph_diff<C: Config>(a: &ComputationGraph<C>, b: &ComputationGraph<C>) -> Option<String> {
    if a.commitments_lens != b.commitments_lens {
        return Some(format!("commitment lengths {:?}, not {:?}", b.commitments_lens, a.commitments_lens));
    }
    if a.kernels.len() != b.kernels.len() || a.proof_templates.len() != b.proof_templates.len() {
        return Some("another number of kernels or templates".into());
    }
    for (i, (x, y)) in a.proof_templates.iter().zip(&b.proof_templates).enumerate() {
        if x != y {
            return Some(format!("template {i} is {y:?}, not {x:?}"));
        }
    }
    for (i, (x, y)) in a.kernels.iter().zip(&b.kernels).enumerate() {
        if x.layered_circuit != y.layered_circuit {
            return Some(format!("the circuit of kernel {i} differs"));
        }
        if x.layered_circuit_input != y.layered_circuit_input {
            return Some(format!("the inputs of kernel {i} are {:?}, not {:?}", y.layered_circuit_input, x.layered_circuit_input));
        }
    }
    None
}
fn keys<K: ExpSerde>(m: &HashMap<usize, K>) -> Vec<(usize, Vec<u8>)> {
    let mut v: Vec<_> = m.iter().map(|(k, x)| (*k, bytes(x))).collect();
    v.sort();
    v
}
fn same_setup<C: Config>(a: &(Pk<C>, Vk<C>), b: &(Pk<C>, Vk<C>)) -> bool {
    keys(&a.0.p_keys) == keys(&b.0.p_keys) && keys(&a.1.v_keys) == keys(&b.1.v_keys)
}
fn forget_regions() {
    unsafe {
        #[allow(static_mut_refs)]
        {
            SHARED_MEMORY.pcs_setup = None;
            SHARED_MEMORY.witness = None;
            SHARED_MEMORY.proof = None;
            SHARED_MEMORY.witness_ack = None;
        }
    }
}

// ---- sessions
enum ToRoot {
    Request(RequestType, Sender<Result<(), String>>),
}
struct Remote<C: Config> {
    scratch: std::path::PathBuf,
    start: Box<dyn Fn(usize, Receiver<ToRoot>, Arc<Mutex<Ranks<C>>>) -> std::thread::JoinHandle<Vec<String>> + Send + Sync>,
    run: Mutex<Running>,
    ranks: Arc<Mutex<Ranks<C>>>,
    log: Mutex<Vec<String>>,
}
#[derive(Default)]
struct Running {
    args: Vec<String>,
    to_root: Option<Sender<ToRoot>>,
    thread: Option<std::thread::JoinHandle<Vec<String>>>,
}
type Shared<T> = Arc<TMutex<T>>;
struct Rank<C: Config> {
    graph: Shared<ComputationGraph<C>>,
    witness: Shared<Vec<Vec<Sf<C>>>>,
    setup: Option<(Shared<Pk<C>>, Shared<Vk<C>>)>,
}
type Ranks<C> = Vec<Option<Rank<C>>>;

impl<C: Config> ::reqwest::Http for Remote<C> {
    fn body(&self, b: &dyn std::any::Any) -> String {
        serde_json::to_string(b.downcast_ref::<RequestType>().expect("a request")).unwrap()
    }
    fn call(&self, method: &'static str, _url: &str, body: Option<String>) -> Result<bool, String> {
        let to_root = {
            let mut run = self.run.lock().unwrap();
            if run.to_root.is_none() {
                // wait for mpiexec
                let done = self.scratch.join("done");
                let t = Instant::now();
                while !done.exists() {
                    if t.elapsed() > Duration::from_secs(20) {
                        // no server to wait for
                        panic!("nobody started a server");
                    }
                    std::thread::sleep(Duration::from_micros(200));
                }
                let a = std::fs::read_to_string(self.scratch.join("args")).unwrap();
                run.args = a.lines().map(|x| x.to_string()).collect();
                let n = run.args.iter().position(|x| x == "-n").and_then(|i| run.args.get(i + 1)).and_then(|x| x.parse().ok());
                let n: usize = n.expect("mpiexec without -n");
                let (tx, rx) = channel();
                run.thread = Some((self.start)(n, rx, self.ranks.clone()));
                run.to_root = Some(tx);
            }
            run.to_root.clone().unwrap()
        };
        if method == "GET" {
            return Ok(true);
        }
        let req: RequestType = serde_json::from_str(&body.expect("a body")).map_err(|e| e.to_string())?;
        let file = match &req {
            RequestType::Setup(f) => Some(f.clone()),
            _ => None,
        };
        let proving = matches!(req, RequestType::Prove);
        let (tx, rx) = channel();
        let stop = Arc::new(std::sync::atomic::AtomicBool::new(false));
        if proving {
            // once the witness counts as read, its memory belongs to the client again
            let stop = stop.clone();
            if let (Ok(ack), Ok(w)) = (ShmemConf::new().flink("witness_ack").open(), ShmemConf::new().flink("witness").open()) {
                std::thread::spawn(move || unsafe {
                    let (ack, w) = (ack, w);
                    while std::ptr::read_volatile(ack.as_ptr()) == 0 {
                        if stop.load(std::sync::atomic::Ordering::SeqCst) {
                            return;
                        }
                        std::hint::spin_loop();
                    }
                    std::ptr::write_bytes(w.as_ptr(), 0, w.len());
                });
            }
        }
        let r = if to_root.send(ToRoot::Request(req, tx)).is_err() { Err("the server is gone".to_string()) } else { rx.recv().unwrap_or_else(|_| Err("the root is gone".into())) };
        stop.store(true, std::sync::atomic::Ordering::SeqCst);
        if let Some(f) = file {
            // only ever the file of this session
            let f = std::path::Path::new(&f);
            if f.file_name().is_some_and(|n| n.to_string_lossy().starts_with("computation_graph_") || f.starts_with(&self.scratch)) {
                let _ = std::fs::remove_file(f);
            }
        }
        if proving {
            if let Ok(ack) = ShmemConf::new().flink("witness_ack").open() {
                let set = unsafe { std::ptr::read_volatile(ack.as_ptr()) } != 0;
                if !set {
                    self.log.lock().unwrap().push("the client is never told that its witness was read".into());
                    unsafe { std::ptr::write_volatile(ack.as_ptr(), 1) };
                }
            }
        }
        match r {
            Ok(()) => Ok(true),
            Err(e) => {
                self.log.lock().unwrap().push(e.clone());
                Err(e)
            }
        }
    }
}

fn serve_world<C: Sys, S: ServerFns<C, C> + 'static>(n: usize, rx: Receiver<ToRoot>, ranks: Arc<Mutex<Ranks<C>>>) -> std::thread::JoinHandle<Vec<String>> {
    std::thread::spawn(move || {
        ranks.lock().unwrap().resize_with(n, || None);
        let rx = Mutex::new(rx);
        let rs = gkr_engine::mpi::run_world(n, |rank, comm| {
            let m = MPIConfig::prover_new(None, Some(comm));
            let state = ServerState::<C, C> {
                lock: Arc::new(TMutex::new(())),
                global_mpi_config: m.clone(),
                local_mpi_config: None,
                prover_setup: Arc::new(TMutex::new(Default::default())),
                verifier_setup: Arc::new(TMutex::new(Default::default())),
                computation_graph: Arc::new(TMutex::new(Default::default())),
                witness: Arc::new(TMutex::new(vec![])),
                cg_shared_memory_win: Arc::new(TMutex::new(None)),
                wt_shared_memory_win: Arc::new(TMutex::new(None)),
                shutdown_tx: Arc::new(TMutex::new(None)),
            };
            // whatever goes wrong, what lies in the windows is not to be dropped
            std::mem::forget(state.clone());
            ranks.lock().unwrap()[rank] = Some(Rank {
                graph: state.computation_graph.clone(),
                witness: state.witness.clone(),
                setup: (rank == 0).then(|| (state.prover_setup.clone(), state.verifier_setup.clone())),
            });
            let rt = tokio::runtime::Builder::new_current_thread().build().unwrap();
            m.barrier();
            if rank == 0 {
                let rx = rx.lock().unwrap();
                let (tx, mut down) = oneshot::channel();
                rt.block_on(state.shutdown_tx.lock()).replace(tx);
                while let Ok(ToRoot::Request(req, reply)) = rx.recv() {
                    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| rt.block_on(root_main::<C, C, S>(State(state.clone()), Json(req))).0));
                    match r {
                        Ok(true) => {
                            let _ = reply.send(Ok(()));
                        }
                        Ok(false) => {
                            let _ = reply.send(Err("the server says no".into()));
                        }
                        Err(e) => {
                            let s = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                            let _ = reply.send(Err(format!("the server panicked: {s}")));
                            panic!("{s}");
                        }
                    }
                    if down.try_recv().is_ok() {
                        break;
                    }
                }
            } else {
                rt.block_on(worker_main::<C, C, S>(m.clone(), state.clone()));
            }
            let graph = std::mem::take(&mut *rt.block_on(state.computation_graph.lock()));
            let witness = std::mem::take(&mut *rt.block_on(state.witness.lock()));
            let mut a = rt.block_on(state.cg_shared_memory_win.lock()).take();
            let mut b = rt.block_on(state.wt_shared_memory_win.lock()).take();
            S::shared_memory_clean_up(&m, graph, witness, &mut a, &mut b);
        });
        let mut e: Vec<String> = rs.into_iter().enumerate().filter_map(|(i, r)| r.err().map(|e| format!("rank {i}: {e}"))).collect();
        e.sort_by_key(|e| e.contains("MPI stand-in"));
        e
    })
}

pub fn session<C: Sys, S>(g: &mut Gen, ctx: &mut Ctx, kind: Kind) -> Result<(), String>
where
    S: ServerFns<C, C> + ProvingSystem<C, ProverSetup = Pk<C>, VerifierSetup = Vk<C>, Proof = Pr<C>> + 'static,
{
    let mut pool: Vec<Made<C>> = vec![];
    for _ in 0..1 + g.below(3) {
        if let Some(m) = made::<C>(g, ctx)? {
            if !m.cg.proof_templates().is_empty() {
                pool.push(m);
            }
        }
    }
    if pool.is_empty() {
        ctx.tag("nothing to prove");
        return Ok(());
    }
    let cpus = 1 + g.below(8);
    let first = g.below(pool.len());
    // what else is asked of the same server
    let plan: Vec<Option<usize>> = (0..1 + g.below(5)).map(|_| if g.chance(1, 3) { Some(g.below(pool.len())) } else { None }).collect();
    ctx.describe(|| {
        let p: Vec<String> = plan.iter().map(|x| x.map_or("prove".into(), |i| format!("setup {i}"))).collect();
        let t: Vec<String> = pool.iter().enumerate().map(|(i, m)| format!("graph {i}:\n{}", m.t.describe())).collect();
        format!("{kind:?}, {cpus} cpus: setup {first}, {}\n{}", p.join(", "), t.join("\n"))
    });
    ctx.tag(format!("{kind:?}"));
    ctx.tag(format!("field {}", field_bits::<C>()));

    static ONE: Mutex<usize> = Mutex::new(0);
    let mut one = ONE.lock().unwrap_or_else(|e| e.into_inner());
    *one += 1;
    let scratch = std::env::temp_dir().join(format!("z06-{}-{}", std::process::id(), *one));
    std::fs::create_dir_all(&scratch).unwrap();
    let stub = scratch.join("mpiexec");
    std::fs::write(&stub, format!("#!/bin/sh\nprintf '%s\\n' \"$@\" > '{0}/args'\n: > '{0}/done'\n", scratch.display())).unwrap();
    use std::os::unix::fs::PermissionsExt;
    std::fs::set_permissions(&stub, std::fs::Permissions::from_mode(0o755)).unwrap();
    std::env::set_var("PATH", &scratch);
    std::env::set_var("ZKML_NUM_CPUS", cpus.to_string());
    forget_regions();
    let remote = Arc::new(Remote::<C> { scratch: scratch.clone(), start: Box::new(serve_world::<C, S>), run: Default::default(), ranks: Default::default(), log: Default::default() });
    ::reqwest::answer_http(Some(remote.clone()));
    let mut r = guarded(|| conduct::<C, S>(&pool, first, &plan, kind, &remote, ctx)).unwrap_or_else(|e| Err(format!("the client panicked: {e}")));
    ::reqwest::answer_http(None);
    let mut run = std::mem::take(&mut *remote.run.lock().unwrap());
    drop(run.to_root.take());
    if let Some(t) = run.thread.take() {
        let errs = t.join().unwrap_or_else(|_| vec!["the server's threads panicked".into()]);
        if !errs.is_empty() {
            let own = remote.log.lock().unwrap().join("; ");
            r = Err(format!("{}{}{}", r.err().map(|e| e + "; ").unwrap_or_default(), if own.is_empty() { own } else { own + "; " }, errs.join("; ")));
        }
    }
    forget_regions();
    let _ = std::fs::remove_dir_all(&scratch);
    let log = remote.log.lock().unwrap();
    r.and(if log.is_empty() { Ok(()) } else { Err(log.join("; ")) })
}
fn expected_setup<C: Sys>(kind: Kind, cg: &ComputationGraph<C>) -> (Pk<C>, Vk<C>) {
    Which { kind, world: 1 }.setup::<C>(cg)
}
fn every_rank<C: Config>(remote: &Remote<C>, mut f: impl FnMut(usize, &Rank<C>) -> Result<(), String>) -> Result<(), String> {
    let rs = remote.ranks.lock().unwrap();
    for (i, r) in rs.iter().enumerate() {
        f(i, r.as_ref().ok_or("a rank is missing")?).map_err(|e| format!("rank {i}: {e}"))?;
    }
    Ok(())
}
fn conduct<C: Sys, S>(pool: &[Made<C>], first: usize, plan: &[Option<usize>], kind: Kind, remote: &Remote<C>, ctx: &mut Ctx) -> Result<(), String>
where
    S: ServerFns<C, C> + ProvingSystem<C, ProverSetup = Pk<C>, VerifierSetup = Vk<C>, Proof = Pr<C>> + 'static,
{
    let failed = |what: &str, e: String| {
        let l = remote.log.lock().unwrap();
        Err(format!("{what}: {}", if l.is_empty() { e } else { l.join("; ") }))
    };
    let mut now = first;
    let (ps, mut vs) = match guarded(|| S::setup(&pool[now].cg)) {
        Ok(x) => x,
        Err(e) => return failed("setup", e),
    };
    let args = remote.run.lock().unwrap().args.clone();
    let n: usize = remote.ranks.lock().unwrap().len();
    let opts = ExpanderExecArgs::try_parse_from(std::iter::once("server".to_string()).chain(args.iter().position(|a| a == "--field-type").into_iter().flat_map(|i| args[i..].to_vec())));
    let opts = opts.map_err(|e| format!("the server cannot read its arguments {args:?}: {e}"))?;
    if opts.field_type != C::FIELD_NAME {
        return Err(format!("the server is told to work with {}, not {}", opts.field_type, C::FIELD_NAME));
    }
    if matches!(kind, Kind::NoOver(b) if b != opts.batch_pcs) {
        return Err(format!("the server is told the wrong kind of proof: {args:?}"));
    }
    check_setup(pool, now, kind, remote, &vs)?;
    let mut proved = 0;
    for step in plan {
        match step {
            Some(i) => {
                if !matches!(kind, Kind::NoOver(_)) && most_parallel(&pool[*i].cg) > n {
                    continue;
                }
                ctx.tag("another setup");
                let f = remote.scratch.join(format!("graph-{i}"));
                std::fs::write(&f, bytes(&pool[*i].cg)).unwrap();
                if let Err(e) = guarded(|| wait_async(ClientHttpHelper::request_setup(f.to_str().unwrap()))) {
                    return failed("another setup", e);
                }
                vs = match guarded(SharedMemoryEngine::read_pcs_setup_from_shared_memory::<Fc<C>, Pcs<C>>) {
                    Ok(x) => x.1,
                    Err(e) => return failed("reading another setup", e),
                };
                now = *i;
                check_setup(pool, now, kind, remote, &vs)?;
            }
            None => {
                let m = &pool[now];
                if m.t.holds.contains(&false) || permuted(&m.cg) {
                    ctx.tag("nothing true to prove");
                    continue;
                }
                let p = match guarded(|| S::prove(&ps, &m.cg, m.mem.clone())) {
                    Ok(p) => p,
                    Err(e) => return failed("proving", e),
                };
                every_rank(remote, |_, r| {
                    let w = r.witness.blocking_lock();
                    if *w != m.mem {
                        return Err(format!("another witness: lengths {:?}, not {:?}", w.iter().map(|x| x.len()).collect::<Vec<_>>(), m.mem.iter().map(|x| x.len()).collect::<Vec<_>>()));
                    }
                    let d = graph_diff(&m.cg, &r.graph.blocking_lock());
                    d.map_or(Ok(()), |d| Err(format!("graph while proving: {d}")))
                })?;
                let s = Which { kind, world: n };
                let direct = s.prove::<C>(&expected_setup(kind, &m.cg).0, &m.cg, &m.mem).map_err(|e| format!("proving without a client: {e}"))?;
                if bytes(&direct) != bytes(&p) {
                    return Err("the client reads another proof than the servers made".into());
                }
                match guarded(|| S::verify(&vs, &m.cg, &p)) {
                    Ok(true) => {}
                    x => return Err(format!("verifying the received proof with the received keys: {x:?}")),
                }
                proved += 1;
            }
        }
    }
    ctx.tag(format!("ranks {n}"));
    ctx.nontrivial(n > 1 && proved > 0);
    if let Err(e) = guarded(<S as ProvingSystem<C>>::post_process) {
        return failed("shutting down", e);
    }
    Ok(())
}
fn check_setup<C: Sys>(pool: &[Made<C>], now: usize, kind: Kind, remote: &Remote<C>, vs: &Vk<C>) -> Result<(), String> {
    let cg = &pool[now].cg;
    let e = expected_setup(kind, cg);
    if keys(&vs.v_keys) != keys(&e.1.v_keys) {
        return Err(format!("the client reads keys for {:?}, not {:?}", vs.v_keys.keys(), e.1.v_keys.keys()));
    }
    every_rank(remote, |_, r| {
        if let Some(s) = &r.setup {
            if !same_setup::<C>(&e, &(s.0.blocking_lock().clone(), s.1.blocking_lock().clone())) {
                return Err("the server keeps other keys".into());
            }
        }
        graph_diff(cg, &r.graph.blocking_lock()).map_or(Ok(()), |d| Err(format!("graph: {d}")))
    })
}

// ---- single structures
fn any_graph<C: Config>(g: &mut Gen) -> ComputationGraph<C> {
    let num = |g: &mut Gen| match g.below(4) {
        0 => 0,
        1 => g.below(10),
        2 => 1 << g.below(20),
        _ => g.u64() as usize,
    };
    let nums = |g: &mut Gen| (0..g.small(8)).map(|_| num(g)).collect::<Vec<_>>();
    let o = ecgen::lcgen::LcOpts { max_layers: 4, max_log: 4, random: true, public: true, custom: false, common: g.bool(), any_coef: true };
    ComputationGraph {
        kernels: (0..g.small(4))
            .map(|_| Kernel {
                hint_solver: None,
                layered_circuit: ecgen::lcgen::gen::<C, NormalInputType>(g, &o),
                layered_circuit_input: (0..g.small(5)).map(|_| LayeredCircuitInputVec { len: num(g), offset: num(g) }).collect(),
            })
            .collect(),
        commitments_lens: nums(g),
        proof_templates: (0..g.small(5))
            .map(|_| ProofTemplate {
                kernel_id: num(g),
                commitment_indices: nums(g),
                commitment_bit_orders: (0..g.small(4)).map(|_| nums(g)).collect::<Vec<BitOrder>>(),
                parallel_count: num(g),
                is_broadcast: (0..g.small(5)).map(|_| g.bool()).collect(),
            })
            .collect(),
    }
}
fn structures<C: Sys>(g: &mut Gen, ctx: &mut Ctx) -> Result<(), String> {
    enum Op<C: Sys> {
        Graph(ComputationGraph<C>),
        Word(String),
        Witness(Vec<Vec<Sf<C>>>),
        Setup(Vec<usize>),
        Proof(Vec<Vec<u8>>, Vec<usize>),
    }
    let n = 1 + g.below(5);
    let ops: Vec<Op<C>> = (0..1 + g.small(6))
        .map(|_| match g.below(6) {
            0 | 1 => Op::Graph(any_graph::<C>(g)),
            2 => Op::Word((0..g.small(40)).map(|_| *g.pick(&['a', '/', ' ', 'é', '界', '\n', '\0'])).collect()),
            3 => Op::Witness((0..g.small(5)).map(|_| (0..g.small(20)).map(|_| Sf::<C>::pack(&(0..Sf::<C>::PACK_SIZE).map(|_| fe::<C>(g)).collect::<Vec<_>>())).collect()).collect()),
            4 => Op::Setup((0..g.small(5)).map(|_| 1 << g.below(6)).collect()),
            _ => Op::Proof((0..g.small(4)).map(|_| (0..g.small(60)).map(|_| g.below(256) as u8).collect()).collect(), (0..g.small(3)).map(|_| 1usize << g.below(4)).collect()),
        })
        .collect();
    ctx.describe(|| {
        let o: Vec<String> = ops
            .iter()
            .map(|o| match o {
                Op::Graph(x) => format!("graph {x:?}"),
                Op::Word(w) => format!("string {w:?}"),
                Op::Witness(w) => format!("witness {w:?}"),
                Op::Setup(s) => format!("keys for {s:?}"),
                Op::Proof(p, c) => format!("proof {p:?} with commitments {c:?}"),
            })
            .collect();
        format!("{n} ranks\n{}", o.join("\n"))
    });
    ctx.tag("structures");
    ctx.tag(format!("ranks {n}"));
    ctx.tag(format!("field {}", field_bits::<C>()));
    ctx.nontrivial(n > 1 && ops.len() > 1);
    static ONE: Mutex<()> = Mutex::new(());
    let _one = ONE.lock().unwrap_or_else(|e| e.into_inner());
    forget_regions();
    let before = window::count();
    let rs = gkr_engine::mpi::run_world(n, |rank, comm| -> Result<(), String> {
        let m = MPIConfig::prover_new(None, Some(comm));
        let root = rank == 0;
        for (k, o) in ops.iter().enumerate() {
            let bad = |e: String| Err(format!("operation {k}, rank {rank}: {e}"));
            m.barrier();
            match o {
                Op::Graph(x) => {
                    let (y, mut w) = m.consume_obj_and_create_shared(root.then(|| x.clone()));
                    let d = graph_diff(x, &y);
                    y.discard_control_of_shared_mem();
                    if let Some(d) = d {
                        return bad(d);
                    }
                    m.free_shared_mem(&mut w);
                }
                Op::Word(w) => {
                    let s = broadcast_string(&m, root.then(|| w.clone()));
                    if s != *w {
                        return bad(format!("{s:?}, not {w:?}"));
                    }
                }
                Op::Witness(w) => {
                    if root {
                        SharedMemoryEngine::reset_witness_ack();
                        SharedMemoryEngine::write_witness_to_shared_memory::<Fc<C>>(w.clone());
                        let r = SharedMemoryEngine::read_witness_from_shared_memory::<Fc<C>>();
                        if r != *w {
                            return bad(format!("witness {r:?}"));
                        }
                    }
                    let (r, mut win) = SharedMemoryEngine::read_shared_witness_from_shared_memory::<Fc<C>>(&m);
                    let ok = r == *w;
                    let text = format!("shared witness {r:?}");
                    r.into_iter().for_each(|v| v.discard_control_of_shared_mem());
                    if !ok {
                        return bad(text);
                    }
                    m.free_shared_mem(&mut win.win);
                    if root {
                        SharedMemoryEngine::signal_witness_read_complete();
                        SharedMemoryEngine::wait_for_witness_read_complete();
                    }
                }
                Op::Setup(lens) if root => {
                    let cg = ComputationGraph::<C> { commitments_lens: lens.clone(), ..Default::default() };
                    let s = expected_keys::<C>(&cg);
                    SharedMemoryEngine::write_pcs_setup_to_shared_memory(&s);
                    let r = SharedMemoryEngine::read_pcs_setup_from_shared_memory::<Fc<C>, Pcs<C>>();
                    if !same_setup::<C>(&s, &r) {
                        return bad("other keys".into());
                    }
                }
                Op::Proof(p, cs) if root => {
                    let cg = ComputationGraph::<C> { commitments_lens: cs.clone(), ..Default::default() };
                    let pk = expected_keys::<C>(&cg).0;
                    let proof: Pr<C> = CombinedProof {
                        commitments: cs.iter().map(|&l| <Expander<C> as KernelWiseProvingSystem<C>>::commit(&pk, &vec![Sf::<C>::from(l as u32); l]).0).collect(),
                        proofs: p.iter().map(|b| ExpanderProof { data: vec![gkr_engine::Proof { bytes: b.clone() }; b.len() % 3] }).collect(),
                    };
                    SharedMemoryEngine::write_proof_to_shared_memory::<C, C>(&proof);
                    let r = SharedMemoryEngine::read_proof_from_shared_memory::<C, C>();
                    if bytes(&r) != bytes(&proof) {
                        return bad("another proof".into());
                    }
                }
                _ => {}
            }
        }
        Ok(())
    });
    forget_regions();
    let mut errs: Vec<String> = rs.into_iter().enumerate().filter_map(|(i, r)| r.unwrap_or_else(|e| Err(format!("rank {i}: {e}"))).err()).collect();
    errs.sort_by_key(|e| e.contains("MPI stand-in"));
    if errs.is_empty() && window::count() != before {
        return Err("windows left open".into());
    }
    errs.into_iter().next().map_or(Ok(()), Err)
}
fn expected_keys<C: Sys>(cg: &ComputationGraph<C>) -> (Pk<C>, Vk<C>) {
    local_setup_impl::<C, C>(cg)
}

fn z06_f<C: Sys>(g: &mut Gen, ctx: &mut Ctx) -> Result<(), String> {
    if g.bool() {
        return structures::<C>(g, ctx);
    }
    let no = C::NO_OVER as usize * 2;
    let kind = match g.weighted(&[3, 3, no, no]) {
        0 => Kind::Parallel,
        1 => Kind::Deferred,
        2 => Kind::NoOver(false),
        _ => Kind::NoOver(true),
    };
    C::served(g, ctx, kind)
}
pub fn z06(g: &mut Gen, ctx: &mut Ctx) -> Result<(), String> {
    per_field!(g, z06_f, g, ctx)
}
/// Servers are started and left to themselves.
pub fn no_zombies() {
    extern "C" {
        fn signal(n: i32, h: usize) -> usize;
    }
    if std::env::args().any(|a| a == "--worker" || a == "--single") {
        unsafe { signal(17, 1) };
    }
}
