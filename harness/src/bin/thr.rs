//! C22: values used by several threads at once, and in histories of unrelated calls.
//!
//! Every task (an operation, query or traversal on shared values) is first done alone, by one
//! thread; then several threads do the same tasks on the very same values in different orders,
//! while each completion takes a ticket. The recorded log (ticket, thread, task, outcome) is
//! checked offline: every outcome has to be the one observed alone. Miri's and ThreadSanitizer's
//! race detectors watch the same executions.

use rangetools::{BoundedRangeIter, BoundedSet, BoundedSetIter, LowerBoundedSetIter, Rangetools};
use rtmon::dynv::*;
use rtmon::elem::*;
use rtmon::gen::*;
use rtmon::runner::*;
use rtmon::watch;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Barrier;

fn main() {
    rtmon::runner::main(&[Prop {
        id: "C22",
        quick: 100_000,
        thorough: 20_000_000,
        case: c22,
        small_stack: false, compared: false,
        rule: "a pool of values of all types and half-consumed iterators, shared by 2 to 4 threads; tasks (operations, queries, traversals, comparisons, iterators moved to the thread) done alone first, then by all threads at once, each in its own order, then alone again; outcomes compared. Non-trivial: tasks of different threads interleaved. Distinct: pool, tasks and order of completion.",
    }]);
}

#[derive(Clone, Debug, PartialEq)]
enum Seen<T> {
    Value(Dyn<T>),
    Truth(bool),
    List(Vec<T>),
    Panic,
}
#[derive(Clone, Copy, Debug)]
enum Task<T> {
    Union(usize, usize),
    Intersection(usize, usize),
    Complement(usize),
    Disjoint(usize, usize),
    Has(usize, T),
    Empty(usize),
    Equal(usize, usize),
    Walk(usize),
    Go(usize, usize),
}

/// Iterators that wait in some state, to be continued by whichever thread.
enum Paused<T: SElem> {
    S(BoundedSetIter<T>),
    R(BoundedRangeIter<T>),
    L(LowerBoundedSetIter<T>),
}

struct World<T: SElem> {
    pool: Vec<Dyn<T>>,
    iters: Vec<Paused<T>>,
}

fn perform<T: SElem>(w: &World<T>, t: Task<T>) -> Seen<T> {
    let p = &w.pool;
    let r = attempt(|| match t {
        Task::Union(i, j) => Seen::Value(p[i].clone().union(p[j].clone())),
        Task::Intersection(i, j) => Seen::Value(p[i].clone().intersection(p[j].clone())),
        Task::Complement(i) => Seen::Value(p[i].clone().complement()),
        Task::Disjoint(i, j) => Seen::Truth(p[i].clone().disjoint(p[j].clone())),
        Task::Has(i, x) => Seen::Truth(p[i].has(x)),
        Task::Empty(i) => Seen::Truth(p[i].is_empty()),
        Task::Equal(i, j) => Seen::Truth(p[i] == p[j]),
        Task::Walk(i) => Seen::List(T::walk(&p[i], 10).unwrap_or_default()),
        Task::Go(i, n) => Seen::List(match &w.iters[i] {
            Paused::S(it) => {
                let mut it = it.clone();
                let mut v: Vec<T> = it.by_ref().take(n).collect();
                v.extend(it.next_back());
                v.extend(it.nth(1));
                v
            }
            Paused::R(it) => {
                let mut it = it.clone();
                let mut v: Vec<T> = it.by_ref().take(n).collect();
                v.extend(it.next_back());
                v.extend(it.nth(1));
                v
            }
            Paused::L(it) => {
                let mut it = it.clone();
                let mut v: Vec<T> = it.by_ref().take(n).collect();
                v.extend(it.nth(1));
                v
            }
        }),
    });
    r.unwrap_or(Seen::Panic)
}

fn c22(cx: &mut Ctx) -> Verdict {
    match cx.case % 4 {
        0 => c22_t::<u8>(cx),
        1 => c22_t::<i64>(cx),
        2 => c22_t::<char>(cx),
        _ => c22_t::<Tri>(cx),
    }
}
fn c22_t<T: SElem>(cx: &mut Ctx) -> Verdict {
    let small = cfg!(miri);
    // whatever panics while values are made is another property's business
    cx.setup = true;
    let k = if small { 3 + cx.rng.below(6) } else { 3 + cx.rng.below(24) } as usize;
    let land = Land::<T>::new(&mut cx.rng, k);
    let mut w = World { pool: vec![], iters: vec![] };
    for _ in 0..(if small { 3 } else { 3 + cx.rng.below(4) }) {
        let kind = cx.rng.below(15) as usize;
        let (d, _) = operand(&mut cx.rng, &land, kind);
        cx.log(|| format!("value {d:?}"));
        cx.sig(&d);
        w.pool.push(d);
    }
    for _ in 0..2 {
        let r = brange(&mut cx.rng, &land);
        let s = pieces(&mut cx.rng, &land).into_iter().take(6).fold(BoundedSet::empty(), |s: BoundedSet<T>, r| Rangetools::union(s, r));
        cx.sig(&s);
        let n = cx.rng.below(4) as usize;
        w.iters.push(match cx.rng.below(3) {
            0 => {
                let mut i = r.into_iter();
                for _ in 0..n {
                    i.next();
                }
                Paused::R(i)
            }
            1 => {
                let mut i = s.into_iter();
                for _ in 0..n {
                    i.next_back();
                }
                Paused::S(i)
            }
            _ => {
                let mut i = Rangetools::union(s, land.pt(&mut cx.rng)..).into_iter();
                for _ in 0..n {
                    i.next();
                }
                Paused::L(i)
            }
        });
    }
    let m = w.pool.len() as u64;
    let tasks: Vec<Task<T>> = (0..if small { 5 } else { 8 })
        .map(|_| {
            let (i, j) = (cx.rng.below(m) as usize, cx.rng.below(m) as usize);
            match cx.rng.below(12) {
                0 | 1 => Task::Union(i, j),
                2 | 3 => Task::Intersection(i, j),
                4 => Task::Complement(i),
                5 => Task::Disjoint(i, j),
                6 | 7 => Task::Has(i, land.pt(&mut cx.rng)),
                8 => Task::Empty(i),
                9 => Task::Equal(i, j),
                10 => Task::Walk(i),
                _ => Task::Go(i % 2, j),
            }
        })
        .collect();
    let alone: Vec<Seen<T>> = tasks.iter().map(|t| perform(&w, *t)).collect();
    let threads = if small { 2 } else { 2 + cx.rng.below(3) as usize };
    let orders: Vec<Vec<usize>> = (0..threads)
        .map(|_| {
            let mut o: Vec<usize> = (0..tasks.len()).collect();
            cx.rng.shuffle(&mut o);
            if small {
                o.truncate(4);
            }
            o
        })
        .collect();
    let moved: Vec<Paused<T>> = w.iters.iter().map(|i| match i {
        Paused::S(i) => Paused::S(i.clone()),
        Paused::R(i) => Paused::R(i.clone()),
        Paused::L(i) => Paused::L(i.clone()),
    }).collect();
    let go: Vec<Seen<T>> = (0..w.iters.len()).map(|i| perform(&w, Task::Go(i, 3))).collect();
    cx.setup = false;
    let rounds = if small { 1 } else { 4 };
    let ticket = AtomicUsize::new(0);
    let start = Barrier::new(threads);
    let mut log: Vec<(usize, usize, usize, Seen<T>)> = vec![];
    let mut carried: Vec<Seen<T>> = vec![];
    {
        let (w, tasks, ticket, start) = (&w, &tasks, &ticket, &start);
        let mut moved = Some(moved);
        std::thread::scope(|s| {
            let hs: Vec<_> = orders
                .iter()
                .enumerate()
                .map(|(me, order)| {
                    let mine = if me == 1 { moved.take() } else { None };
                    s.spawn(move || {
                        start.wait();
                        let mut out = vec![];
                        for &t in (0..rounds).flat_map(|_| order) {
                            let r = perform(w, tasks[t]);
                            out.push((ticket.fetch_add(1, Ordering::Relaxed), me, t, r));
                        }
                        // iterators that came along from the thread that made them
                        let mine = mine.map(|iters| {
                            let w = World { pool: vec![], iters };
                            (0..w.iters.len()).map(|i| perform(&w, Task::Go(i, 3))).collect::<Vec<_>>()
                        });
                        (out, mine)
                    })
                })
                .collect();
            for h in hs {
                let (o, c) = h.join().expect("the tasks catch their panics");
                log.extend(o);
                carried.extend(c.into_iter().flatten());
            }
        });
    }
    log.sort_by_key(|e| e.0);
    let order: Vec<usize> = log.iter().map(|e| e.1).collect();
    cx.sig(&order);
    let switches = order.windows(2).filter(|p| p[0] != p[1]).count();
    cx.nontrivial = switches >= threads;
    cx.label_n("switches between threads", switches as u64);
    cx.label(match threads {
        2 => "2 threads",
        3 => "3 threads",
        _ => "4 threads",
    });
    for (n, me, t, r) in &log {
        cx.calls += 1;
        watch!(cx, *r == alone[*t], "event {n}: thread {me} saw {r:?} from {:?} on values {:?}; alone the outcome was {:?}", tasks[*t], w.pool, alone[*t]);
    }
    for (a, b) in go.iter().zip(&carried) {
        watch!(cx, a == b, "an iterator moved to another thread yields {b:?}; where it was made {a:?}");
    }
    for (t, was) in tasks.iter().zip(&alone) {
        let now = perform(&w, *t);
        watch!(cx, now == *was, "{t:?} on values {:?} gave {was:?} before and {now:?} after the other threads ran", w.pool);
    }
    cx.calls += 2 * tasks.len() as u64;
    Ok(())
}
