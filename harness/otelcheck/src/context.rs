use crate::common::Ctx;
use opentelemetry::Context;

#[derive(Debug, PartialEq, Clone, Copy)]
struct Tag(u64);

fn cur() -> u64 { Context::current().get::<Tag>().map(|t| t.0).unwrap_or(0) }

/// a value whose drop looks at the current context, and attaches another one for a moment
struct Watch;
thread_local! { static SEEN: std::cell::RefCell<Vec<Result<u64, String>>> = const { std::cell::RefCell::new(vec![]) }; }
impl Drop for Watch {
    fn drop(&mut self) {
        let r = std::panic::catch_unwind(|| {
            let c = cur();
            { let _g = Context::current_with_value(Tag(u64::MAX)).attach(); if cur() != u64::MAX { return Err("a context attached while another one is dropped is not current".to_string()); } }
            if cur() != c { return Err("attaching while another context is dropped changed the current one".to_string()); }
            Ok(c)
        });
        SEEN.with(|s| s.borrow_mut().push(r.unwrap_or_else(|e| Err(format!("using the current context from the drop of a value of a detached context panics: {}", e.downcast_ref::<&str>().map(|s| s.to_string()).or(e.downcast_ref::<String>().cloned()).unwrap_or_default())))));
    }
}
fn seen(want: u64, when: &str) -> Result<(), String> {
    for r in SEEN.with(|s| std::mem::take(&mut *s.borrow_mut())) {
        match r { Ok(c) if c == want => {} Ok(c) => return Err(format!("{when}: code run by the drop of the detached context sees context {c}, expected {want}")), Err(e) => return Err(format!("{when}: {e}")) }
    }
    Ok(())
}

/// C01: histories of attach / drop on one thread; model: the list of attached-and-not-dropped contexts in attach order.
pub fn c01(c: &mut Ctx) {
    c.rule = "a history is a list of operations (attach a fresh tagged context / drop the k-th live guard) on a fresh thread; non-trivial: it drops at least one guard that is not the most recent".into();
    // exhaustive: all histories of up to 7 operations where every step is attach or drop of a live guard
    let mut hs: Vec<Vec<usize>> = vec![vec![]]; // 0 = attach, k+1 = drop k-th live
    let mut frontier: Vec<(Vec<usize>, usize)> = vec![(vec![], 0)];
    let depth = if c.thorough { 9 } else { 7 };
    for _ in 0..depth {
        let mut nf = vec![];
        for (h, live) in &frontier {
            let mut a = h.clone(); a.push(0); nf.push((a, live + 1));
            for k in 0..*live { let mut a = h.clone(); a.push(k + 1); nf.push((a, live - 1)); }
        }
        hs.extend(nf.iter().map(|x| x.0.clone()));
        frontier = nf;
    }
    // random longer ones
    for _ in 0..c.n(400) {
        let len = 10 + c.rng.usize(120);
        let mut live = 0usize;
        let mut h = vec![];
        let bias = 1 + c.rng.below(9);
        for _ in 0..len {
            if live == 0 || c.rng.chance(bias, 10) { h.push(0); live += 1 } else { h.push(1 + c.rng.usize(live)); live -= 1 }
        }
        hs.push(h);
    }
    let hs = std::sync::Arc::new(hs);
    for i in 0..hs.len() {
        let h = hs[i].clone();
        let mut live = 0usize;
        let nontrivial = h.iter().any(|&o| if o == 0 { live += 1; false } else { live -= 1; o - 1 < live });
        c.case(format!("history {:?} (0 = attach, k = drop the k-th oldest live guard)", h), nontrivial, move || run_history(&h));
    }
    // deep stacks around the position limit, and attaches beyond it
    for extra in [0u32, 1, 2, 5] {
        c.case(format!("attach 65534+{extra} contexts then drop all newest first"), true, move || deep(extra, false));
        c.case(format!("attach 65534+{extra} contexts then drop all oldest first"), true, move || deep(extra, true));
    }
    // guards dropped by a panic that unwinds
    for i in 0..c.n(60) {
        let (n, m) = (1 + c.rng.usize(5), 1 + c.rng.usize(5));
        c.case(format!("#{i}: {n} contexts attached, then {m} more inside a call that panics"), true, move || std::thread::spawn(move || {
            let mut gs: Vec<_> = (1..=n as u64).map(|k| Context::current_with_value(Tag(k)).attach()).collect();
            let r = std::panic::catch_unwind(|| {
                let _inner: Vec<_> = (0..m as u64).map(|k| Context::new().with_value(Watch).with_value(Tag(100 + k)).attach()).collect();
                let _last = Context::current_with_value(Tag(500)).attach();
                std::panic::resume_unwind(Box::new("stop"));
            });
            if r.is_ok() { return Err("no panic".to_string()); }
            if cur() != n as u64 { return Err(format!("after the panic the current context is {}, expected {n}", cur())); }
            SEEN.with(|s| s.borrow_mut().clear());
            while let Some(g) = gs.pop() { drop(g); if cur() != gs.len() as u64 { return Err(format!("current {} want {}", cur(), gs.len())); } }
            Ok(())
        }).join().map_err(|_| "panicked".to_string())?);
    }
    // isolation between threads; guards nested through closures
    for n in 2..6u64 {
        c.case(format!("{n} threads attach concurrently"), true, move || {
            let _g = Context::new().with_value(Tag(77)).attach();
            let hs: Vec<_> = (0..n).map(|t| std::thread::spawn(move || {
                if cur() != 0 { return Err(format!("a new thread starts with context {}", cur())); }
                let _a = Context::new().with_value(Tag(100 + t)).attach();
                for j in 0..50 { let _b = Context::current().with_value(Tag(1000 + j)).attach(); if cur() != 1000 + j { return Err("nested".to_string()); } }
                if cur() != 100 + t { return Err(format!("thread {t} sees {}", cur())); }
                Ok(())
            })).collect();
            for h in hs { h.join().map_err(|_| "thread panicked".to_string())??; }
            if cur() != 77 { return Err(format!("main thread sees {}", cur())); }
            Ok(())
        });
    }
}

fn run_history(h: &[usize]) -> Result<(), String> {
    let h = h.to_vec();
    std::thread::spawn(move || {
        let mut guards = vec![];
        let mut next = 1u64;
        for (step, &o) in h.iter().enumerate() {
            if o == 0 {
                // derive from the current context so that anything carried along is exercised
                let cx = match (step + h.len()) % 3 { 0 => Context::current_with_value(Tag(next)), 1 => Context::new().with_value(Watch).with_value(Tag(next)), _ => Context::current_with_value(Watch).with_value(Tag(next)) };
                guards.push((next, cx.attach()));
                next += 1;
            } else {
                drop(guards.remove(o - 1));
            }
            let want = guards.last().map(|g| g.0).unwrap_or(0);
            seen(want, &format!("step {step}"))?;
            if cur() != want { return Err(format!("after step {step}: current context is {} but the most recently attached live one is {want}", cur())); }
        }
        while let Some(g) = guards.pop() {
            drop(g);
            let want = guards.last().map(|g| g.0).unwrap_or(0);
            seen(want, "unwinding")?;
            if cur() != want { return Err(format!("unwinding: current {} want {want}", cur())); }
        }
        Ok(())
    }).join().map_err(|_| "panicked".to_string())?
}

fn deep(extra: u32, fifo: bool) -> Result<(), String> {
    std::thread::spawn(move || {
        let lim = 65534u64;
        let mut gs = std::collections::VecDeque::new();
        for i in 1..=(lim + extra as u64) {
            gs.push_back((i, Context::new().with_value(Tag(i)).attach()));
            if i <= 65500 && cur() != i { return Err(format!("attach {i}: current is {}", cur())); }
        }
        let reached = cur();
        // an attach past the limit is refused and changes nothing
        if reached > lim || reached < lim - 2 { return Err(format!("after {} attaches current is {reached}", lim + extra as u64)); }
        if fifo {
            while let Some(g) = gs.pop_front() {
                let id = g.0;
                drop(g);
                let want = if id >= reached { 0 } else { reached };
                if cur() != want { return Err(format!("dropped {id}: current {} want {want}", cur())); }
            }
        } else {
            while let Some(g) = gs.pop_back() {
                let id = g.0;
                drop(g);
                let want = if id > reached { reached } else { id - 1 };
                if cur() != want { return Err(format!("dropped {id}: current {} want {want}", cur())); }
            }
        }
        Ok(())
    }).join().map_err(|_| "panicked".to_string())?
}
