// Unit: what runs on an async runtime (opentelemetry-sdk/src/{trace/span_processor_with_async_runtime.rs,
// logs/log_processor_with_async_runtime.rs}): the worker of a batch processor is a function of the messages it gets.
// `async fn` is read as `fn` and `.await` as the call returning: the worker is one task, nothing else touches its state.
use vstd::prelude::*;
verus! {
#[verifier::external_body] struct Text { _p: u8 }
#[derive(Clone, Copy)] #[verifier::external_body] struct Duration { _p: u8 }
enum OTelSdkError { AlreadyShutdown, Timeout(Duration), InternalFailure(Text) }
type OTelSdkResult = Result<(), OTelSdkError>;
#[verifier::external_body] fn text() -> Text { unimplemented!() }
//@gsubst OTelSdkError::InternalFailure($$m) ~> OTelSdkError::InternalFailure(text())
//@gsubst OTelSdkResult::Err ~> Err
#[verifier::external_body] struct Resource { _p: u8 }
impl Clone for Resource { #[verifier::external_body] fn clone(&self) -> (r: Resource) ensures r == *self { unimplemented!() } }
#[verifier::external_body] struct SdkLogRecord { _p: u8 }
#[verifier::external_body] struct InstrumentationScope { _p: u8 }
impl Clone for SdkLogRecord { #[verifier::external_body] fn clone(&self) -> (r: SdkLogRecord) ensures r == *self { unimplemented!() } }
impl Clone for InstrumentationScope { #[verifier::external_body] fn clone(&self) -> (r: InstrumentationScope) ensures r == *self { unimplemented!() } }
/// what is handed over: a log record with its scope, or (the same two, unread) a span
type Item = (SdkLogRecord, InstrumentationScope);
uninterp spec fn sampled(s: Item) -> bool;
#[verifier::external_body] fn is_sampled(s: &Item) -> (r: bool) ensures r == sampled(*s) { unimplemented!() }
//@gsubst span.span_context.is_sampled() ~> is_sampled(&span)
/// all that is in a vector, which is empty afterwards
fn drained(v: &mut Vec<Item>) -> (r: Vec<Item>) ensures r@ == old(v)@, final(v)@.len() == 0 { proof { assert(v@.skip(0) =~= v@); assert(v@.take(0).len() == 0); } v.split_off(0) }
//@gsubst logs.split_off(0) ~> drained(logs)
//@gsubst mem::take(&mut logs) ~> drained(logs)
//@gsubst self.spans.split_off(0) ~> drained(&mut self.spans)
//@gsubst mem::take(&mut self.spans) ~> drained(&mut self.spans)

// ---- what the world sees of the worker ----
enum Ev { Export(Seq<Item>, OTelSdkResult), Answer(int, OTelSdkResult), Down, Told(Resource) }
struct World { evs: Ghost<Seq<Ev>> }
spec fn grew(a: World, b: World, e: Ev) -> bool { b.evs@ == a.evs@.push(e) }
/// the sending half of a oneshot channel; the receiver may be gone
struct Answer { id: Ghost<int> }
impl Answer { #[verifier::external_body] fn send(self, r: OTelSdkResult, w: &mut World) -> (o: Result<(), OTelSdkResult>) ensures grew(*old(w), *final(w), Ev::Answer(self.id@, r)) { unimplemented!() } }
struct Exporter { _p: u8 }
struct LogBatch { items: Ghost<Seq<Item>> }
spec fn behind(v: Seq<(&SdkLogRecord, &InstrumentationScope)>) -> Seq<Item> { Seq::new(v.len(), |i: int| (*v[i].0, *v[i].1)) }
impl LogBatch { fn new(v: &[(&SdkLogRecord, &InstrumentationScope)]) -> (r: LogBatch) ensures r.items@ == behind(v@) { LogBatch { items: Ghost(behind(v@)) } } }
fn borrowed<'a>(v: &'a Vec<Item>) -> (r: Vec<(&'a SdkLogRecord, &'a InstrumentationScope)>) ensures behind(r@) == v@ {
    let mut r: Vec<(&SdkLogRecord, &InstrumentationScope)> = Vec::new();
    let mut i = 0;
    while i < v.len() invariant i <= v@.len(), r@.len() == i, forall|k: int| 0 <= k < i ==> (*(#[trigger] r@[k]).0, *r@[k].1) == v@[k] decreases v@.len() - i { r.push((&v[i].0, &v[i].1)); i += 1; }
    proof { assert(behind(r@) =~= v@); }
    r
}
struct Exporting { batch: Ghost<Seq<Item>> }
struct Waiting { d: Ghost<Duration> }
enum Either { Left((OTelSdkResult, ())), Right(((), ())) }
impl Exporter {
    /// a future: nothing happens before it is polled
    fn export(&mut self, batch: Vec<Item>) -> (r: Exporting) ensures r.batch@ == batch@, *final(self) == *old(self) { Exporting { batch: Ghost(batch@) } }
    fn export_logs(&mut self, batch: LogBatch) -> (r: Exporting) ensures r.batch@ == batch.items@, *final(self) == *old(self) { Exporting { batch: Ghost(batch.items@) } }
    #[verifier::external_body] fn shutdown(&mut self, w: &mut World) -> (r: OTelSdkResult) ensures grew(*old(w), *final(w), Ev::Down) { unimplemented!() }
    #[verifier::external_body] fn set_resource(&mut self, r: &Resource, w: &mut World) ensures grew(*old(w), *final(w), Ev::Told(*r)) { unimplemented!() }
}
struct Runtime { _p: u8 }
impl Runtime { fn delay(&self, d: Duration) -> (r: Waiting) ensures r.d@ == d { Waiting { d: Ghost(d) } } }
/// futures::future::select polls the first one first: the export begins in either case
#[verifier::external_body] fn select(e: Exporting, t: Waiting, w: &mut World) -> (r: Either)
    ensures match r { Either::Left(p) => grew(*old(w), *final(w), Ev::Export(e.batch@, p.0)), Either::Right(_) => grew(*old(w), *final(w), Ev::Export(e.batch@, Err(OTelSdkError::Timeout(t.d@)))) } { unimplemented!() }
//@gsubst pin_mut!(export); ~> 
//@gsubst pin_mut!(timeout); ~> 
//@gsubst future::select(export, timeout).await ~> select(export, timeout, w)
//@gsubst .await ~> 
//@gsubst exporter.shutdown() ~> exporter.shutdown(w)
//@gsubst exporter.set_resource(&resource) ~> exporter.set_resource(&resource, w)
//@gsubst channel.send($$r) ~> channel.send($$r, w)
//@gsubst ch.send($$r) ~> ch.send($$r, w)
spec fn done(r: OTelSdkResult, batch: Seq<Item>, a: World, b: World) -> bool { if batch.len() == 0 { r == Ok::<(), OTelSdkError>(()) && b == a } else { grew(a, b, exported(batch, r)) } }

struct BatchConfig { max_queue_size: usize, scheduled_delay: Duration, max_export_batch_size: usize, max_export_timeout: Duration, max_concurrent_exports: usize }
enum BatchMessage { Export(Item), Flush(Option<Answer>), Shutdown(Answer), SetResource(Resource) }

// ---- the relation: what one message does, given what waits and what the world has seen ----
struct St { wait: Seq<Item>, seen: Seq<Ev> }
/// everything waiting was exported, if there was anything, and the result is `r`
spec fn emptied(a: St, b: Seq<Ev>, r: OTelSdkResult) -> bool { if a.wait.len() == 0 { r == Ok::<(), OTelSdkError>(()) && b == a.seen } else { b == a.seen.push(Ev::Export(a.wait, r)) } }
spec fn on_export(a: St, b: St, i: Item, max: nat) -> bool {
    if a.wait.len() + 1 == max { b.wait.len() == 0 && exists|r: OTelSdkResult| b.seen == a.seen.push(#[trigger] exported(a.wait.push(i), r)) } else { b.wait == a.wait.push(i) && b.seen == a.seen }
}
spec fn exported(b: Seq<Item>, r: OTelSdkResult) -> Ev { Ev::Export(b, r) }
spec fn answered(a: St, ch: Option<Answer>, r: OTelSdkResult, s: Seq<Ev>) -> bool { emptied(a, if ch is Some { s.drop_last() } else { s }, r) && (ch is Some ==> s.len() > 0 && s.last() == Ev::Answer(ch->0.id@, r)) }
spec fn on_flush(a: St, b: St, ch: Option<Answer>) -> bool { b.wait.len() == 0 && exists|r: OTelSdkResult| #[trigger] answered(a, ch, r, b.seen) }
/// the last export, the exporter shut down, then the answer
spec fn ended(a: St, ch: Answer, r: OTelSdkResult, s: Seq<Ev>) -> bool { s.len() >= 2 && emptied(a, s.drop_last().drop_last(), r) && s[s.len() - 2] == Ev::Down && s.last() == Ev::Answer(ch.id@, r) }
spec fn on_shutdown(a: St, b: St, ch: Answer) -> bool { b.wait.len() == 0 && exists|r: OTelSdkResult| #[trigger] ended(a, ch, r, b.seen) }
spec fn on_resource(a: St, b: St, r: Resource) -> bool { b.wait == a.wait && b.seen == a.seen.push(Ev::Told(r)) }
spec fn step(a: St, b: St, m: BatchMessage, max: nat) -> bool {
    match m { BatchMessage::Export(i) => on_export(a, b, i, max), BatchMessage::Flush(ch) => on_flush(a, b, ch), BatchMessage::Shutdown(ch) => on_shutdown(a, b, ch), BatchMessage::SetResource(r) => on_resource(a, b, r) }
}
spec fn reached(ms: Seq<BatchMessage>, st: St, max: nat) -> bool decreases ms.len() {
    if ms.len() == 0 { st.wait.len() == 0 && st.seen.len() == 0 } else { exists|p: St| reached(ms.drop_last(), p, max) && #[trigger] step(p, st, ms.last(), max) }
}
// ---- what follows: everything handed over is exported once, in order, in batches that fit ----
spec fn handed(ms: Seq<BatchMessage>) -> Seq<Item> decreases ms.len() {
    if ms.len() == 0 { Seq::empty() } else { match ms.last() { BatchMessage::Export(i) => handed(ms.drop_last()).push(i), _ => handed(ms.drop_last()) } }
}
spec fn sent(s: Seq<Ev>) -> Seq<Item> decreases s.len() { if s.len() == 0 { Seq::empty() } else { match s.last() { Ev::Export(b, _) => sent(s.drop_last()) + b, _ => sent(s.drop_last()) } } }
spec fn fits(s: Seq<Ev>, max: nat) -> bool { forall|k: int| 0 <= k < s.len() ==> match #[trigger] s[k] { Ev::Export(b, _) => 0 < b.len() <= max, _ => true } }
/// the result of the last export, or of not having anything to export
spec fn result_of(p: St, s: Seq<Ev>) -> OTelSdkResult { if p.wait.len() == 0 { Ok(()) } else { s[p.seen.len() as int]->Export_1 } }
proof fn sent_push(s: Seq<Ev>, e: Ev) ensures sent(s.push(e)) == (match e { Ev::Export(b, _) => sent(s) + b, _ => sent(s) }) { assert(s.push(e).drop_last() =~= s); }
proof fn every_item_once(ms: Seq<BatchMessage>, st: St, max: nat)
    requires reached(ms, st, max), max > 0
    ensures sent(st.seen) + st.wait == handed(ms), st.wait.len() < max, fits(st.seen, max),
        // a flush or shutdown is answered when everything before it was exported
        ms.len() > 0 && (ms.last() is Flush || ms.last() is Shutdown) ==> sent(st.seen) == handed(ms.drop_last()),
    decreases ms.len()
{
    if ms.len() > 0 {
        let p = choose|p: St| reached(ms.drop_last(), p, max) && #[trigger] step(p, st, ms.last(), max);
        every_item_once(ms.drop_last(), p, max);
        match ms.last() {
            BatchMessage::Export(i) => { one_export(p, st, i, max); assert(sent(st.seen) + st.wait =~= handed(ms)); }
            BatchMessage::Flush(ch) => {
                let r = choose|r: OTelSdkResult| #[trigger] answered(p, ch, r, st.seen);
                let s0 = if ch is Some { st.seen.drop_last() } else { st.seen };
                one_emptying(p, s0, r, max);
                if ch is Some { assert(st.seen =~= s0.push(st.seen.last())); sent_push(s0, st.seen.last()); }
                assert(sent(st.seen) + st.wait =~= handed(ms));
                assert(sent(st.seen) =~= handed(ms.drop_last()));
            }
            BatchMessage::Shutdown(ch) => {
                let r = choose|r: OTelSdkResult| #[trigger] ended(p, ch, r, st.seen);
                let s1 = st.seen.drop_last();
                let s0 = s1.drop_last();
                one_emptying(p, s0, r, max);
                assert(s1 =~= s0.push(Ev::Down)); sent_push(s0, Ev::Down);
                assert(st.seen =~= s1.push(st.seen.last())); sent_push(s1, st.seen.last());
                assert(sent(st.seen) + st.wait =~= handed(ms));
                assert(sent(st.seen) =~= handed(ms.drop_last()));
            }
            BatchMessage::SetResource(r) => { sent_push(p.seen, Ev::Told(r)); assert(sent(st.seen) + st.wait =~= handed(ms)); }
        }
    } else { assert(sent(st.seen) + st.wait =~= handed(ms)); }
}
proof fn one_export(p: St, st: St, i: Item, max: nat) requires on_export(p, st, i, max), p.wait.len() < max, fits(p.seen, max)
    ensures sent(st.seen) + st.wait == sent(p.seen) + p.wait.push(i), st.wait.len() < max, fits(st.seen, max)
{
    if p.wait.len() + 1 == max {
        let r = choose|r: OTelSdkResult| st.seen == p.seen.push(#[trigger] exported(p.wait.push(i), r));
        sent_push(p.seen, exported(p.wait.push(i), r));
    }
    assert(sent(st.seen) + st.wait =~= sent(p.seen) + p.wait.push(i));
}
proof fn one_emptying(p: St, s: Seq<Ev>, r: OTelSdkResult, max: nat) requires emptied(p, s, r), p.wait.len() < max, fits(p.seen, max) ensures sent(s) == sent(p.seen) + p.wait, fits(s, max)
{ if p.wait.len() > 0 { sent_push(p.seen, Ev::Export(p.wait, r)); } assert(sent(s) =~= sent(p.seen) + p.wait); }

/// the messages: those sent and the ticks, in the order the worker gets them (stream::select), then the end of the stream
struct Messages { all: Ghost<Seq<BatchMessage>>, at: Ghost<nat> }
impl Messages {
    spec fn wf(&self) -> bool { self.at@ <= self.all@.len() }
    spec fn done(&self) -> Seq<BatchMessage> { self.all@.take(self.at@ as int) }
    #[verifier::external_body] fn next_(&mut self) -> (r: Option<BatchMessage>) requires old(self).wf()
        ensures final(self).wf(), final(self).all == old(self).all, match r { Some(m) => old(self).at@ < old(self).all@.len() && final(self).at@ == old(self).at@ + 1 && m == old(self).all@[old(self).at@ as int], None => *final(self) == *old(self) && old(self).at@ == old(self).all@.len() } { unimplemented!() }
    fn next(&mut self) -> (r: Option<BatchMessage>) requires old(self).wf()
        ensures final(self).wf(), final(self).all == old(self).all, match r { Some(m) => final(self).done().len() > 0 && final(self).done().drop_last() == old(self).done() && final(self).done().last() == m, None => *final(self) == *old(self) && old(self).at@ == old(self).all@.len() }
    { let ghost d = self.done(); let r = self.next_(); proof { if r is Some { assert(self.done().drop_last() =~= d); } } r }
}

// ---- spans ----
/// what the export task of a flush still has to do: give the result to whoever asked
struct Task { channel: Option<Answer>, result: OTelSdkResult }
//@fn opentelemetry-sdk/src/trace/span_processor_with_async_runtime.rs impl BatchSpanProcessorInternal<E, R> :: fn flush
//@region if let Some(channel) = res_channel { ~> Ok(())
//@sig fn answer(res_channel: Option<Answer>, export_result: OTelSdkResult, w: &mut World) -> OTelSdkResult
//@ret r
//@contract
    ensures match res_channel { Some(c) => grew(*old(w), *final(w), Ev::Answer(c.id@, export_result)), None => *final(w) == *old(w) },
//@endfn
impl Task { fn run(self, w: &mut World) -> OTelSdkResult ensures match self.channel { Some(c) => grew(*old(w), *final(w), Ev::Answer(c.id@, self.result)), None => *final(w) == *old(w) } { answer(self.channel, self.result, w) } }
/// FuturesUnordered: tasks run when it is polled, in any order
struct Tasks { v: Vec<Task> }
impl Tasks {
    spec fn silent(&self) -> bool { silent(self.v@) }
    fn push(&mut self, t: Task) ensures final(self).v@ == old(self).v@.push(t) { self.v.push(t); }
    fn is_empty(&self) -> (r: bool) ensures r == (self.v@.len() == 0) { self.v.len() == 0 }
    fn len(&self) -> (r: usize) ensures r == self.v@.len() { self.v.len() }
    #[verifier::external_body] fn next_(&mut self, w: &mut World) -> (r: Option<OTelSdkResult>)
        ensures r is None <==> old(self).v@.len() == 0, r is None ==> *final(self) == *old(self) && *final(w) == *old(w),
            r is Some ==> exists|k: int| 0 <= k < old(self).v@.len() && final(self).v@ == #[trigger] old(self).v@.remove(k) && (match old(self).v@[k].channel { Some(c) => grew(*old(w), *final(w), Ev::Answer(c.id@, old(self).v@[k].result)), None => *final(w) == *old(w) }) { unimplemented!() }
    fn next(&mut self, w: &mut World) -> (r: Option<OTelSdkResult>)
        ensures r is None ==> old(self).v@.len() == 0 && *final(self) == *old(self) && *final(w) == *old(w), silent(old(self).v@) ==> silent(final(self).v@) && *final(w) == *old(w),
            forall|c: Option<Answer>, x: OTelSdkResult, s0: Seq<Ev>| pending(old(self).v@, c, x, s0, old(w).evs@) ==> #[trigger] pending(final(self).v@, c, x, s0, final(w).evs@)
    {
        let ghost v0 = self.v@; let ghost e0 = w.evs@;
        let r = self.next_(w);
        proof {
            if r is Some {
                let k = choose|k: int| 0 <= k < v0.len() && self.v@ == #[trigger] v0.remove(k) && (match v0[k].channel { Some(c) => w.evs@ == e0.push(Ev::Answer(c.id@, v0[k].result)), None => w.evs@ == e0 });
                assert forall|c: Option<Answer>, x: OTelSdkResult, s0: Seq<Ev>| pending(v0, c, x, s0, e0) implies #[trigger] pending(self.v@, c, x, s0, w.evs@) by { polled(v0, k, c, x, s0, e0, w.evs@); }
                if silent(v0) { assert forall|i: int| 0 <= i < self.v@.len() implies (#[trigger] self.v@[i]).channel is None by { assert(self.v@[i] == (if i < k { v0[i] } else { v0[i + 1] })); } }
            }
        }
        r
    }
    #[verifier::external_body] fn ready(&self) -> bool { unimplemented!() }
}
spec fn silent(v: Seq<Task>) -> bool { forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i]).channel is None }
spec fn only(v: Seq<Task>, k: int, c: Answer, r: OTelSdkResult) -> bool { 0 <= k < v.len() && v[k].channel == Some(c) && v[k].result == r && forall|i: int| 0 <= i < v.len() && i != k ==> (#[trigger] v[i]).channel is None }
proof fn pushed(v: Seq<Task>, t: Task, s: Seq<Ev>) requires silent(v) ensures pending(v.push(t), t.channel, t.result, s, s) {
    if t.channel is Some { assert(only(v.push(t), v.len() as int, t.channel->0, t.result)); } else { assert(silent(v.push(t))); }
}
proof fn polled(v: Seq<Task>, k: int, c: Option<Answer>, r: OTelSdkResult, s0: Seq<Ev>, s: Seq<Ev>, t: Seq<Ev>)
    requires pending(v, c, r, s0, s), 0 <= k < v.len(), match v[k].channel { Some(c) => t == s.push(Ev::Answer(c.id@, v[k].result)), None => t == s }
    ensures pending(v.remove(k), c, r, s0, t)
{
    assert forall|i: int| 0 <= i < v.remove(k).len() implies #[trigger] v.remove(k)[i] == (if i < k { v[i] } else { v[i + 1] }) by {}
    if !silent(v) {
        let q = choose|q: int| only(v, q, c->0, r);
        if q == k { assert(silent(v.remove(k))); } else { let z = if q < k { q } else { q - 1 }; assert(only(v.remove(k), z, c->0, r)); assert(v[k].channel is None); }
    } else { assert(v[k].channel is None); assert(silent(v.remove(k))); }
}
/// the answer was given, or the one task that gives it waits
spec fn pending(v: Seq<Task>, c: Option<Answer>, r: OTelSdkResult, s0: Seq<Ev>, s: Seq<Ev>) -> bool {
    match c { None => silent(v) && s == s0, Some(c) => (silent(v) && s == s0.push(Ev::Answer(c.id@, r))) || (s == s0 && exists|k: int| #[trigger] only(v, k, c, r)) }
}
struct BatchSpanProcessorInternal { spans: Vec<Item>, export_tasks: Tasks, runtime: Runtime, exporter: Exporter, config: BatchConfig }
//@gsubst self.export_tasks.next() ~> self.export_tasks.next(w)
//@gsubst BatchMessage::ExportSpan ~> BatchMessage::Export
//@gsubst BatchMessage::ExportLog ~> BatchMessage::Export
//@gsubst self.export() ~> self.export(w)
//@gsubst self.flush($$a) ~> self.flush($$a, w)
impl BatchSpanProcessorInternal {
    spec fn st(&self, w: World) -> St { St { wait: self.spans@, seen: w.evs@ } }
    spec fn same(&self, o: Self) -> bool { self.config == o.config && self.runtime == o.runtime }
//@fn opentelemetry-sdk/src/trace/span_processor_with_async_runtime.rs impl BatchSpanProcessorInternal<E, R> :: fn export
//@sig fn export(&mut self, w: &mut World) -> OTelSdkResult
//@ret r
//@contract
    ensures final(self).spans@.len() == 0, final(self).same(*old(self)), final(self).export_tasks == old(self).export_tasks, done(r, old(self).spans@, *old(w), *final(w)),
//@endfn
//@fn opentelemetry-sdk/src/trace/span_processor_with_async_runtime.rs impl BatchSpanProcessorInternal<E, R> :: fn flush
//@sig #[verifier::exec_allows_no_decreases_clause] fn flush(&mut self, res_channel: Option<Answer>, w: &mut World)
//@subst Box::pin(async move { $$b }) ~> Task { channel: res_channel, result: export_result }
//@subst? let _ = task; ~> let _r = task.run(w);
//@contract
    requires old(self).export_tasks.silent(),
    ensures final(self).same(*old(self)), final(self).export_tasks.silent(), on_flush(old(self).st(*old(w)), final(self).st(*final(w)), res_channel),
//@start
    let ghost c = res_channel;
//@after let export_result = self.export(w);
    let ghost er = export_result; let ghost s1 = w.evs@; proof { pushed(self.export_tasks.v@, Task { channel: res_channel, result: export_result }, s1); }
//@loop 0
    invariant self.same(*old(self)), self.spans@.len() == 0, pending(self.export_tasks.v@, c, er, s1, w.evs@),
    ensures self.export_tasks.v@.len() == 0, pending(self.export_tasks.v@, c, er, s1, w.evs@), self.same(*old(self)), self.spans@.len() == 0,
//@end
    proof { if c is Some { assert(w.evs@.drop_last() =~= s1); } assert(answered(old(self).st(*old(w)), c, er, w.evs@)); assert(self.st(*w).wait.len() == 0); assert(self.st(*w).seen == w.evs@);  assert(on_flush(old(self).st(*old(w)), self.st(*w), c)); }
//@endfn
//@fn opentelemetry-sdk/src/trace/span_processor_with_async_runtime.rs impl BatchSpanProcessorInternal<E, R> :: fn process_message
//@sig #[verifier::exec_allows_no_decreases_clause] fn process_message(&mut self, message: BatchMessage, w: &mut World) -> bool
//@ret r
//@subst async move { $$b }; ~> Task { channel: None, result: export_result };
//@subst? let _ = task; ~> let _r = task.run(w);
//@subst? Box::pin(task) ~> task
//@contract
    requires old(self).export_tasks.silent(),
    ensures final(self).same(*old(self)), final(self).export_tasks.silent(), r == !(message is Shutdown), step(old(self).st(*old(w)), final(self).st(*final(w)), message, old(self).config.max_export_batch_size as nat),
//@start
    let ghost m0 = message;
//@beforeloop 0
    let ghost s1 = w.evs@; let ghost er = export_result;
//@before return false;
    proof { assert(w.evs@.drop_last() =~= s1.push(Ev::Down)); assert(w.evs@.drop_last().drop_last() =~= s1); assert(ended(old(self).st(*old(w)), m0->Shutdown_0, er, w.evs@)); assert(self.st(*w).wait.len() == 0); assert(self.st(*w).seen == w.evs@); assert(on_shutdown(old(self).st(*old(w)), self.st(*w), m0->Shutdown_0)); }
//@loop 0
    invariant self.same(*old(self)), self.spans@.len() == 0, self.export_tasks.silent(), w.evs@ == s1,
    ensures self.same(*old(self)), self.spans@.len() == 0, self.export_tasks.silent(), w.evs@ == s1,
//@endfn
//@fn opentelemetry-sdk/src/trace/span_processor_with_async_runtime.rs impl BatchSpanProcessorInternal<E, R> :: fn run
//@sig #[verifier::exec_allows_no_decreases_clause] #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants] fn run(&mut self, messages: &mut Messages, w: &mut World)
//@subst select! { let _ = self.export_tasks.next(w) => { $$c }, message = messages.next() => { $$b }, } ~> if self.export_tasks.ready() { let _t = self.export_tasks.next(w); $$c } else { let message = messages.next(); $$b }
//@subst self.process_message($$a) ~> self.process_message($$a, w)
//@contract
    requires old(messages).wf(), old(messages).at@ == 0, old(self).spans@.len() == 0, old(self).export_tasks.silent(), old(w).evs@.len() == 0,
    // the worker stops at the first shutdown, or when no sender is left
    ensures reached(final(messages).done(), final(self).st(*final(w)), old(self).config.max_export_batch_size as nat), final(messages).all == old(messages).all,
        final(messages).at@ == old(messages).all@.len() || final(messages).done().last() is Shutdown,
//@inloop 0
    let ghost p = self.st(*w); let ghost d0 = messages.done();
//@loop 0
    invariant messages.wf(), messages.all == old(messages).all, self.export_tasks.silent(), self.config == old(self).config, reached(messages.done(), self.st(*w), old(self).config.max_export_batch_size as nat),
    ensures reached(messages.done(), self.st(*w), old(self).config.max_export_batch_size as nat), messages.at@ == old(messages).all@.len() || messages.done().last() is Shutdown,
//@endfn
}

// ---- the ticks: one per interval, the first after the first interval ----
struct Clock { now: Ghost<int> }
uninterp spec fn long(d: Duration) -> int;
//@fn opentelemetry-sdk/src/runtime.rs fn to_interval_stream
//@region runtime_cloned.delay ~> 
//@sig fn tick(runtime_cloned: &Clocked, interval: Duration, c: &mut Clock) -> Option<((), ())>
//@ret r
//@subst .delay($$d) ~> .delay($$d, c)
//@contract
    ensures r is Some, final(c).now@ == old(c).now@ + long(interval),
//@endfn
struct Clocked { _p: u8 }
impl Clocked { #[verifier::external_body] fn delay(&self, d: Duration, c: &mut Clock) ensures final(c).now@ == old(c).now@ + long(d) { unimplemented!() } }
struct Ticker { every: Ghost<Duration>, missing: Ghost<nat> }
impl Ticker {
    fn skip(self, n: usize) -> (r: Ticker) ensures r.every == self.every, r.missing@ == self.missing@ + n { Ticker { every: self.every, missing: Ghost((self.missing@ + n) as nat) } }
    /// each tick makes a flush nobody waits for
    fn flushes(self) -> (r: Ticker) ensures r == self { self }
}
fn to_interval_stream(rt: Runtime, d: Duration) -> (r: Ticker) ensures r.every@ == d, r.missing@ == 0 { Ticker { every: Ghost(d), missing: Ghost(0) } }
//@gsubst .map(|_| BatchMessage::Flush(None)) ~> .flushes()
//@gsubst Box::pin(stream::select($$a)) ~> both($$a, Ghost(config.scheduled_delay))
impl Clone for Runtime { fn clone(&self) -> (r: Runtime) { Runtime { _p: self._p } } }
/// the messages sent and the ticks; a worker must be given every tick, at the configured interval
#[verifier::external_body] fn both(rx: Receiver, t: Ticker, d: Ghost<Duration>) -> (r: Messages) requires t.every@ == d@, t.missing@ == 0 ensures r.wf(), r.at@ == 0 { unimplemented!() }

// ---- what a caller does: the sending half ----
struct Receiver { cap: usize }
struct Sender { cap: usize }
enum SendError { ChannelFull, ChannelClosed, Other }
/// what the caller gave to the channel, and what it refused
struct Sent { got: Ghost<Seq<BatchMessage>>, refused: Ghost<nat>, lost: Ghost<nat>, ids: Ghost<int> }
impl Sender {
    #[verifier::external_body] fn try_send(&self, m: BatchMessage, q: &mut Sent) -> (r: Result<(), SendError>)
        ensures final(q).ids == old(q).ids, final(q).lost == old(q).lost, match r { Ok(_) => final(q).got@ == old(q).got@.push(m) && final(q).refused == old(q).refused, Err(_) => final(q).got == old(q).got && final(q).refused@ == old(q).refused@ + 1 } { unimplemented!() }
}
struct Waiter { id: Ghost<int> }
struct Canceled { _p: u8 }
/// what the worker answers, if it does
uninterp spec fn reply(id: int) -> Option<OTelSdkResult>;
#[verifier::external_body] fn block_on(x: Waiter) -> (r: Result<OTelSdkResult, Canceled>) ensures match reply(x.id@) { Some(a) => r == Ok::<OTelSdkResult, Canceled>(a), None => r is Err } { unimplemented!() }
#[verifier::external_body] fn oneshot_channel(q: &mut Sent) -> (r: (Answer, Waiter)) ensures r.0.id == r.1.id, r.0.id@ == old(q).ids@, final(q).ids@ == old(q).ids@ + 1, final(q).got == old(q).got, final(q).refused == old(q).refused, final(q).lost == old(q).lost { unimplemented!() }
struct AtomicUsize { _p: u8 }
enum Ordering { Relaxed, Acquire, Release, AcqRel, SeqCst }
impl AtomicUsize {
    fn new(v: usize) -> AtomicUsize { AtomicUsize { _p: 0 } }
    #[verifier::external_body] fn fetch_add(&self, v: usize, o: Ordering, q: &mut Sent) -> usize ensures final(q).lost@ == old(q).lost@ + v, final(q).got == old(q).got, final(q).refused == old(q).refused, final(q).ids == old(q).ids { unimplemented!() }
    #[verifier::external_body] fn load(&self, o: Ordering) -> usize { unimplemented!() }
}
trait Flat { fn flattened(self) -> OTelSdkResult; }
impl Flat for Result<OTelSdkResult, OTelSdkError> { fn flattened(self) -> (r: OTelSdkResult) ensures r == (match self { Ok(x) => x, Err(e) => Err(e) }) { match self { Ok(x) => x, Err(e) => Err(e) } } }
//@gsubst .and_then(std::convert::identity) ~> .flattened()
//@gsubst .and_then(|res| res) ~> .flattened()
//@gsubst futures_executor::block_on ~> block_on
//@gsubst oneshot::channel() ~> oneshot_channel(q)
//@gsubst self.message_sender.try_send($$m) ~> self.message_sender.try_send($$m, q)
//@gsubst fetch_add($$m) ~> fetch_add($$m, q)
//@gsubst Arc::new($$r) ~> $$r
/// asked for with one message, and what the worker answered is what the caller gets; only a request the channel refuses, or one never answered, fails by itself
spec fn asked(q0: Sent, q1: Sent, m: BatchMessage, r: OTelSdkResult) -> bool {
    (q1.got@ == q0.got@.push(m) && q1.refused == q0.refused && (match reply(q0.ids@) { Some(a) => r == a, None => r is Err })) || (q1.got@ == q0.got@ && q1.refused@ == q0.refused@ + 1 && r is Err)
}
/// given to the channel, or refused and counted as lost
spec fn offered(q0: Sent, q1: Sent, m: BatchMessage) -> bool {
    (q1.got@ == q0.got@.push(m) && q1.refused == q0.refused && q1.lost == q0.lost) || (q1.got@ == q0.got@ && q1.refused@ == q0.refused@ + 1 && q1.lost@ == q0.lost@ + 1)
}
struct BatchSpanProcessor { message_sender: Sender, dropped_spans_count: AtomicUsize, max_queue_size: usize }
impl Runtime {
    fn batch_message_channel(&self, n: usize) -> (r: (Sender, Receiver)) ensures r.0.cap == n, r.1.cap == n { (Sender { cap: n }, Receiver { cap: n }) }
    fn spawn(&self, worker_of: Receiver) {}
}
//@gsubst runtime.spawn(async move { $$b }) ~> runtime.spawn(message_receiver)
impl BatchSpanProcessor {
//@fn opentelemetry-sdk/src/trace/span_processor_with_async_runtime.rs impl BatchSpanProcessor<R> :: fn new
//@sig fn new(exporter: Exporter, config: BatchConfig, runtime: Runtime) -> BatchSpanProcessor
//@ret r
//@contract
    ensures r.message_sender.cap == config.max_queue_size, r.max_queue_size == config.max_queue_size,
//@endfn
//@fn opentelemetry-sdk/src/trace/span_processor_with_async_runtime.rs impl SpanProcessor for BatchSpanProcessor<R> :: fn on_end
//@sig fn on_end(&self, span: Item, q: &mut Sent)
//@contract
    ensures sampled(span) ==> offered(*old(q), *final(q), BatchMessage::Export(span)), !sampled(span) ==> *final(q) == *old(q),
//@endfn
//@fn opentelemetry-sdk/src/trace/span_processor_with_async_runtime.rs impl SpanProcessor for BatchSpanProcessor<R> :: fn force_flush
//@sig fn force_flush(&self, q: &mut Sent) -> OTelSdkResult
//@ret r
//@contract
    ensures asked(*old(q), *final(q), BatchMessage::Flush(Some(Answer { id: old(q).ids })), r),
//@endfn
//@fn opentelemetry-sdk/src/trace/span_processor_with_async_runtime.rs impl SpanProcessor for BatchSpanProcessor<R> :: fn shutdown
//@sig fn shutdown(&self, q: &mut Sent) -> OTelSdkResult
//@ret r
//@contract
    ensures asked(*old(q), *final(q), BatchMessage::Shutdown(Answer { id: old(q).ids }), r),
//@endfn
//@fn opentelemetry-sdk/src/trace/span_processor_with_async_runtime.rs impl SpanProcessor for BatchSpanProcessor<R> :: fn set_resource
//@sig fn set_resource(&mut self, resource: &Resource, q: &mut Sent)
//@contract
    ensures final(q).got@ == old(q).got@.push(BatchMessage::SetResource(*resource)) || final(q).refused@ == old(q).refused@ + 1,
//@endfn
}
/// the worker as it is spawned
//@fn opentelemetry-sdk/src/trace/span_processor_with_async_runtime.rs impl BatchSpanProcessor<R> :: fn new
//@region let ticker ~> 
//@sig fn span_worker(inner_runtime: Runtime, config: BatchConfig, exporter: Exporter, message_receiver: Receiver, w: &mut World)
//@subst FuturesUnordered::new() ~> Tasks { v: Vec::new() }
//@subst let messages = ~> let mut messages =
//@subst processor.run(messages) ~> processor.run(&mut messages, w)
//@subst let processor ~> let mut processor
//@contract
    requires old(w).evs@.len() == 0,
    ensures exists|ms: Seq<BatchMessage>, st: St| #[trigger] reached(ms, st, config.max_export_batch_size as nat) && st.seen == final(w).evs@,
//@endfn

// ---- log records ----
//@fn opentelemetry-sdk/src/logs/log_processor_with_async_runtime.rs fn export_with_timeout
//@sig fn export_with_timeout(w: &mut World, time_out: Duration, exporter: &mut Exporter, runtime: &Runtime, batch: Vec<Item>) -> OTelSdkResult
//@ret r
//@subst batch.iter().map($$c).collect() ~> borrowed(&batch)
//@subst exporter.export($$a) ~> exporter.export_logs($$a)
//@contract
    ensures done(r, batch@, *old(w), *final(w)), *final(exporter) == *old(exporter),
//@endfn
//@gsubst &mut exporter ~> exporter
//@gsubst export_with_timeout($$a) ~> export_with_timeout(w, $$a)
//@fn opentelemetry-sdk/src/logs/log_processor_with_async_runtime.rs impl BatchLogProcessor<R> :: fn new
//@region while let Some(message) ~> 
//@sig #[verifier::exec_allows_no_decreases_clause] #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants] fn log_worker_run(logs: &mut Vec<Item>, config: &BatchConfig, timeout_runtime: &Runtime, exporter: &mut Exporter, messages: &mut Messages, w: &mut World)
//@subst? &timeout_runtime ~> timeout_runtime
//@contract
    requires old(messages).wf(), old(messages).at@ == 0, old(logs)@.len() == 0, old(w).evs@.len() == 0,
    ensures reached(final(messages).done(), St { wait: final(logs)@, seen: final(w).evs@ }, config.max_export_batch_size as nat), final(messages).all == old(messages).all,
        final(messages).at@ == old(messages).all@.len() || final(messages).done().last() is Shutdown,
//@loop 0
    invariant messages.wf(), messages.all == old(messages).all, reached(messages.done(), St { wait: logs@, seen: w.evs@ }, config.max_export_batch_size as nat),
    ensures reached(messages.done(), St { wait: logs@, seen: w.evs@ }, config.max_export_batch_size as nat), messages.at@ == old(messages).all@.len() || messages.done().last() is Shutdown,
//@inloop 0
    let ghost p = St { wait: logs@, seen: w.evs@ }; let ghost m0 = message;
//@before break;
    proof { assert(ended(p, m0->Shutdown_0, result_of(p, w.evs@), w.evs@)) by { if p.wait.len() == 0 { assert(w.evs@.drop_last().drop_last() =~= p.seen); } else { assert(w.evs@.drop_last().drop_last() =~= p.seen.push(w.evs@[p.seen.len() as int])); } } let b = St { wait: logs@, seen: w.evs@ }; assert(b.seen == w.evs@); assert(step(p, b, m0, config.max_export_batch_size as nat)); }
//@endinloop 0
    proof {
        let b = St { wait: logs@, seen: w.evs@ }; assert(b.seen == w.evs@);
        if let BatchMessage::Flush(ch) = m0 { assert(answered(p, ch, result_of(p, w.evs@), w.evs@)) by { let s0 = if ch is Some { w.evs@.drop_last() } else { w.evs@ }; if p.wait.len() == 0 { assert(s0 =~= p.seen); } else { assert(s0 =~= p.seen.push(w.evs@[p.seen.len() as int])); } } }
        assert(step(p, b, m0, config.max_export_batch_size as nat));
    }
//@endfn
/// the worker as it is spawned
//@fn opentelemetry-sdk/src/logs/log_processor_with_async_runtime.rs impl BatchLogProcessor<R> :: fn new
//@region let ticker ~> let mut messages = $$x;
//@sig fn log_worker_start(inner_runtime: Runtime, config: &BatchConfig, message_receiver: Receiver) -> (Vec<Item>, Messages)
//@ret r
//@subst let mut messages = $$x; ~> let messages = $$x; (logs, messages)
//@contract
    ensures r.0@.len() == 0, r.1.wf(), r.1.at@ == 0,
//@endfn
struct BatchLogProcessor { message_sender: Sender, dropped_logs_count: AtomicUsize, max_queue_size: usize }
impl BatchLogProcessor {
//@fn opentelemetry-sdk/src/logs/log_processor_with_async_runtime.rs impl BatchLogProcessor<R> :: fn new
//@sig fn new(exporter: Exporter, config: BatchConfig, runtime: Runtime) -> BatchLogProcessor
//@ret r
//@contract
    ensures r.message_sender.cap == config.max_queue_size, r.max_queue_size == config.max_queue_size,
//@endfn
//@fn opentelemetry-sdk/src/logs/log_processor_with_async_runtime.rs impl LogProcessor for BatchLogProcessor<R> :: fn emit
//@sig fn emit(&self, record: &mut SdkLogRecord, instrumentation: &InstrumentationScope, q: &mut Sent)
//@contract
    ensures offered(*old(q), *final(q), BatchMessage::Export((*old(record), *instrumentation))), *final(record) == *old(record),
//@endfn
//@fn opentelemetry-sdk/src/logs/log_processor_with_async_runtime.rs impl LogProcessor for BatchLogProcessor<R> :: fn force_flush
//@sig fn force_flush(&self, q: &mut Sent) -> OTelSdkResult
//@ret r
//@contract
    ensures asked(*old(q), *final(q), BatchMessage::Flush(Some(Answer { id: old(q).ids })), r),
//@endfn
//@fn opentelemetry-sdk/src/logs/log_processor_with_async_runtime.rs impl LogProcessor for BatchLogProcessor<R> :: fn shutdown
//@sig fn shutdown(&self, q: &mut Sent) -> OTelSdkResult
//@ret r
//@contract
    ensures asked(*old(q), *final(q), BatchMessage::Shutdown(Answer { id: old(q).ids }), r),
//@endfn
//@fn opentelemetry-sdk/src/logs/log_processor_with_async_runtime.rs impl LogProcessor for BatchLogProcessor<R> :: fn set_resource
//@sig fn set_resource(&mut self, resource: &Resource, q: &mut Sent)
//@contract
    ensures final(q).got@ == old(q).got@.push(BatchMessage::SetResource(*resource)) || final(q).refused@ == old(q).refused@ + 1,
//@endfn
}

// ---- builders ----
struct BatchSpanProcessorBuilder { exporter: Exporter, config: BatchConfig, runtime: Runtime }
struct BatchLogProcessorBuilder { exporter: Exporter, config: BatchConfig, runtime: Runtime }
impl BatchSpanProcessorBuilder {
//@fn opentelemetry-sdk/src/trace/span_processor_with_async_runtime.rs impl BatchSpanProcessorBuilder<E, R> :: fn with_batch_config
//@ret r
//@contract
    ensures r == (BatchSpanProcessorBuilder { config, ..self }),
//@endfn
//@fn opentelemetry-sdk/src/trace/span_processor_with_async_runtime.rs impl BatchSpanProcessorBuilder<E, R> :: fn build
//@sig fn build(self) -> BatchSpanProcessor
//@ret r
//@contract
    ensures r.message_sender.cap == self.config.max_queue_size, r.max_queue_size == self.config.max_queue_size,
//@endfn
}
impl BatchLogProcessorBuilder {
//@fn opentelemetry-sdk/src/logs/log_processor_with_async_runtime.rs impl BatchLogProcessorBuilder<E, R> :: fn with_batch_config
//@ret r
//@contract
    ensures r == (BatchLogProcessorBuilder { config, ..self }),
//@endfn
//@fn opentelemetry-sdk/src/logs/log_processor_with_async_runtime.rs impl BatchLogProcessorBuilder<E, R> :: fn build
//@sig fn build(self) -> BatchLogProcessor
//@ret r
//@contract
    ensures r.message_sender.cap == self.config.max_queue_size, r.max_queue_size == self.config.max_queue_size,
//@endfn
}

// ---- the channel of Tokio ----
enum TokioError { Full(BatchMessage), Closed(BatchMessage) }
enum TrySendError { ChannelFull, ChannelClosed, Other(Text) }
struct TokioSender { _p: u8 }
uninterp spec fn tokio_says(m: BatchMessage) -> Result<(), TokioError>;
impl TokioSender { #[verifier::external_body] fn try_send(&self, m: BatchMessage) -> (r: Result<(), TokioError>) ensures r == tokio_says(m) { unimplemented!() } }
//@gsubst tokio::sync::mpsc::error::TrySendError ~> TokioError
//@fn opentelemetry-sdk/src/runtime.rs impl TrySend for tokio::sync::mpsc::Sender<T> :: fn try_send
//@sig fn tokio_try_send(slf: &TokioSender, item: BatchMessage) -> Result<(), TrySendError>
//@ret r
//@subst self.try_send ~> slf.try_send
//@subst .map_err(|err| $$b) ~> .map_err(|err: TokioError| -> (e: TrySendError) ensures (err is Full ==> e is ChannelFull) && (err is Closed ==> e is ChannelClosed) { $$b })
//@contract
    ensures match tokio_says(item) { Ok(_) => r is Ok, Err(TokioError::Full(_)) => r == Err::<(), TrySendError>(TrySendError::ChannelFull), Err(TokioError::Closed(_)) => r == Err::<(), TrySendError>(TrySendError::ChannelClosed) },
//@endfn

// ---- the processor that exports each record on the thread that emits it ----
impl Exporting {
    #[verifier::external_body] fn wait(self, w: &mut World) -> (r: OTelSdkResult) ensures grew(*old(w), *final(w), exported(self.batch@, r)) { unimplemented!() }
}
impl Exporter {
    uninterp spec fn says(&self, t: Seq<char>, n: Option<Seq<char>>) -> bool;
}
struct SimpleConcurrentLogProcessor { exporter: Exporter }
impl SimpleConcurrentLogProcessor {
//@fn opentelemetry-sdk/src/logs/concurrent_log_processor.rs impl SimpleConcurrentLogProcessor<T> :: fn new
//@sig fn new(exporter: Exporter) -> SimpleConcurrentLogProcessor
//@ret r
//@contract
    ensures r.exporter == exporter,
//@endfn
//@fn opentelemetry-sdk/src/logs/concurrent_log_processor.rs impl LogProcessor for SimpleConcurrentLogProcessor<T> :: fn emit
//@sig fn emit(&mut self, record: &mut SdkLogRecord, instrumentation: &InstrumentationScope, w: &mut World)
//@subst block_on(self.exporter.export($$b)) ~> self.exporter.export_logs($$b).wait(w)
//@subst? LogBatch::new(log_tuple) ~> LogBatch::new(log_tuple.as_slice())
//@subst? record as &SdkLogRecord ~> &*record
//@contract
    ensures exists|r: OTelSdkResult| final(w).evs@ == old(w).evs@.push(#[trigger] exported(seq![(*old(record), *instrumentation)], r)), *final(record) == *old(record),
//@start
    assert forall|v: Seq<(&SdkLogRecord, &InstrumentationScope)>| v.len() == 1 implies #[trigger] behind(v) == seq![(*v[0].0, *v[0].1)] by { assert(behind(v) =~= seq![(*v[0].0, *v[0].1)]); }
//@endfn
//@fn opentelemetry-sdk/src/logs/concurrent_log_processor.rs impl LogProcessor for SimpleConcurrentLogProcessor<T> :: fn force_flush
//@ret r
//@contract
    ensures r is Ok,
//@endfn
//@fn opentelemetry-sdk/src/logs/concurrent_log_processor.rs impl LogProcessor for SimpleConcurrentLogProcessor<T> :: fn shutdown
//@sig fn shutdown(&mut self, w: &mut World) -> OTelSdkResult
//@contract
    ensures grew(*old(w), *final(w), Ev::Down),
//@endfn
//@fn opentelemetry-sdk/src/logs/concurrent_log_processor.rs impl LogProcessor for SimpleConcurrentLogProcessor<T> :: fn set_resource
//@sig fn set_resource(&mut self, resource: &Resource, w: &mut World)
//@subst self.exporter.set_resource($$r) ~> self.exporter.set_resource($$r, w)
//@contract
    ensures grew(*old(w), *final(w), Ev::Told(*resource)),
//@endfn
}
} // verus!
fn main() {}
