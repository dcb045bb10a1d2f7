// Unit: the batch and simple log processors (opentelemetry-sdk/src/logs/{batch,simple}_log_processor.rs).
// Any number of threads call emit while the worker exports: every step on the shared channel and counter may be
// preceded by steps of the others. `Shared` is that shared state; its invariant is
//      counter = records in the channel + records taken out but not yet exported + records announced by a caller about to send,
// so the counter is never below what the channel holds.
use vstd::prelude::*;
verus! {

/// a record together with its scope
#[verifier::external_body] struct LogsData { _p: u8 }
#[verifier::external_body] struct Text { _p: u8 }
enum OTelSdkError { AlreadyShutdown, Timeout(Duration), InternalFailure(Text) }
type OTelSdkResult = Result<(), OTelSdkError>;
#[verifier::external_body] fn some_text() -> Text { unimplemented!() }

// ---- time ----
#[derive(Clone, Copy)] struct Duration { ns: Ghost<int> }
#[derive(Clone, Copy)] struct Instant { at: Ghost<int> }
impl Instant {
    #[verifier::external_body] fn now() -> Instant { unimplemented!() }
    #[verifier::external_body] fn elapsed(&self) -> (r: Duration) ensures r.ns@ >= 0 { unimplemented!() }
}
impl Duration {
    #[verifier::external_body] fn checked_sub(self, o: Duration) -> (r: Option<Duration>)
        ensures match r { Some(d) => d.ns@ == self.ns@ - o.ns@ && d.ns@ >= 0, None => self.ns@ < o.ns@ } { unimplemented!() }
}
struct BatchConfig { scheduled_delay: Duration, max_export_batch_size: usize, max_queue_size: usize }

// ---- what the threads share ----
struct Shared {
    sent: Ghost<Seq<LogsData>>,     // every record ever put into the channel
    n: Ghost<int>,                  // how many of them were taken out
    counter: Ghost<int>,            // current_batch_size
    unsub: Ghost<int>,              // taken out, not yet subtracted
    pend: Ghost<int>,               // announced, not yet sent or given up (all threads)
    held: Ghost<bool>,              // worker: the export message taken from the control channel has not been acknowledged yet
    owed: Ghost<int>,               // worker: replies still owed
    last: Ghost<int>,               // worker: last thing received
}
impl Shared {
    spec fn inv(&self) -> bool {
        &&& 0 <= self.n@ <= self.sent@.len() && self.unsub@ >= 0 && self.pend@ >= 0
        &&& self.counter@ == self.sent@.len() - self.n@ + self.unsub@ + self.pend@ && self.counter@ <= isize::MAX     // each is an object in memory
    }
}
spec fn same_local(a: Shared, b: Shared) -> bool { b.held@ == a.held@ && b.owed@ == a.owed@ && b.last@ == a.last@ }
/// what the worker may see the others do
spec fn others(a: Shared, b: Shared) -> bool {
    a.sent@.is_prefix_of(b.sent@) && b.n@ == a.n@ && b.unsub@ == a.unsub@ && b.inv() && same_local(a, b)
}
impl Shared {
    #[verifier::external_body]
    fn load(&mut self) -> (r: usize) requires old(self).inv() ensures others(*old(self), *final(self)), r == final(self).counter@ { unimplemented!() }
    #[verifier::external_body]
    fn fetch_sub(&mut self, k: usize) -> (r: usize)
        requires old(self).inv(), k <= old(self).unsub@          // only what was taken out is subtracted
        ensures exists|m: Shared| others(*old(self), m) && final(self).sent@ == m.sent@ && final(self).n@ == m.n@ && final(self).pend@ == m.pend@
            && final(self).unsub@ == m.unsub@ - k && #[trigger] final(self).counter@ == m.counter@ - k && final(self).inv() && same_local(m, *final(self)) { unimplemented!() }
    #[verifier::external_body]
    fn try_recv(&mut self) -> (r: Result<LogsData, RecvError>)
        requires old(self).inv()
        ensures old(self).sent@.is_prefix_of(final(self).sent@), final(self).inv(), same_local(*old(self), *final(self)),
            match r {
                Ok(s) => final(self).sent@.len() > old(self).n@ && s == final(self).sent@[old(self).n@] && final(self).n@ == old(self).n@ + 1 && final(self).unsub@ == old(self).unsub@ + 1,
                Err(_) => final(self).n@ == old(self).n@ && final(self).unsub@ == old(self).unsub@ && final(self).sent@.len() == final(self).n@,
            } { unimplemented!() }
}
struct RecvError { _p: u8 }

// ---- the exporter ----
struct Exporter { got: Ghost<Seq<Seq<LogsData>>>, errs: Ghost<int>, down: Ghost<int>, res: Ghost<Seq<Resource>> }
struct Pending { ok: bool }
#[derive(Clone, Copy)] #[verifier::external_body] struct Resource { _p: u8 }
impl Exporter {
    #[verifier::external_body]
    fn export(&mut self, batch: &[LogsData]) -> (f: Pending)
        requires old(self).down@ == 0                                // never after its shutdown
        ensures final(self).got@ == old(self).got@.push(batch@), final(self).errs@ == old(self).errs@ + (if f.ok { 0int } else { 1 }),
            final(self).down@ == old(self).down@, final(self).res@ == old(self).res@ { unimplemented!() }
    #[verifier::external_body]
    fn shutdown(&mut self) -> (r: OTelSdkResult)
        requires old(self).down@ == 0
        ensures final(self).got@ == old(self).got@, final(self).errs@ == old(self).errs@, final(self).down@ == 1, final(self).res@ == old(self).res@ { unimplemented!() }
    #[verifier::external_body]
    fn set_resource(&mut self, r: &Resource)
        ensures final(self).got@ == old(self).got@, final(self).errs@ == old(self).errs@, final(self).down@ == old(self).down@, final(self).res@ == old(self).res@.push(*r) { unimplemented!() }
}
#[verifier::external_body] fn block_on(f: Pending) -> (r: Result<(), OTelSdkError>) ensures r is Ok == f.ok { unimplemented!() }
spec fn all_of(g: Seq<Seq<LogsData>>) -> Seq<LogsData> decreases g.len() { if g.len() == 0 { seq![] } else { all_of(g.drop_last()) + g.last() } }
/// no batch empty, none above the maximum
spec fn fits(g: Seq<Seq<LogsData>>, max: int) -> bool {
    forall|i| 0 <= i < g.len() ==> 0 < (#[trigger] g[i]).len() && (max > 0 ==> g[i].len() <= max)
}
proof fn all_push(g: Seq<Seq<LogsData>>, x: Seq<LogsData>) ensures all_of(g.push(x)) == all_of(g) + x { assert(g.push(x).drop_last() =~= g); }

//@fn opentelemetry-sdk/src/logs/batch_log_processor.rs fn export_batch_sync
//@sig fn export_batch_sync(exporter: &mut Exporter, batch: &mut Vec<LogsData>, last_export_time: &mut Instant) -> OTelSdkResult
//@subst? LogBatch::new_with_owned_data($$b) ~> $$b
//@subst? futures_executor::block_on ~> block_on
//@ret r
//@contract
    requires old(exporter).down@ == 0,
    ensures
        // exactly the given records, in one call, unless there are none
        final(exporter).got@ == (if old(batch)@.len() == 0 { old(exporter).got@ } else { old(exporter).got@.push(old(batch)@) }),
        final(batch)@.len() == 0, final(exporter).down@ == 0, final(exporter).res@ == old(exporter).res@,
        r is Ok <==> final(exporter).errs@ == old(exporter).errs@, final(exporter).errs@ >= old(exporter).errs@,
//@endfn

//@fn opentelemetry-sdk/src/logs/batch_log_processor.rs impl BatchLogProcessor :: fn new :: fn get_logs_and_export
//@sig #[verifier::exec_allows_no_decreases_clause] #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants] fn get_logs_and_export(sh: &mut Shared, exporter: &mut Exporter, logs: &mut Vec<LogsData>, last_export_time: &mut Instant, config: &BatchConfig) -> OTelSdkResult
//@subst? logs_receiver ~> sh
//@subst? current_batch_size.fetch_sub($$k, Ordering::$o) ~> sh.fetch_sub($$k)
//@subst? current_batch_size.load(Ordering::$o) ~> sh.load()
//@subst? $a.and($b) ~> and($a, $b)
//@ret r
//@contract
    requires old(sh).inv(), old(sh).unsub@ == 0, old(logs)@.len() == 0, old(exporter).down@ == 0, fits(old(exporter).got@, config.max_export_batch_size as int), !old(sh).held@,      // a new export message may be sent from here on
    ensures
        same_local(*old(sh), *final(sh)),
        final(sh).inv(), final(sh).unsub@ == 0, final(logs)@.len() == 0, final(exporter).down@ == 0, final(exporter).res@ == old(exporter).res@,
        old(sh).sent@.is_prefix_of(final(sh).sent@),
        // everything in the channel when the call began has been exported ...
        final(sh).n@ >= old(sh).sent@.len(),
        // ... and what was exported is exactly what was taken out, once each, in the order sent,
        all_of(final(exporter).got@) == all_of(old(exporter).got@) + final(sh).sent@.subrange(old(sh).n@, final(sh).n@), final(sh).n@ >= old(sh).n@,
        // in batches that are never empty and never above the maximum size
        fits(final(exporter).got@, config.max_export_batch_size as int),
        // an error is reported iff an export failed
        r is Ok <==> final(exporter).errs@ == old(exporter).errs@, final(exporter).errs@ >= old(exporter).errs@,
//@loop 0
        invariant_except_break
            sh.n@ == old(sh).n@ + total_exported_logs,
        invariant
            same_local(*old(sh), *sh), sh.inv(), sh.unsub@ == 0, logs@.len() == 0, exporter.down@ == 0, exporter.res@ == old(exporter).res@,
            old(sh).sent@.is_prefix_of(sh.sent@), sh.n@ >= old(sh).n@, target as int >= old(sh).sent@.len() - old(sh).n@,
            all_of(exporter.got@) == all_of(old(exporter).got@) + sh.sent@.subrange(old(sh).n@, sh.n@),
            fits(exporter.got@, config.max_export_batch_size as int),
            result is Ok <==> exporter.errs@ == old(exporter).errs@, exporter.errs@ >= old(exporter).errs@,
        ensures
            sh.n@ >= old(sh).sent@.len(),
        decreases (if total_exported_logs < target { target - total_exported_logs } else { 0 }),
//@inloop 0
            let ghost sh0 = *sh; let ghost ex0 = *exporter;
//@loop 1
                invariant_except_break
                    config.max_export_batch_size > 0 ==> logs@.len() < config.max_export_batch_size,
                invariant
                    same_local(*old(sh), *sh), sh.inv(), sh.unsub@ == logs@.len(), sh0.sent@.is_prefix_of(sh.sent@), sh.n@ == sh0.n@ + logs@.len(),
                    logs@ =~= sh.sent@.subrange(sh0.n@, sh.n@), sh0.n@ >= 0,
                ensures
                    config.max_export_batch_size > 0 ==> logs@.len() <= config.max_export_batch_size,
                    logs@.len() == 0 ==> sh.n@ == sh.sent@.len(),
//@afterloop 1
            proof {
                let o = old(sh);
                assert(sh.sent@.subrange(o.n@, sh0.n@) =~= sh0.sent@.subrange(o.n@, sh0.n@));
                assert(sh.sent@.subrange(o.n@, sh.n@) =~= sh0.sent@.subrange(o.n@, sh0.n@) + logs@);
                all_push(ex0.got@, logs@);
                assert(all_of(ex0.got@) + (sh0.sent@.subrange(o.n@, sh0.n@) + logs@) =~= all_of(ex0.got@) + sh0.sent@.subrange(o.n@, sh0.n@) + logs@);
            }
            let ghost sh1 = *sh;
//@endinloop 0
            proof { assert(sh.sent@.subrange(old(sh).n@, sh.n@) =~= sh1.sent@.subrange(old(sh).n@, sh1.n@)); }
//@endfn
// ---- the worker thread ----
struct FlagRef { _p: u8 }
struct Reply { id: Ghost<int>, upto: Ghost<int>, errs: Ghost<int>, stop: Ghost<bool> }
enum RecvTimeoutError { Timeout, Disconnected }
//@item opentelemetry-sdk/src/logs/batch_log_processor.rs enum BatchMessage
//@ subst Arc<AtomicBool> ~> FlagRef
//@ subst mpsc::SyncSender<OTelSdkResult> ~> Reply
//@ subst Arc<Resource> ~> Resource
impl Shared {
    #[verifier::external_body]
    fn flag_clear(&mut self, f: &FlagRef) requires old(self).held@
        ensures final(self).held@ == false, final(self).owed@ == old(self).owed@, final(self).last@ == old(self).last@, final(self).sent@ == old(self).sent@, final(self).n@ == old(self).n@,
            final(self).unsub@ == old(self).unsub@, final(self).pend@ == old(self).pend@, final(self).counter@ == old(self).counter@ { unimplemented!() }
    /// wait for a control message, never longer than the configured delay
    #[verifier::external_body]
    fn recv_timeout(&mut self, ex: &Exporter, cfg: &BatchConfig, t: Duration) -> (r: Result<BatchMessage, RecvTimeoutError>)
        requires old(self).inv(), old(self).owed@ == 0, !old(self).held@, 0 <= t.ns@ <= cfg.scheduled_delay.ns@
        ensures old(self).sent@.is_prefix_of(final(self).sent@), final(self).n@ == old(self).n@, final(self).unsub@ == old(self).unsub@, final(self).inv(),
            match r {
                Ok(BatchMessage::ExportLog(_)) => final(self).held@ && final(self).owed@ == 0 && final(self).last@ == 1,
                Ok(BatchMessage::ForceFlush(s)) => !final(self).held@ && final(self).owed@ == 1 && final(self).last@ == 2 && !s.stop@ && s.upto@ == final(self).sent@.len() && s.errs@ == ex.errs@,
                Ok(BatchMessage::Shutdown(s)) => !final(self).held@ && final(self).owed@ == 1 && final(self).last@ == 3 && s.stop@ && s.upto@ == final(self).sent@.len() && s.errs@ == ex.errs@,
                Ok(BatchMessage::SetResource(_)) => !final(self).held@ && final(self).owed@ == 0 && final(self).last@ == 4,
                Err(RecvTimeoutError::Timeout) => !final(self).held@ && final(self).owed@ == 0 && final(self).last@ == 5,
                Err(RecvTimeoutError::Disconnected) => !final(self).held@ && final(self).owed@ == 0 && final(self).last@ == 6,
            } { unimplemented!() }
    /// the answer to a flush or shutdown request
    #[verifier::external_body]
    fn reply(&mut self, s: &Reply, ex: &Exporter, r: OTelSdkResult) -> (x: Result<(), RecvError>)
        requires old(self).owed@ == 1,
            old(self).n@ >= s.upto@,                             // everything handed in before the request has been exported
            r is Ok ==> ex.errs@ == s.errs@,                    // success is reported only if every export succeeded
            ex.errs@ == s.errs@ && !s.stop@ ==> r is Ok,
            s.stop@ ==> ex.down@ == 1,                          // and a shutdown has shut the exporter down
        ensures final(self).owed@ == 0, final(self).held@ == old(self).held@, final(self).last@ == old(self).last@, final(self).sent@ == old(self).sent@, final(self).n@ == old(self).n@,
            final(self).unsub@ == old(self).unsub@, final(self).pend@ == old(self).pend@, final(self).counter@ == old(self).counter@ { unimplemented!() }
}

//@fn opentelemetry-sdk/src/logs/batch_log_processor.rs impl BatchLogProcessor :: fn new
//@region loop { let remaining_time ~> 
//@sig #[verifier::exec_allows_no_decreases_clause] #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants] fn worker(sh: &mut Shared, exporter: &mut Exporter, logs: &mut Vec<LogsData>, last_export_time: &mut Instant, config: &BatchConfig)
//@subst? message_receiver.recv_timeout($$t) ~> sh.recv_timeout(&*exporter, config, $$t)
//@subst? &logs_receiver, &exporter, &mut logs, &mut last_export_time, &current_batch_size, &config ~> sh, exporter, logs, last_export_time, config
//@subst? export_log_message_sent.store(false, Ordering::$o) ~> sh.flag_clear(&export_log_message_sent)
//@subst? sender.send(result) ~> sh.reply(&sender, &*exporter, result)
//@contract
    requires old(sh).inv(), old(sh).unsub@ == 0, !old(sh).held@, old(sh).owed@ == 0, old(logs)@.len() == 0, old(sh).n@ == 0, old(exporter).got@.len() == 0, old(exporter).down@ == 0,
        config.scheduled_delay.ns@ >= 0,
    ensures
        // the worker ends only when asked to shut down (or all senders are gone): then every request was answered, the exporter is shut down,
        final(sh).last@ == 3 || final(sh).last@ == 6, final(sh).owed@ == 0, final(sh).last@ == 3 ==> final(exporter).down@ == 1,
        // and it exported exactly what it took out of the channel, in order, in batches of at most the maximum size
        all_of(final(exporter).got@) == final(sh).sent@.subrange(0, final(sh).n@),
        fits(final(exporter).got@, config.max_export_batch_size as int),
//@loop 0
        invariant_except_break exporter.down@ == 0,
        invariant
            sh.inv(), sh.unsub@ == 0, !sh.held@, sh.owed@ == 0, logs@.len() == 0, sh.n@ >= 0,
            all_of(exporter.got@) == sh.sent@.subrange(0, sh.n@), fits(exporter.got@, config.max_export_batch_size as int),
        ensures
            sh.last@ == 3 || sh.last@ == 6, sh.last@ == 3 ==> exporter.down@ == 1,
//@inloop 0
        let ghost sh0 = *sh; let ghost ex0 = *exporter;
//@endfn
#[verifier::external_body] fn and(a: OTelSdkResult, b: OTelSdkResult) -> (r: OTelSdkResult) ensures r == (if a is Ok { b } else { a }) { unimplemented!() }

// ---- the caller's side: any number of threads at once ----
#[verifier::external_body] struct JoinHandle { _p: u8 }
impl JoinHandle { #[verifier::external_body] fn join(self) { unimplemented!() } }
/// the shared state as one calling thread uses it
struct Caller {
    sh: Shared,
    mine: Ghost<int>,               // announced by this thread, not yet sent or withdrawn
    own: Ghost<bool>,               // this thread set the export flag and has not passed it on or reset it
    sent: Ghost<Seq<LogsData>>,     // what this thread sent
    refused: Ghost<int>,            // how often the channel refused
    gone: Ghost<bool>,              // the worker has ended, as last seen
    dropped: Ghost<int>,            // how often a drop was counted
    count: Ghost<int>,              // waiting records, as last counted by this thread
    saw: Ghost<bool>,               // an export was already asked for, or this thread asked for one
    flushes: Ghost<Seq<int>>,       // flush requests made
    stops: Ghost<Seq<int>>,         // shutdown requests made
}
spec fn same_msgs(a: Caller, b: Caller) -> bool { b.flushes@ == a.flushes@ && b.stops@ == a.stops@ }
impl Caller {
    spec fn ok(&self) -> bool { self.sh.inv() && 0 <= self.mine@ <= self.sh.pend@ }
    #[verifier::external_body]
    fn announce(&mut self, k: usize) -> (r: usize) requires old(self).ok(), k == 1
        ensures final(self).ok(), final(self).mine@ == old(self).mine@ + 1, final(self).count@ == r + 1, r < usize::MAX, same_msgs(*old(self), *final(self)), final(self).own@ == old(self).own@,
            final(self).sent@ == old(self).sent@, final(self).refused@ == old(self).refused@, final(self).dropped@ == old(self).dropped@, final(self).saw@ == old(self).saw@, final(self).gone@ == old(self).gone@ { unimplemented!() }
    #[verifier::external_body]
    fn withdraw(&mut self, k: usize) -> (r: usize) requires old(self).ok(), k == 1, old(self).mine@ >= 1
        ensures final(self).ok(), final(self).mine@ == old(self).mine@ - 1, final(self).count@ == old(self).count@, same_msgs(*old(self), *final(self)), final(self).own@ == old(self).own@,
            final(self).sent@ == old(self).sent@, final(self).refused@ == old(self).refused@, final(self).dropped@ == old(self).dropped@, final(self).saw@ == old(self).saw@, final(self).gone@ == old(self).gone@ { unimplemented!() }
    /// a record enters the channel only after it was announced, so the counter never falls behind
    #[verifier::external_body]
    fn try_send(&mut self, s: LogsData) -> (r: Result<(), mpsc::TrySendError>) requires old(self).ok(), old(self).mine@ >= 1
        ensures final(self).ok(), final(self).count@ == old(self).count@, same_msgs(*old(self), *final(self)), final(self).own@ == old(self).own@, final(self).dropped@ == old(self).dropped@, final(self).saw@ == old(self).saw@,
            r is Ok ==> final(self).mine@ == old(self).mine@ - 1 && final(self).sent@ == old(self).sent@.push(s) && final(self).refused@ == old(self).refused@,
            r is Err ==> final(self).mine@ == old(self).mine@ && final(self).sent@ == old(self).sent@ && final(self).refused@ == old(self).refused@ + 1,
            old(self).gone@ ==> r is Err, final(self).gone@ == (r matches Err(mpsc::TrySendError::Disconnected(_))) { unimplemented!() }
    #[verifier::external_body]
    fn count_drop(&mut self, k: usize) -> (r: usize) requires old(self).ok(), k == 1
        ensures final(self).ok(), final(self).mine@ == old(self).mine@, final(self).count@ == old(self).count@, same_msgs(*old(self), *final(self)), final(self).own@ == old(self).own@,
            final(self).sent@ == old(self).sent@, final(self).refused@ == old(self).refused@, final(self).dropped@ == old(self).dropped@ + 1, final(self).saw@ == old(self).saw@, final(self).gone@ == old(self).gone@ { unimplemented!() }
    #[verifier::external_body]
    fn flag_load(&mut self) -> (r: bool) requires old(self).ok()
        ensures *final(self) == (Caller { saw: final(self).saw, sh: final(self).sh, ..*old(self) }), final(self).ok(), final(self).saw@ == (old(self).saw@ || r) { unimplemented!() }
    #[verifier::external_body]
    fn flag_swap(&mut self, v: bool) -> (r: bool) requires old(self).ok(), v, !old(self).own@
        ensures *final(self) == (Caller { saw: final(self).saw, own: final(self).own, sh: final(self).sh, ..*old(self) }), final(self).ok(), final(self).own@ == !r, final(self).saw@ == (old(self).saw@ || r) { unimplemented!() }
    #[verifier::external_body]
    fn flag_store(&mut self, v: bool) requires old(self).ok(), !v, old(self).own@
        ensures *final(self) == (Caller { own: final(self).own, sh: final(self).sh, ..*old(self) }), final(self).ok(), !final(self).own@ { unimplemented!() }
    /// ask the worker to export; the flag goes along if the message is accepted
    #[verifier::external_body]
    fn ask_export(&mut self) -> (r: Result<(), RecvError>) requires old(self).ok(), old(self).own@
        ensures *final(self) == (Caller { saw: final(self).saw, own: final(self).own, sh: final(self).sh, ..*old(self) }), final(self).ok(), final(self).own@ == (r is Err), final(self).saw@ { unimplemented!() }
    #[verifier::external_body]
    fn send_flush(&mut self, s: ReplySender) -> (r: Result<(), mpsc::TrySendError>) requires old(self).ok()
        ensures *final(self) == (Caller { gone: final(self).gone, flushes: final(self).flushes, sh: final(self).sh, ..*old(self) }), final(self).ok(),
            final(self).flushes@ == (if r is Ok { old(self).flushes@.push(s.id@) } else { old(self).flushes@ }),
            old(self).gone@ ==> r is Err, final(self).gone@ == (r matches Err(mpsc::TrySendError::Disconnected(_))) { unimplemented!() }
    #[verifier::external_body]
    fn send_stop(&mut self, s: ReplySender) -> (r: Result<(), mpsc::TrySendError>) requires old(self).ok()
        ensures *final(self) == (Caller { gone: final(self).gone, stops: final(self).stops, sh: final(self).sh, ..*old(self) }), final(self).ok(),
            final(self).stops@ == (if r is Ok { old(self).stops@.push(s.id@) } else { old(self).stops@ }),
            old(self).gone@ ==> r is Err, final(self).gone@ == (r matches Err(mpsc::TrySendError::Disconnected(_))) { unimplemented!() }
}
struct ReplySender { id: Ghost<int> }
struct ReplyReceiver { id: Ghost<int> }
mod mpsc { use super::*; pub(crate) struct Back { _p: u8 } pub(crate) enum TrySendError { Full(Back), Disconnected(Back) } }
/// what the worker answered to a request
uninterp spec fn answer(id: int) -> OTelSdkResult;
#[verifier::external_body] fn sync_channel(k: usize) -> (r: (ReplySender, ReplyReceiver)) requires k >= 1 ensures r.0.id@ == r.1.id@ { unimplemented!() }
impl ReplyReceiver {
    #[verifier::external_body]
    fn recv_timeout(&self, t: Duration) -> (r: Result<OTelSdkResult, RecvTimeoutError>) ensures r is Ok ==> r->Ok_0 == answer(self.id@) { unimplemented!() }
}
struct Handle { h: Option<JoinHandle> }
impl Handle { #[verifier::external_body] fn take(&mut self) -> Option<JoinHandle> { unimplemented!() } }
struct BatchLogProcessor { c: Caller, handle: Handle, forceflush_timeout: Duration, shutdown_timeout: Duration, max_export_batch_size: usize, max_queue_size: usize }
#[verifier::external_body] struct SdkLogRecord { _p: u8 }
#[verifier::external_body] struct InstrumentationScope { _p: u8 }
uninterp spec fn pair(r: SdkLogRecord, s: InstrumentationScope) -> LogsData;
#[verifier::external_body] fn pack(r: &SdkLogRecord, s: &InstrumentationScope) -> (x: LogsData) ensures x == pair(*r, *s) { unimplemented!() }
impl BatchLogProcessor {
//@fn opentelemetry-sdk/src/logs/batch_log_processor.rs impl LogProcessor for BatchLogProcessor :: fn emit
//@sig fn emit(&mut self, record: &mut SdkLogRecord, instrumentation: &InstrumentationScope)
//@subst? self.current_batch_size.fetch_add($$k, Ordering::$o) ~> self.c.announce($$k)
//@subst? self.current_batch_size.fetch_sub($$k, Ordering::$o) ~> self.c.withdraw($$k)
//@subst? self.logs_sender.try_send($$s) ~> self.c.try_send($$s)
//@subst? Box::new((record.clone(), instrumentation.clone())) ~> pack(&*record, instrumentation)
//@subst? self.dropped_logs_count.fetch_add($$k, Ordering::$o) ~> self.c.count_drop($$k)
//@subst? self.export_log_message_sent.load(Ordering::$o) ~> self.c.flag_load()
//@subst? self.export_log_message_sent.swap($$b, Ordering::$o) ~> self.c.flag_swap($$b)
//@subst? self.export_log_message_sent.store($$b, Ordering::$o) ~> self.c.flag_store($$b)
//@subst? self.message_sender.try_send(BatchMessage::ExportLog($$f)) ~> self.c.ask_export()
//@contract
    requires old(self).c.ok(), old(self).c.mine@ == 0, !old(self).c.own@, !old(self).c.saw@,
    ensures
        // nothing stays announced, the export flag is never left set without a message, the record is not changed
        final(self).c.ok(), final(self).c.mine@ == 0, !final(self).c.own@, same_msgs(old(self).c, final(self).c), *final(record) == *old(record),
        // the record is handed to the worker with its scope; or there is no room: it is dropped and counted as dropped, once; or the worker has ended
        (final(self).c.sent@ == old(self).c.sent@.push(pair(*old(record), *instrumentation)) && final(self).c.dropped@ == old(self).c.dropped@ && final(self).c.refused@ == old(self).c.refused@)
            || (final(self).c.sent@ == old(self).c.sent@ && final(self).c.refused@ == old(self).c.refused@ + 1
                && final(self).c.dropped@ == old(self).c.dropped@ + (if final(self).c.gone@ { 0int } else { 1 })),
        old(self).c.gone@ ==> final(self).c.sent@ == old(self).c.sent@,
        // a full batch wakes the worker
        final(self).c.refused@ == old(self).c.refused@ && final(self).c.count@ >= old(self).max_export_batch_size ==> final(self).c.saw@,
//@endfn
//@fn opentelemetry-sdk/src/logs/batch_log_processor.rs impl LogProcessor for BatchLogProcessor :: fn force_flush
//@sig fn force_flush(&mut self) -> OTelSdkResult
//@subst? self.message_sender.try_send(BatchMessage::ForceFlush($$s)) ~> self.c.send_flush($$s)
//@subst? mpsc::sync_channel ~> sync_channel
//@subst? .map_err(|err| $$b)? ~> .map_err(|err: RecvTimeoutError| -> (x: OTelSdkError) ensures !(x is AlreadyShutdown) { $$b })?
//@subst? err == RecvTimeoutError::Timeout ~> is_timeout(&err)
//@subst? format!($$e) ~> some_text()
//@subst? OTelSdkError::InternalFailure($e.into()) ~> OTelSdkError::InternalFailure(some_text())
//@ret r
//@contract
    requires old(self).c.ok(),
    ensures final(self).c.ok(), final(self).c.stops@ == old(self).c.stops@,
        // success means that the worker exported everything handed in before; there is no other way to succeed
        r is Ok ==> final(self).c.flushes@.len() == old(self).c.flushes@.len() + 1 && answer(final(self).c.flushes@.last()) is Ok,
        final(self).c.gone@ ==> r == OTelSdkResult::Err(OTelSdkError::AlreadyShutdown) && final(self).c.flushes@ == old(self).c.flushes@,
//@endfn
//@fn opentelemetry-sdk/src/logs/batch_log_processor.rs impl LogProcessor for BatchLogProcessor :: fn shutdown
//@sig fn shutdown(&mut self) -> OTelSdkResult
//@subst? let dropped_logs = $$e; ~> 
//@subst? let max_queue_size = self.max_queue_size; ~> 
//@subst? if dropped_logs > 0 { $$e } ~> 
//@subst? mpsc::sync_channel ~> sync_channel
//@subst? self.message_sender.try_send(BatchMessage::Shutdown($$s)) ~> self.c.send_stop($$s)
//@subst? receiver.recv_timeout(self.shutdown_timeout).map(|_| $$b).map_err(|err| $$m)? ~> match receiver.recv_timeout(self.shutdown_timeout) { Ok(_) => $$b, Err(err) => { return Err($$m); } }
//@subst? self.handle.lock().unwrap().take() ~> self.handle.take()
//@subst? handle.join().unwrap() ~> handle.join()
//@subst? OTelSdkError::InternalFailure($e.into()) ~> OTelSdkError::InternalFailure(some_text())
//@subst? format!($$e) ~> some_text()
//@ret r
//@contract
    requires old(self).c.ok(),
    ensures final(self).c.ok(), final(self).c.flushes@ == old(self).c.flushes@,
        // it succeeds only if the worker took and answered the request
        r is Ok ==> final(self).c.stops@.len() == old(self).c.stops@.len() + 1,
        // once the worker has ended, a further call changes nothing and says so
        final(self).c.gone@ ==> r == OTelSdkResult::Err(OTelSdkError::AlreadyShutdown) && final(self).c.stops@ == old(self).c.stops@,
//@endfn
}
#[verifier::external_body] fn is_timeout(e: &RecvTimeoutError) -> (r: bool) ensures r == (e is Timeout) { unimplemented!() }

// ---- the simple processor: each call locks the exporter, so calls are one after the other ----
struct Locked { ex: Exporter, poisoned: bool }
impl Locked {
    #[verifier::external_body]
    fn lock(&mut self) -> (r: Result<&mut Exporter, RecvError>)
        ensures r is Err == old(self).poisoned, final(self).poisoned == old(self).poisoned,
            match r { Ok(e) => *e == old(self).ex && final(self).ex == *final(e), Err(_) => final(self).ex == old(self).ex } { unimplemented!() }
}
struct SimpleLogProcessor { exporter: Locked, is_shutdown: StopFlag }
struct StopFlag { b: bool }
impl StopFlag {
    #[verifier::external_body] fn load(&self) -> (r: bool) ensures r == self.b { unimplemented!() }
    #[verifier::external_body] fn store(&mut self, v: bool) ensures final(self).b == v { unimplemented!() }
}
#[verifier::external_body] fn internal() -> (r: OTelSdkError) ensures r is InternalFailure { unimplemented!() }
#[verifier::external_body] fn one(r: &SdkLogRecord, s: &InstrumentationScope) -> (x: Vec<LogsData>) ensures x@ == seq![pair(*r, *s)] { unimplemented!() }
//@gsubst std::sync::atomic::Ordering ~> Ordering
impl SimpleLogProcessor {
//@fn opentelemetry-sdk/src/logs/simple_log_processor.rs impl LogProcessor for SimpleLogProcessor<T> :: fn emit
//@sig fn emit(&mut self, record: &mut SdkLogRecord, instrumentation: &InstrumentationScope)
//@subst? let _suppress_guard = Context::enter_telemetry_suppressed_scope(); ~> 
//@subst? self.is_shutdown.load(Ordering::$o) ~> self.is_shutdown.load()
//@subst? self.exporter.lock().map_err(|_| $$m).and_then(|exporter| $$b) ~> match self.exporter.lock() { Ok(exporter) => $$b, Err(e) => Err(internal()) }
//@subst? let log_tuple = $$t; ~> let log_tuple = one(&*record, instrumentation);
//@subst? LogBatch::new(log_tuple) ~> log_tuple.as_slice()
//@subst? futures_executor::block_on ~> block_on
//@contract
    requires !old(self).is_shutdown.b ==> old(self).exporter.ex.down@ == 0,
    ensures
        // a record is exported at once, alone, with its scope, unless the processor was shut down
        final(self).exporter.ex.got@ == (if !old(self).is_shutdown.b && !old(self).exporter.poisoned { old(self).exporter.ex.got@.push(seq![pair(*old(record), *instrumentation)]) } else { old(self).exporter.ex.got@ }),
        final(self).exporter.ex.down@ == old(self).exporter.ex.down@, *final(record) == *old(record), final(self).is_shutdown == old(self).is_shutdown,
//@endfn
//@fn opentelemetry-sdk/src/logs/simple_log_processor.rs impl LogProcessor for SimpleLogProcessor<T> :: fn force_flush
//@ret r
//@contract
    ensures r is Ok,
//@endfn
//@fn opentelemetry-sdk/src/logs/simple_log_processor.rs impl LogProcessor for SimpleLogProcessor<T> :: fn shutdown
//@sig fn shutdown(&mut self) -> OTelSdkResult
//@subst? self.is_shutdown.store(true, Ordering::$o) ~> self.is_shutdown.store(true)
//@subst? OTelSdkError::InternalFailure($$m) ~> OTelSdkError::InternalFailure(some_text())
//@ret r
//@contract
    requires old(self).exporter.ex.down@ == 0,
    ensures final(self).is_shutdown.b, !old(self).exporter.poisoned ==> final(self).exporter.ex.down@ == 1, final(self).exporter.ex.got@ == old(self).exporter.ex.got@,
        old(self).exporter.poisoned ==> r is Err,
//@endfn
//@fn opentelemetry-sdk/src/logs/simple_log_processor.rs impl LogProcessor for SimpleLogProcessor<T> :: fn set_resource
//@sig fn set_resource(&mut self, resource: &Resource)
//@subst? Ok(mut exporter) ~> Ok(exporter)
//@contract
    ensures final(self).exporter.ex.res@ == (if old(self).exporter.poisoned { old(self).exporter.ex.res@ } else { old(self).exporter.ex.res@.push(*resource) }), final(self).exporter.ex.got@ == old(self).exporter.ex.got@,
//@endfn
}

fn main() {}
}
