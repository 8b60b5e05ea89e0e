#!/usr/bin/env python3
"""Writes properties.jsonl (the single source for the property list)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

SEAM = "src/sim.rs via src/shim.rs (locks, atomics, parking, clock), --cfg quick_cache_sim"
SP = "src/sync_placeholder.rs"; SH = "src/shard.rs"; SY = "src/sync.rs"; UN = "src/unsync.rs"; SL = "src/linked_slab.rs"

p("C01", "Per-key coherence: concurrent operations linearize like a map",
  "For every key, all concurrent lookups, inserts, replaces, removes, retains, clears and completed loads on a shared cache take effect in one order consistent with real time, and each lookup or removal returns what that order left stored under that key: never a value of another key (even if hashes collide), never an overwritten, removed or never-stored one (a caller that waited for a load may instead receive that load's value directly). A value may disappear by eviction, but once gone it never reappears without being stored again. In a cache with room for everything ever stored, nothing disappears by itself.",
  ["schedules", "histories", "configurations"], "all interleavings of any number of threads and tasks, all operation histories, shard counts, capacities and hash functions",
  "The only multi-threaded map test inserts v=k everywhere, so stale or resurrected values cannot be told apart, and it samples whatever the OS scheduler happens to do.",
  [SY, SH, SL], [("one RwLock per shard, one shard per hash", SY + " shard_for"), ("search/search_resident match the key, not just the hash", SH), ("slot reuse in the slab", SL)],
  [("map/entries", "token table and slab of resident/placeholder/ghost entries", SH)], ["return values of the public API"], SEAM)
p("C02", "At most one loader per key at a time",
  "While a caller holds the right to load a key (a guard, or its running get_or_insert loader), no other caller, thread or async task, is granted the right to load that key, unless the key was inserted, removed or cleared in the meantime. The right moves on, to exactly one waiting caller, only after the holder fails, panics, is cancelled or drops the guard.",
  ["schedules", "fault_sequences", "histories"], "all interleavings of sync, timed and async callers, with any loader outcome and any timeouts/cancellations",
  "Tests count loaders for one key under the OS scheduler; the windows (time-out racing a hand-over, cancellation of a notified task) are a few instructions wide.",
  [SP, SH, SY], [("placeholder entry marks an in-flight load", SH + " upsert_placeholder"), ("waiter list hand-over on abandonment", SP + " drop_uninserted_slow"), ("guards identified by placeholder identity", SP + " same_as")],
  [("Placeholder.state", "waiters + Loading/Inserted/Terminated", SP)], ["guards and loader invocations"], SEAM)
p("C03", "No waiter is ever stranded",
  "Every thread or async task waiting for someone else's load returns within a bounded number of scheduling steps after that load ends, however it ends (value stored, error, panic, guard dropped, task cancelled) and whichever other waiters time out or are cancelled meanwhile: no lost wake-up, deadlock, livelock or internal panic. An async wait waits by returning Pending, never by blocking or spinning in poll. A panic in one caller's own code (its loader, or copying the key or value for it) reaches that caller alone. The key stays usable afterwards.",
  ["schedules", "fault_sequences"], "all interleavings and all sequences of loader failures, panics, time-outs, cancellations and spurious wake-ups; progress measured once faults stop",
  "A lost wake-up needs one particular interleaving; a hanging test is also indistinguishable from a slow one under a real clock.",
  [SP, SY], [("notification flag + unpark / waker under the state lock", SP + " Waiter::notify"), ("waiters only added under the shard lock", SP + " join_internal"), ("hand-over to one waiter on abandonment", SP + " drop_uninserted_slow")],
  None, ["termination of every call"], SEAM)
p("C04", "A load runs once and everyone waiting for it gets its value",
  "When a loader stores a value, every caller that was waiting for that load receives exactly that value (or its own time-out), even if the value is not admitted or is evicted, replaced or removed at once, and none of them loads again. In a cache with room and without invalidation, each key is successfully loaded exactly once however many callers race and however many earlier attempts fail. A lookup-or-load call returns either what its own loader produced or a value stored or loaded for that key.",
  ["schedules", "fault_sequences", "histories"], "all interleavings of loaders, waiters and late arrivals, all sequences of failed attempts before the success",
  "Tests use one constant value for all loads, so a waiter receiving a wrong or stale value would not be noticed, and never combine waiting with eviction or rejection.",
  [SP, SH], [("value published in the placeholder before the shard is updated", SP + " insert_with_lifecycle"), ("late arrivals read the published value", SP + " join_internal")],
  [("LoadingState::Inserted", "value kept for waiters", SP)], ["values returned to waiters, number of loader runs"], SEAM)
p("C05", "Timed waits neither give up early nor overstay their deadline",
  "A lookup with a timeout reports Timeout only after at least that much time has passed and only if someone else's load of the key was in progress; a caller still waiting at its deadline returns then, not later by more than scheduling delay, whatever spurious wake-ups or clock leaps occur. A call without timeout never reports Timeout. A caller that timed out leaves nothing behind: the load is never handed to it and other callers are unaffected.",
  ["schedules", "fault_sequences", "inputs"], "all timeouts, all interleavings of the deadline with completion/hand-over, spurious unparks and clock leaps",
  "The one timed test uses 1 ms real timeouts and accepts any outcome; elapsed time is never asserted, and cannot be under a real clock.",
  [SP], [("park_timeout loop with re-check under the state lock", SP + " join"), ("removal from the waiter list", SP + " join")],
  None, ["GuardResult::Timeout and the simulated clock"], SEAM)
p("C06", "Cancelling an async wait or load at any point is harmless",
  "Dropping an async lookup-or-load future at any point (before its first poll, while waiting, after it was woken but before it is polled again, or while its loader runs) never strands other waiters, never leaves the key blocked and never loses a hand-over or a published value. Spurious polls and waker changes between polls never lose a wake-up: the waker of the latest poll is the one notified.",
  ["schedules", "fault_sequences"], "all cancellation points against all interleavings of completion, hand-over and other waiters",
  "Cancellation tests rely on a 1 ms tokio timeout to hit the notified-but-not-polled state by luck; waker changes are never tested.",
  [SP], [("drop of a pending future unregisters or passes the hand-over on", SP + " drop_pending_waiter"), ("waker refreshed on every poll", SP + " JoinFuture::poll")],
  [("TaskWaiter.notified/waker", "notification state of a pending future", SP)], ["termination and results of remaining callers"], SEAM)
p("C07", "Resident weight never exceeds the weight capacity",
  "Whenever no write is in progress on a shard, the weight resident in it is at most its capacity (an equal share, rounded up, of the one configured), so weight() <= capacity() at every instant any thread can look; only pinned items may keep it above, and then at most one other weighing item (the one stored last) remains. Growing an item through a mutable reference (single-threaded cache) may leave it above until the next time a weighing item is stored, which restores the bound.",
  ["schedules", "histories", "configurations"], "all histories of inserts, replaces, loads, removals and weight changes from any number of threads; all capacities, weights, hot/ghost allocations and pin sets",
  "Tests never assert weight() against capacity(); the fuzz targets do, single-threaded only and outside the test suite.",
  [SH, SY, UN], [("evict-until-fits loops", SH + " insert, insert_existing, replace_placeholder"), ("overweight items refused", SH + " handle_insert_overweight")],
  [("weight_hot/weight_cold", "accounted weights", SH)], ["weight(), capacity(), items"], SEAM)
p("C08", "Every departure is reported once, to the request that caused it",
  "Each value evicted, refused or displaced by an insert, replace or completed load is passed to the eviction callback exactly once, with its own key, in the request that caused it; values handed back to the caller (removed, or returned as not stored) or still resident are never reported, and no stored value vanishes unreported except through remove, retain, clear, drain or dropping the cache. Every request is begun once; plain successful calls end it exactly once, after its evictions, while calls that return the request state or an error never end it.",
  ["schedules", "histories", "fault_sequences"], "all concurrent histories, capacities, weights and loader outcomes",
  "No test uses a custom lifecycle; the fuzz targets check double evictions within one request, single-threaded.",
  [SH, SY, SP, UN], [("on_evict at each removal site", SH + " advance_cold, advance_hot, insert_existing, handle_*overweight*"), ("begin_request/end_request pairing", SY + ", " + SP + ", " + UN)],
  None, ["Lifecycle callbacks, values' fates"], SEAM)
p("C09", "Pinned and zero-weight items are never evicted",
  "An item that is pinned, or whose weight is zero (including one whose weight the before-eviction callback reduces to zero), is never evicted or refused whatever the pressure and however the load on other keys is interleaved; it leaves only through remove, overwriting, retain, clear or drain. Making room always terminates, even if everything is pinned or pins change while it runs.",
  ["histories", "schedules", "configurations"], "all histories and capacities, any mix of pinned/unpinned and zero/non-zero weights, pins toggled at any time by other threads",
  "One test covers one zero-weight key in a fixed sequence; pinning has no test at all.",
  [SH], [("pinned entries skipped by both clock hands", SH + " advance_cold, advance_hot"), ("zero-weight entries unlinked from the rings", SH + " insert_existing, cold_change_weight, advance_*")],
  None, ["eviction callbacks, lookups"], SEAM)
p("C10", "len(), weight() and is_empty() match the resident items exactly",
  "Whenever no operation is in flight, len() is the number of keys a lookup would find, weight() is the sum of their current weights, is_empty() agrees, and iterating or draining (single-threaded cache) yields exactly those items once each. This holds after any concurrent history of evictions, weight changes, overwrites, retains, clears, failed, panicking, cancelled or invalidated loads. While other calls are in flight, a size query's answer lies between the items there throughout it and those there at some time during it; a load in flight counts for nothing.",
  ["histories", "schedules", "fault_sequences"], "all histories and fault sequences, single- and multi-threaded",
  "Two tests compare weight() on two-item caches; len() is never compared after evictions or failed loads.",
  [SH, SL, UN], [("num_*/weight_* updates at every transition", SH), ("slab free list", SL)],
  [("num_hot/num_cold/weight_hot/weight_cold", "counters", SH)], ["len, weight, is_empty, iter, drain, peek"], SEAM)
p("C11", "Nothing is evicted or refused without capacity pressure",
  "A request evicts items only if the weight resident in the shard plus the incoming item's would exceed the shard's capacity (its equal share of the one configured, rounded up), and refuses an item only under such pressure or if it is heavier than the hot share of that capacity. So a working set that fits is never lost; lookups, removals, failed loads and abandoned guards never evict anything. Nor is more evicted than it takes: nothing once what remains, with the incoming item, is within the hot share, and where items of equal weight are only inserted and no key returns after its eviction, a full cache stays full (one out per one in).",
  ["histories", "schedules", "configurations"], "all histories, capacities, weights and allocations",
  "Tests only check that a handful of items survive in a nearly empty cache.",
  [SH], [("eviction only inside the over-capacity loops", SH + " insert, insert_existing, replace_placeholder")],
  [("weight_target_hot", "hot share of the capacity", SH)], ["eviction callbacks"], SEAM)
p("C12", "Nothing leaks: keys and values are dropped once, memory stays bounded",
  "Every key and value handed to a cache is dropped exactly once, and when no call is in flight the cache holds no key or value other than those of resident items: failed, abandoned, cancelled or invalidated loads leave nothing behind. Under endless churn the memory a cache holds stays bounded by its capacity, ghost allotment and concurrency, not by the number of past operations.",
  ["histories", "schedules", "fault_sequences"], "all histories with abandoned, failing, panicking and cancelled loads, of any length",
  "No test counts drops or measures memory; a leak of one slot per failed load passes every test.",
  [SH, SL, SP, UN], [("slot returned to the free list on every removal", SL + " remove"), ("ghost list trimmed", SH + " advance_ghost"), ("placeholder removal", SH + " remove_placeholder")],
  None, ["destructor counts, allocator byte counts"], SEAM)
p("C13", "User code that may call back runs with no cache lock held",
  "Loaders (closures, futures and code holding a guard), end-of-request callbacks, and the destructors of a value returned by remove and, under the default lifecycle, of the value an insert displaces or evicts (when it is just one) run with no lock of the cache held. They may use the same cache, for other keys even to load, from any number of threads without deadlock.",
  ["schedules", "programs"], "all interleavings of callers whose loaders, callbacks and destructors re-enter the cache, same or other shard",
  "No test re-enters the cache from a loader, callback or destructor.",
  [SY, SP], [("evicted item stashed and dropped after unlocking", SY + " DefaultLifecycle"), ("loader invoked between the two critical sections", SY + " get_or_insert_with"), ("end_request after unlocking", SY + ", " + SP)],
  None, ["termination"], SEAM)
p("C14", "Hit and miss counters are exact",
  "With statistics enabled, every get adds exactly one to hits if it returned a value and exactly one to misses otherwise, from any number of threads at once; peeks, existence checks, inserts, replaces, removals and bulk operations add nothing.",
  ["schedules", "histories"], "all interleavings of gets with each other and with writers",
  "The statistics feature has no test.",
  [SH, SY, UN], [("atomic counters bumped under the shared lock", SH + " record_hit!/record_miss!")],
  [("hits/misses", "per-shard counters", SH)], ["hits(), misses()"], SEAM)
p("C15", "Peeks, size queries and soft replaces do not influence eviction",
  "peek, contains_key, len, weight, is_empty and capacity never change what is evicted later: adding any number of them, from any threads, to a history leaves every result and every eviction of that history the same. A soft replace with a value of the same weight changes the value but nothing about which items are evicted later; reserve and a replace of a key that isn't there change nothing at all.",
  ["schedules", "histories"], "all base histories and all ways of interleaving observers with them",
  "No test observes eviction order.",
  [SH, SY], [("peek/contains do not touch the reference counter", SH), ("soft replace keeps counter and position", SH + " insert_existing")],
  [("Resident.referenced", "use counter", SH)], ["eviction callbacks"], SEAM)
p("C16", "retain and clear remove exactly what they should, concurrently too",
  "retain removes an item only if the predicate returned false for that very key and value, and every item resident throughout the call for which it is false is gone when it returns; a panicking predicate (default, non-poisoning lock) leaves all other items intact and the cache usable. clear removes every item stored before it was called. Neither disturbs items stored meanwhile by others; retain leaves in-flight loads untouched, and after either, waiters of in-flight loads still get their results.",
  ["schedules", "histories", "fault_sequences"], "all interleavings of bulk operations with writers, loaders and waiters on every shard; predicate panics at any item",
  "retain is tested single-threaded on ten items; clear has no test.",
  [SY, SH], [("shard-by-shard exclusive lock", SY + " retain, clear"), ("predicate evaluated before removal", SH + " retain"), ("placeholders detached by clear", SH + " drain")],
  None, ["lookups, predicate calls"], SEAM)
p("C17", "Invalidating a key beats its in-flight load",
  "If a key is removed, inserted or cleared while a load of it is in flight, the value that load later delivers is not stored: the insertion reports failure handing the value back and does not overwrite or resurrect anything. Otherwise the insertion succeeds: it never fails on a key that was not invalidated since the load began.",
  ["schedules", "histories"], "all placements of removes, inserts and clears relative to loads and hand-overs, including slot reuse and colliding hashes",
  "No test invalidates a key during a load.",
  [SP, SH], [("placeholder identity check", SH + " replace_placeholder"), ("insert/remove/clear replace the placeholder entry", SH + " insert_existing, remove_internal, drain")],
  None, ["result of guard insert, later lookups"], SEAM)
p("C18", "Single-threaded cache: failed loads leave no trace, the rest acts as a map",
  "In the single-threaded cache a load that fails, panics or whose guard is dropped changes nothing observable: no item, no size or weight, no retained key, no eviction, and the next load of that key runs its own loader. Every history of its other operations (mutable borrows that change weight, iteration, partial drains, clones, retain) agrees with an ordinary map that additionally loses exactly the items reported evicted.",
  ["histories", "fault_sequences"], "all histories with loader errors, loader panics, dropped guards, panicking predicates, partially consumed drains",
  "Tests run a few successful calls; errors are returned once but the state afterwards is never inspected, and panics are not tested.",
  [UN, SH, SL], [("guard removes its placeholder on drop", UN + " Guard::drop"), ("weight re-accounted when a mutable borrow ends", SH + " RefMut::drop")],
  None, ["public API of unsync::Cache"], "none (faults are injected through closures)")
p("C19", "Scans do not flush the hot set; fetched items outlive unfetched ones",
  "With unit weights and a hot share smaller than the capacity, a working set no larger than the hot share, inserted first into an empty cache (whatever its past) and fetched at least once each, loses no item to any stream of fresh keys that are stored but never fetched, by insert or by load, from any number of threads, or in the single-threaded cache. Items on probation (inserted when the hot share was full) that were fetched survive a stream of fresh inserts if at least as many of the hot items were never fetched. Giving a fetched item a new value costs it nothing of this, and a key loaded while another caller was waiting for that load counts as fetched. A key evicted from probation and stored again, by insert or by load, while still within the ghost allotment survives such a stream as well (if the hot share leaves room for at least two on probation).",
  ["schedules", "histories", "configurations"], "all scan lengths, interleavings of scanners and readers, capacities and allocations",
  "No test observes which items are evicted.",
  [SH], [("cold items evicted before hot ones", SH + " advance_cold"), ("promotion when referenced", SH + " advance_cold"), ("ghost hit enters hot", SH + " insert_existing, upsert_placeholder")],
  [("hot/cold/ghost lists", "three clock rings", SH)], ["eviction callbacks, lookups"], SEAM)
p("C23", "Lookups never hold each other up, shards never hold up other shards",
  "Lookups (get, peek, contains_key, found or not, and the hits of the lookup-or-load calls) and size queries of any number of threads proceed side by side: one stopped at any point, by the scheduler or in the user's hash, equality or clone code, never keeps another from finishing. A caller stopped inside any call, also one over the whole cache, holds up only callers of the shard it is working on; the keys are spread over all shards. A caller busy in its loader or with a guard holds up nobody but the callers waiting for that very key's load.",
  ["schedules", "fault_sequences", "configurations"], "all points at which a caller can be stopped for any length of time, all calls of the others",
  "Tests never stop a thread inside a call; a lookup that takes the exclusive lock or a bulk call that holds every shard at once passes them all, only slower.",
  [SY, SP, SH], [("shared lock for lookups", SY + " get, peek, contains_key, get_value_or_guard"), ("one lock per shard, one shard at a time", SY + " retain, clear, len"), ("no lock held while loading", SY + " get_or_insert_with")],
  None, ["termination of the other callers' calls while one is stopped"], SEAM)
p("C20", "Hit ratio close to the state of the art",
  "On realistic traces the hit ratio is significantly better than LRU and comparable to W-TinyLFU.",
  ["inputs"], "statistical claim over real traces", "Needs the published traces; it is a benchmark result.",
  ["README.md", SH], [("S3-FIFO/Clock-PRO policy", SH)])
p("C21", "Capacity and shard arithmetic of the constructors is exact",
  "capacity() is at least the requested weight capacity and exceeds it by less than the shard count; the shard count is a power of two, at most the next one of the requested number; allocations outside [0,1] are refused.",
  ["configurations"], "all option values", "Tests construct five capacities.",
  ["src/options.rs", SY], [("rounding per shard", SY + " with_options")])
p("C22", "No undefined behaviour: no data race, no invalid access, panics or not",
  "No safe use of either cache leads to undefined behaviour, under the weak memory model of Rust, from any number of threads, and wherever the user's own code called by the library (hash, equality, clone, weight, lifecycle callbacks, loaders, predicates) panics: no conflicting unsynchronised accesses (data races), and every unchecked slab and pointer access is in bounds and refers to a live, initialised entry of the kind assumed; nothing is freed twice. Leaking a mutable reference (documented as unsafe) is excepted.",
  ["schedules", "programs", "fault points"], "all executions of the C11/Rust memory model", "Tests run on one strongly ordered machine, where an unsynchronised or invalid access usually goes unnoticed.",
  [SH, SL, SP], [("locks; Acquire/Release on the notification flag", SP), ("unreachable_unchecked after a checked match", SH), ("get_unchecked", SL)])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
