#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one property per line)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                     observe_at=list(observe), hook_needed=hook)))

SLEEP, TIMER, GLOB, HEAP, LIST = "src/tokio/sleep.rs", "src/timer/mod.rs", "src/timer/global.rs", "src/timer/heap.rs", "src/timer/arc_list.rs"
DQ, WH, LV = "src/tokio_util/delay_queue.rs", "src/tokio_util/wheel/mod.rs", "src/tokio_util/wheel/level.rs"

p("C01", "A sleep never completes before its deadline",
  "A sleep (by duration or until an instant) is never reported complete, neither by polling ready nor by its elapsed flag, while the clock still reads earlier than its deadline. This holds whatever other timers are created, polled, reset or dropped meanwhile, and however early, late or batched the host runs its timer callbacks.",
  ["histories", "schedules"], "All bounded histories of create/poll/reset/drop on several sleeps, interleaved with every bounded schedule of host timer callbacks (early, punctual, late).",
  "The tests sample a few fixed histories of one sleep under a paused mock clock; no test runs the production driver, several sleeps, or a host that calls back early or late.",
  [SLEEP, TIMER, GLOB], [("expiry only up to now", "Timer::advance_to"), ("generation check before firing", "Timer::advance_to / Sleep::_reset"), ("updates processed before expiry", "schedule_callback")],
  [("state", "fired/invalidated bits and reset generation of one sleep", "ScheduledTimer::state")], ["Sleep::poll", "Sleep::is_elapsed", "performance.now"])

p("C02", "A waiting task is woken promptly once its deadline passes",
  "If a task polled a sleep and got pending, then on a host that runs its timers punctually the task is woken and the sleep polls ready within a few milliseconds of its deadline. This holds after any previous history: any number of timers created, completed or cancelled before, any number of event-loop turns, and earlier phases in which the host was late.",
  ["histories", "schedules"], "All bounded histories of timer operations and host callbacks, including long backlogs of earlier timers, each continued by a punctual host.",
  "Tests drive the paused mock clock, where every operation runs the driver synchronously; the chain of host timeouts that production relies on is never exercised, let alone after a history that leaves many callbacks outstanding.",
  [GLOB, TIMER, SLEEP], [("the next host timeout follows the earliest deadline", "schedule_callback"), ("driver woken on every update", "Sleep::new_handle / Sleep::_reset"), ("waker registered before the state is re-checked", "Sleep::poll")],
  [("outstanding callbacks", "host timeouts that will run the driver", "src/timer/global.rs")], ["waker invocations", "setTimeout calls"])

p("C03", "After a reset only the latest deadline counts",
  "Resetting a sleep, whether pending or already complete, makes the new deadline the only one that counts: it is the one reported, the sleep is pending until it, and completes at it. A superseded deadline never completes the sleep, however many resets happened and wherever they fall relative to the host's callbacks.",
  ["histories", "schedules"], "All bounded sequences of resets (earlier, later, into the past) interleaved with polls and host callbacks at every position.",
  "Two tests reset once, under the mock clock; resets that race an in-flight host callback or follow one another are not tested.",
  [SLEEP, TIMER], [("generation bump clears the fired bit", "Sleep::_reset"), ("update replaces the queued entry", "Timer::update_or_add")], [], ["Sleep::deadline", "Sleep::poll", "Sleep::is_elapsed"])

p("C04", "Concurrent timers are independent and complete in deadline order",
  "With any number of sleeps outstanding, each completes at its own deadline, and they complete in deadline order whatever order they were created in. Dropping or rescheduling some of them, at any point, never delays, hastens, loses or revives another.",
  ["histories", "inputs"], "All creation orders of several sleeps, batched in every way over event-loop turns, followed by every choice of cancellations and reschedulings.",
  "The heap's unit tests push and pop a few fixed sequences and remove one element once; the orders and removals that reshape a heap are factorially many.",
  [HEAP, TIMER, LIST], [("arbitrary removal from the heap", "Heap::remove / percolate_up / percolate_down"), ("slots track positions", "Heap index"), ("every queued update is delivered", "ArcList::push / take / pop")], [], ["Sleep::is_elapsed", "waker invocations"])

p("C05", "The right task is woken, and re-entrancy from a waker is safe",
  "When a sleep completes, the waker given to its most recent poll is invoked, even if earlier polls used other wakers. A sleep that was dropped never wakes anyone for a deadline after the drop, and user code run from inside a waker may freely create, poll, reset and drop timers without deadlock or panic.",
  ["histories", "schedules"], "All bounded sequences of polls with different wakers, drops and resets around host callbacks, and all single timer operations performed from inside a wake.",
  "All tests poll with a no-op waker and then poll again by hand; none observes who is woken.",
  [SLEEP, TIMER, GLOB], [("latest waker replaces the former", "AtomicWaker in ScheduledTimer"), ("driver lock not needed by timer operations", "schedule_callback / Sleep")], [], ["waker invocations"])

p("C06", "Completed and dropped timers retain nothing",
  "Once a sleep, timeout, interval or delay queue has been dropped and the event loop has turned, no clone of any task waker it was given remains alive, and repeating the same create/use/drop cycle any number of times does not grow memory. Wakers of completed sleeps are released as soon as they have been woken.",
  ["histories"], "All bounded use/drop cycles of each timer type, repeated, with every placement of event-loop turns between the steps.",
  "No test looks at waker or memory lifetimes; leaks are invisible to functional assertions.",
  [SLEEP, TIMER, LIST, DQ], [("drop unregisters through the update list", "Sleep::drop / Timer::remove"), ("reference counts handed through raw pointers", "ArcList::push / pop, TimerHandle")], [], ["live waker clones", "live heap blocks"])

p("C07", "Host timers are used sparingly and never in a busy loop",
  "The number of host callbacks run and of host timeouts outstanding stays bounded by the timer operations performed plus a small constant rate while idle; the driver never spins on immediate host timeouts while the next deadline is far away. This includes deadlines beyond the host's 31-bit millisecond limit (about 24.8 days).",
  ["histories", "inputs"], "All bounded mixes of short and long timers, up to and beyond the host's limit, observed over a window of host time.",
  "Nothing in the tests counts host timeouts; under the paused clock none are scheduled.",
  [GLOB], [("one follow-up timeout per callback", "schedule_callback"), ("conversion of the wait to the host's range", "schedule_callback")], [], ["setTimeout calls", "callbacks run"])

p("C08", "Timeout yields the value or, only after the deadline, an error",
  "A timeout polls the wrapped future first on every poll: if it is ready the value is returned, even when the deadline has passed. It fails with an elapsed error only when the deadline has passed and the future is still pending; the waiting task is woken for whichever of the two comes first, and the wrapped future is never polled after completion. Taken back out of the timeout, it is handed over as it was, and the deadline no longer wakes anyone.",
  ["histories", "schedules"], "All bounded interleavings of polls, completion of the inner future (before, at, after the deadline) and host callbacks, including nested timeouts and relative or absolute deadlines.",
  "Four tests with one fixed order each, by hand-polling under the mock clock.",
  ["src/tokio/timeout.rs", SLEEP, "src/tokio/error.rs"], [("inner future first", "Timeout::poll")], [], ["Timeout::poll"])

p("C09", "Interval ticks follow the schedule exactly when none is missed",
  "An interval's first tick is due at its start and each following tick exactly one period after the previous one; a tick is never delivered before it is due, its reported instant is the instant it was due, and each due tick is delivered exactly once and wakes the waiting task. After a manual reset the next tick is due one period from the reset.",
  ["histories", "schedules"], "All bounded histories of polls (including spurious ones), resets and host time, for several periods and start offsets.",
  "Tests check that a tick is ready but never its reported instant, and only in fixed sequences under the mock clock.",
  ["src/tokio/interval.rs", SLEEP], [("deadline chained from the previous deadline", "Interval::poll_tick"), ("reset from now", "Interval::reset")], [], ["Interval::poll_tick", "Interval::period"])

p("C10", "Missed ticks follow the selected policy",
  "When a tick is observed more than the tolerance late, the next tick is due, with Burst, one period after the missed one; with Delay, one period after the moment of observation; with Skip, at the first multiple of the period from the original schedule that is still to come. Changing the policy at any time affects exactly the ticks observed afterwards.",
  ["histories", "inputs"], "All bounded sequences of delays around the tolerance and multiples of the period, for each policy and every point of changing it.",
  "Three tests sample one delay per policy and only check readiness.",
  ["src/tokio/interval.rs"], [("policy arithmetic", "MissedTickBehavior::next_timeout"), ("lateness test", "Interval::poll_tick")], [], ["Interval::poll_tick"])

p("C11", "A delay queue yields every item exactly once, in order, never early",
  "Every inserted item leaves a delay queue exactly once: yielded with its own value, key and deadline, or handed back by a removal, or dropped with the queue or by clearing it. An item is never yielded before the deadline it was last given, the reported deadline is that one rounded up to the next millisecond, and among items present together those with earlier deadlines are yielded first.",
  ["histories", "schedules"], "All bounded sequences of insert/insert_at/reset/remove/clear/poll, interleaved with host time and callbacks.",
  "Six tests with up to four items in fixed order; all with unit values, so not even the identity of the yielded item is checked.",
  [DQ, WH, LV], [("expired entries and timing wheel", "DelayQueue::poll_idx / Wheel::poll"), ("linked lists through the slab", "Stack::push / pop / remove")], [], ["DelayQueue::poll_expired", "Expired"])

p("C12", "A task waiting on a delay queue is woken for the earliest item",
  "When a poll of a delay queue is pending, the polling task is woken and the next poll yields within a few milliseconds after the earliest deadline among the items present at that time, on a punctual host. Insertions of an earlier item, resets and removals made after the poll are taken into account. A poll of an empty queue reports the end of the stream and never stays pending, and a task waiting on a queue that removals or clearing leave empty is woken to see that end.",
  ["histories", "schedules"], "All bounded sequences of queue modifications made while a task is waiting, with the task polling only when woken.",
  "Tests poll by hand with a no-op waker, so a missing wake-up cannot be seen.",
  [DQ, SLEEP, GLOB], [("delay kept at the next expiration", "DelayQueue::insert_at / remove / reset_at / poll_idx"), ("stored waker", "DelayQueue::poll_expired")], [], ["waker invocations", "DelayQueue::poll_expired"])

p("C13", "Delay-queue keys stay valid and bookkeeping stays exact",
  "A key returned by an insertion designates its item until that item leaves the queue, across any number of other insertions, removals, resets and storage compactions, shrinks or reservations; distinct live items have distinct keys. Length, emptiness and capacity agree with the set of items present, removing a key returns that key's item, trying an absent key returns nothing, removing or resetting it is refused, and clearing empties the queue for good.",
  ["histories"], "All bounded sequences of queue operations including compact/shrink/reserve/clear.",
  "No test calls compact, shrink, reserve, clear, try_remove or len.",
  [DQ], [("key remapping after compaction", "SlabStorage::compact / insert / remove / remap_key")], [], ["DelayQueue::remove / try_remove / len / capacity"])

p("C14", "Delay-queue expiry is exact for every delay and queue age",
  "For any delay within the supported horizon (about 2^36 ms from the last item that expired) and however long the queue has been in use, an item expires in the millisecond of its deadline: neither earlier nor held back by the internal granularity of far deadlines. Resetting or removing items whose deadlines lie anywhere in that range works at any later time.",
  ["inputs", "histories"], "All pairs of queue age and delay from the boundary values of every level of granularity (powers of 64 and their neighbours), combined with resets and removals.",
  "Unit tests check only the slot and level arithmetic from age zero; no test lets a queue age or crosses a level boundary.",
  [WH, LV, DQ], [("hierarchical wheel", "Wheel::insert / poll / remove, level_for, slot_for"), ("cascading", "Wheel::poll_expiration")], [], ["DelayQueue::poll_expired"])

p("C15", "The mock clock is monotone, frozen while paused, and exact",
  "With the test utilities, time read from the clock never goes backwards; while paused it stands still whatever the host clock does, except that advancing moves it by exactly the given amount; pausing and resuming are continuous, and while running it moves with the host clock. Pausing twice, resuming a running clock and advancing a running clock are refused.",
  ["histories"], "All bounded sequences of pause/resume/advance/host time/reads.",
  "Tests pause once and never resume.",
  ["src/timer/clock.rs", "src/tokio/test_utils.rs", "src/std.rs"], [("base plus unfrozen offset", "Clock::now / pause / resume / advance")], [], ["Instant::now"])

p("C16", "While paused, advancing fires exactly the timers that became due",
  "With the clock paused, every timer, whether created while paused or before, completes by the time an advance past its deadline returns, and not before; for timers created or changed inside a waker, the same holds once the event loop has turned. Intervals, timeouts and delay queues driven only by advances see the same deadlines as with real time, and after resuming all remaining timers complete on schedule.",
  ["histories", "schedules"], "All bounded sequences of pause/resume/advance, timer operations and host callbacks.",
  "Each test pauses at start and advances past one deadline; no test resumes, advances in pieces around a deadline, or has timers older than the pause.",
  ["src/tokio/test_utils.rs", GLOB, TIMER], [("advance wakes the driver synchronously", "test_utils::advance / schedule_callback")], [], ["Sleep::is_elapsed", "waker invocations"])

p("C17", "Instant arithmetic is exact, ordered and overflow-safe",
  "Adding and subtracting durations to instants is exact to the nanosecond and consistent with comparison, equality and differences; the checked forms return nothing precisely when the result is not representable, the plain operators panic in exactly those cases, and differences saturate at zero when the order is reversed.",
  ["inputs"], "All combinations of boundary instants and durations and all bounded chains of operations on them.",
  "No test covers Instant arithmetic beyond one subtraction.",
  ["src/std.rs"], [("checked Duration arithmetic", "impl Instant")], [], ["Instant operators"])

p("C18", "Instant::now follows the host's monotonic clock to the microsecond",
  "Successive readings of the clock never decrease, never run ahead of the host's high-resolution clock, and lag it by no more than one microsecond (plus the host's own resolution). The elapsed time of an instant is the difference between two such readings.",
  ["inputs", "histories"], "All host clock readings from a set covering zero, sub-microsecond fractions, integers, large uptimes and repeated values, in all bounded non-decreasing sequences.",
  "One test checks a single microsecond difference on the mock clock.",
  ["src/std.rs", "src/js.rs"], [("milliseconds as f64 to whole microseconds", "Instant::now_js")], [], ["Instant::now", "Instant::elapsed"])

p("C19", "SystemTime arithmetic agrees with the calendar clock",
  "The current system time is the host's wall-clock time, and adding, subtracting and measuring durations is exact for whole milliseconds over the host's whole date range, before and after the epoch (spans up to 2^53 ms). A difference taken the wrong way round is an error carrying the positive gap, and comparison agrees with the sign of the difference.",
  ["inputs"], "All combinations of boundary wall-clock times and durations and all bounded chains of operations on them.",
  "No test covers SystemTime arithmetic.",
  ["src/std.rs"], [("f64 milliseconds", "impl SystemTime")], [], ["SystemTime operators"])

p("C20", "Serialized system times round-trip and bad input is rejected",
  "A system time at or after the epoch serializes to seconds and nanoseconds since the epoch and deserializes to an equal value, in struct and in sequence form; one before the epoch fails to serialize. Any malformed input (missing, duplicate or unknown field, wrong type or length, overflow) yields an error: never a panic and never a wrong time.",
  ["inputs"], "All documents built from a small grammar of fields, values and shapes, and all boundary times.",
  "One test round-trips the current time once.",
  ["src/std.rs"], [("serde implementations", "impl Serialize / Deserialize for SystemTime")], [], ["serde_json", "serde value deserializers"])

p("C21", "Extreme durations neither panic nor fire",
  "Sleeping, timing out or ticking with a very long duration, up to the largest representable one, is accepted: it does not panic, does not complete within any observable time, and does not disturb other timers. Deadlines in the past and zero durations complete at the next opportunity.",
  ["inputs", "histories"], "All timer constructors and resets with durations from zero over the host's limit up to the maximum, combined with ordinary timers.",
  "Tests use durations between 0.4 ms and 2 s only.",
  [SLEEP, "src/tokio/timeout.rs", "src/tokio/interval.rs", GLOB], [("deadline computation", "Sleep::new / Interval::poll_tick"), ("conversion of the wait", "schedule_callback")], [], ["sleep / timeout / interval", "setTimeout calls"])

p("C22", "Timer updates from other threads are neither lost nor misapplied",
  "Sleeps may be created, reset, polled and dropped by threads other than the one running the timer driver: every update reaches the driver exactly once, a sleep never completes for a superseded deadline or stays asleep past its last one, and no memory is used after it is freed, for every interleaving of the threads.",
  ["schedules"], "All interleavings, up to a preemption bound, of two or three threads performing one to three timer operations each against the driver.",
  "All tests are single-threaded.",
  [LIST, TIMER, SLEEP], [("lock-free intrusive list", "ArcList::push / take / pop"), ("generation protocol", "Sleep::_reset / Timer::update_or_add / advance_to"), ("one-time global initialisation", "TimerHandle::default / set_as_global_fallback")], [], ["ArcList", "Sleep", "Timer"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
import jsonschema
sch = json.load(open("/root/.vp/PROPERTIES.schema.json")) if os.path.exists("/root/.vp/PROPERTIES.schema.json") else {}
for x in P:
    jsonschema.validate(x, sch)
print(len(P), "properties")
