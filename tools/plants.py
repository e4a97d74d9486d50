AL='src/timer/arc_list.rs';TM='src/timer/mod.rs';HP='src/timer/heap.rs';SL='src/tokio/sleep.rs';TO='src/tokio/timeout.rs';IN='src/tokio/interval.rs';DQ='src/tokio_util/delay_queue.rs';LV='src/tokio_util/wheel/level.rs';WH='src/tokio_util/wheel/mod.rs';CL='src/timer/clock.rs';ST='src/std.rs';GL='src/timer/global.rs'
PLANTS=[]
def plant(id,prop,edits,needs,breaks,demo=None,**k): PLANTS.append(dict(id=id,prop=prop,edits=edits,needs=needs,breaks=breaks,demo=demo,**k))

plant('stale-fire','C01',[(TM,"""            match heap_timer
                .node
                .state
                .compare_exchange(bits, bits | 0b01, SeqCst, SeqCst)
            {
                Ok(_) => heap_timer.node.waker.wake(),
                Err(_b) => {}
            }
""","""            if heap_timer.node.state.fetch_or(0b01, SeqCst) & 0b11 == 0 {
                heap_timer.node.waker.wake();
            }
"""),(TM,"            let bits = heap_timer.gen << 2;\n","            let _ = heap_timer.gen;\n")],
'two sleeps due in the same driver turn, the first one\'s waker resets the second to a later deadline',
'the second sleep completes although its deadline is still far away',
'''
use wasmtimer::tokio::sleep;
pub fn demo() {
    warm();
    let w1 = W::new();
    let a = Box::pin(sleep(ms(5)));
    let b = Rc::new(RefCell::new(Box::pin(sleep(ms(6)))));
    let mut a = a;
    let b2 = b.clone();
    let w0 = W::hooked(move || b2.borrow_mut().as_mut().reset(Instant::now() + ms(500)));
    let _ = poll(a.as_mut(), &w0);
    let _ = poll(b.borrow_mut().as_mut(), &w1);
    run(1_500.0);
    pass(20_000.0); // a busy host: both are overdue when the driver runs
    run(30_000.0);
    assert!(a.is_elapsed());
    let b = b.borrow();
    // whichever of the two was woken first: b is complete or has been reset
    let at = b.deadline();
    assert!(!b.is_elapsed() || Instant::now() >= at, "complete before its deadline");
}
use std::rc::Rc;
''')


plant('far-push-quiet','C02',[(SL,"""        inner.waker.wake();
        Sleep {""","""        // the timer looks for new deadlines every five seconds anyway
        if at <= Instant::now() + Duration::from_secs(5) {
            inner.waker.wake();
        }
        Sleep {""")],
'a sleep of more than 5 s created while the next earlier-known deadline is much further away',
'the sleep is only noticed when the far deadline is reached: its task is woken up to an hour late',
'''
use wasmtimer::tokio::sleep;
pub fn demo() {
    warm();
    let _far = Box::pin(sleep(Duration::from_secs(3600)));
    run(6_000_000.0);
    let w = W::new();
    let mut s = Box::pin(sleep(Duration::from_secs(7)));
    assert!(poll(s.as_mut(), &w).is_pending());
    run(7_050_000.0);
    assert!(w.woken() > 0, "not woken");
    assert!(poll(s.as_mut(), &w).is_ready());
}
''')

plant('stale-gen','C03',[(TM,"            let bits = heap_timer.gen << 2;\n","            let bits = heap_timer.node.state.load(SeqCst) & !0b11;\n            let _ = heap_timer.gen;\n")],
'a reset made by a waker in the same driver turn in which the superseded deadline is also due',
'the superseded deadline completes the sleep although it was reset to a later one',
'''
use std::rc::Rc;
use wasmtimer::tokio::{sleep, Sleep};
pub fn demo() {
    warm();
    let late = Rc::new(RefCell::new(Box::pin(sleep(ms(9)))));
    let l2 = late.clone();
    let first = W::hooked(move || l2.borrow_mut().as_mut().reset(Instant::now() + Duration::from_secs(2)));
    let mut a = Box::pin(sleep(ms(4)));
    let w = W::new();
    let _ = poll(a.as_mut(), &first);
    let _ = poll(late.borrow_mut().as_mut(), &w);
    run(2_000.0);
    pass(50_000.0);
    run(20_000.0);
    assert_eq!(first.woken(), 1);
    assert!(!late.borrow().is_elapsed(), "a superseded deadline completed the sleep");
    run(2_100_000.0);
    assert!(late.borrow().is_elapsed());
}
''')

plant('heap-sift','C04',[(HP,"""            if self.items[idx].0 < item {
                self.percolate_up(idx);
            } else {
                self.percolate_down(idx);
            }
""","""            self.percolate_down(idx);
""")],
'removing (dropping or resetting) a timer deep in one branch of the heap while the last element belongs to another branch with earlier deadlines',
'the heap order is lost: the driver panics, and every timer of the program with it',
'''
use wasmtimer::tokio::sleep;
pub fn demo() {
    warm();
    // heap array: 1 / 10 2 / 11 12 3 4 : dropping 11 moves 4 under 10
    let mut v = Vec::new();
    for d in [10u64, 100, 20, 110, 120, 30, 40] {
        v.push(Some(Box::pin(sleep(ms(200 + d)))));
        run(2_000.0);
    }
    v[3] = None;
    run(2_000.0);
    for (i, d) in [10u64, 100, 20, 0, 120, 30, 40].iter().enumerate() {
        if let Some(s) = &v[i] {
            assert!(!s.is_elapsed(), "{d}");
        }
    }
    run(400_000.0);
    assert!(v.iter().flatten().all(|s| s.is_elapsed()));
}
''')

plant('waker-cache','C05',[(SL,"""    state: Option<Arc<Node<ScheduledTimer>>>,
    deadline: Instant,
}
""","""    state: Option<Arc<Node<ScheduledTimer>>>,
    deadline: Instant,
    waiting: Mutex<Option<std::task::Waker>>,
}
"""),(SL,"""            None => {
                return Sleep {
                    state: None,
                    deadline: at,
                }
            }""","""            None => {
                return Sleep {
                    state: None,
                    deadline: at,
                    waiting: Mutex::new(None),
                }
            }"""),(SL,"""            return Sleep {
                state: None,
                deadline: at,
            };
""","""            return Sleep {
                state: None,
                deadline: at,
                waiting: Mutex::new(None),
            };
"""),(SL,"""            state: Some(state),
            deadline: at,
        }""","""            state: Some(state),
            deadline: at,
            waiting: Mutex::new(None),
        }"""),(SL,"""        state.waker.register(cx.waker());
""","""        // The same task polls over and over: do not clone its waker each time.
        let mut waiting = self.waiting.lock().unwrap();
        if !waiting.as_ref().map_or(false, |w| w.will_wake(cx.waker())) {
            *waiting = Some(cx.waker().clone());
            state.waker.register(cx.waker());
        }
""")],
'a sleep that completed, was reset and is polled again by the same task',
'the second deadline wakes nobody: the waker was consumed by the first one and not registered again',
'''
use wasmtimer::tokio::sleep;
pub fn demo() {
    warm();
    let w = W::new();
    let wk = waker(&w);
    let mut cx = Context::from_waker(&wk);
    let mut s = Box::pin(sleep(ms(5)));
    assert!(s.as_mut().poll(&mut cx).is_pending());
    run(20_000.0);
    assert_eq!(w.woken(), 1);
    s.as_mut().reset(Instant::now() + ms(5));
    assert!(s.as_mut().poll(&mut cx).is_pending());
    run(20_000.0);
    assert_eq!(w.woken(), 2, "not woken after the reset");
}
''')

plant('drop-lingers','C06',[(SL,"""            *state.at.lock().unwrap() = None;
            if timeouts.list.push(state).is_ok() {
                timeouts.waker.wake();
            }
        }
    }
}
""","""            *state.at.lock().unwrap() = None;
            // nothing is due: the timer forgets the node at its next turn
            let _ = timeouts.list.push(state);
        }
    }
}
""")],
'a pending sleep dropped while the next deadline of the program is far away',
'the waker of the dropped sleep (and with it its task) stays alive until the far deadline',
'''
use wasmtimer::tokio::sleep;
pub fn demo() {
    warm();
    let _far = Box::pin(sleep(Duration::from_secs(7200)));
    run(6_000_000.0);
    let w = W::new();
    let wk = waker(&w);
    let mut s = Box::pin(sleep(Duration::from_secs(9000)));
    assert!(s.as_mut().poll(&mut Context::from_waker(&wk)).is_pending());
    run(10_000.0);
    drop(wk);
    drop(s);
    run(60_000_000.0);
    assert_eq!(Arc::strong_count(&w), 1, "the dropped sleep's waker is still held");
}
''')

plant('slot-leak','C06',[(HP,"""            next: self.next_index,
        };
        let idx""","""            next: self.index.len(),
        };
        let idx""")],
'two timers removed before the next one is added, again and again',
'the heap\'s slot table grows without bound: a free slot is forgotten each time',
'''
use wasmtimer::tokio::sleep;
pub fn demo() {
    warm();
    let cycle = || {
        let a = Box::pin(sleep(ms(500)));
        let b = Box::pin(sleep(ms(600)));
        run(5_000.0);
        drop(a);
        drop(b);
        run(5_000.0);
    };
    for _ in 0..100 {
        cycle();
    }
    let m = core::arch::wasm32::memory_size(0);
    for _ in 0..20_000 {
        cycle();
    }
    assert!(core::arch::wasm32::memory_size(0) <= m + 2, "memory grew from {m} to {} pages", core::arch::wasm32::memory_size(0));
}
''')

plant('far-busy','C07',[(GL,"""            .unwrap_or(Duration::from_secs(5));
        drop(timer_lock);""","""            .unwrap_or(Duration::from_secs(5));
        // setTimeout drifts: approach deadlines that are days away in small steps
        let sleep_dur = if sleep_dur > Duration::from_secs(86400) {
            Duration::from_millis(100)
        } else {
            sleep_dur
        };
        drop(timer_lock);""")],
'the next deadline is more than a day away',
'the host runs ten or more callbacks a second although nothing is due for days',
'''
use wasmtimer::tokio::sleep;
pub fn demo() {
    warm();
    let _far = Box::pin(sleep(Duration::from_secs(3 * 86400)));
    let _other = Box::pin(sleep(Duration::from_secs(4 * 86400)));
    let f = fired();
    run(60_000_000.0);
    assert!(fired() - f < 100, "{} callbacks in an idle minute", fired() - f);
}
''')

plant('timeout-arm-once','C08',[(TO,"""    delay: Sleep,
    future: T,
}

impl<F> Timeout""","""    delay: Sleep,
    future: T,
    armed: bool,
}

impl<F> Timeout"""),(TO,"""            delay: Sleep::new(dur),
            future: fut,""","""            delay: Sleep::new(dur),
            future: fut,
            armed: false,"""),(TO,"""            delay: Sleep::new_at(at),
            future: fut,""","""            delay: Sleep::new_at(at),
            future: fut,
            armed: false,"""),(TO,"""        if self.delay().poll(cx).is_ready() {""","""        // the delay needs to know the task once; afterwards its flag is enough
        if self.armed && !self.delay.is_elapsed() {
            return Poll::Pending;
        }
        unsafe { self.as_mut().get_unchecked_mut() }.armed = true;

        if self.delay().poll(cx).is_ready() {""")],
'a timeout that is polled by one task and then by another (or by a combinator that makes a new waker per poll)',
'the deadline wakes the first waker only: the task that now waits is never told',
'''
use wasmtimer::tokio::timeout;
pub fn demo() {
    warm();
    let (w1, w2) = (W::new(), W::new());
    let mut t = Box::pin(timeout(ms(10), std::future::pending::<()>()));
    assert!(poll(t.as_mut(), &w1).is_pending());
    assert!(poll(t.as_mut(), &w2).is_pending());
    run(30_000.0);
    assert!(w2.woken() > 0, "the task that polled last was not woken");
    assert!(matches!(poll(t.as_mut(), &w2), Poll::Ready(Err(_))));
}
''')

plant('interval-snap','C09',[(IN,"""        let timeout = self.sleep.deadline();
        let now = Instant::now();
""","""        let now = Instant::now();
        // host timers are never exact: a tick within a millisecond counts as punctual
        let timeout = match self.sleep.deadline() {
            due if now > due && now - due < Duration::from_millis(1) => now,
            due => due,
        };
""")],
'ticks observed a fraction of a millisecond after they were due',
'the schedule drifts by that fraction at every tick, and the reported instants are not those that were due',
'''
use wasmtimer::tokio::interval_at;
pub fn demo() {
    warm();
    let start = Instant::now() + us(2_300);
    let mut iv = interval_at(start, us(10_400));
    for k in 0..50u32 {
        let due = start + us(10_400) * k;
        let mut n = 0;
        let t = loop {
            match iv.poll_tick(&mut Context::from_waker(Waker::noop())) {
                Poll::Ready(t) => break t,
                Poll::Pending => run(300.0),
            }
            n += 1;
            assert!(n < 1000);
        };
        assert_eq!(t, due, "tick {k}");
    }
}
''')

plant('skip-micros','C10',[(IN,"""                    - Duration::from_nanos(""","""                    - Duration::from_micros("""),(IN,"""                            .try_into()
""","""                            .div_euclid(1_000)
                            .try_into()
""")],
'the Skip policy with a period that is not a whole number of microseconds, and a missed tick',
'the next tick is off the original schedule by up to a microsecond per missed period (and periods under a microsecond panic)',
'''
use wasmtimer::tokio::{interval_at, MissedTickBehavior};
pub fn demo() {
    warm();
    let p = Duration::from_nanos(2_000_600);
    let start = Instant::now() + ms(1);
    let mut iv = interval_at(start, p);
    iv.set_missed_tick_behavior(MissedTickBehavior::Skip);
    let tick = |iv: &mut wasmtimer::tokio::Interval| loop {
        if let Poll::Ready(t) = iv.poll_tick(&mut Context::from_waker(Waker::noop())) {
            return t;
        }
        run(500.0);
    };
    run(10_000.0);
    for _ in 0..20 {
        let t = tick(&mut iv);
        let n = (t - start).as_nanos();
        assert_eq!(n % p.as_nanos(), 0, "tick {n} ns after the start is not on the schedule");
        run(131_000.0);
    }
}
''')

plant('policy-late','C10',[(IN,"""        self.missed_tick_behavior = behavior;""","""        if self.missed_tick_behavior != behavior && Instant::now() > self.sleep.deadline() {
            // the missed tick belongs to the old policy: start over with the new one
            let next = after(Instant::now(), self.interval);
            Pin::new(&mut self.sleep).reset(next);
        }
        self.missed_tick_behavior = behavior;""")],
'the policy is changed while a tick is overdue',
'the overdue tick is lost and the schedule shifted',
'''
use wasmtimer::tokio::{interval_at, MissedTickBehavior};
pub fn demo() {
    warm();
    let start = Instant::now() + ms(10);
    let mut iv = interval_at(start, ms(10));
    run(33_000.0);
    iv.set_missed_tick_behavior(MissedTickBehavior::Skip);
    let r = iv.poll_tick(&mut Context::from_waker(Waker::noop()));
    assert!(matches!(r, Poll::Ready(t) if t == start), "the overdue tick was not delivered: {r:?}");
}
''')

plant('expired-flag','C11',[(DQ,"""        self.slab[*key].expired = false;

        self.insert_idx""","""        self.insert_idx""")],
'an item inserted with a deadline already past is reset to a later one and then removed or reset again',
'the queue looks for it in the wrong list: a panic with debug assertions, lost or duplicated items without',
'''
use wasmtimer::tokio_util::DelayQueue;
pub fn demo() {
    warm();
    let mut q = DelayQueue::new();
    let a = q.insert("a", ms(0));
    let _b = q.insert("b", ms(0));
    q.reset(&a, ms(50));
    q.reset(&a, ms(80));
    let mut got = Vec::new();
    for _ in 0..200 {
        let mut cx = Context::from_waker(Waker::noop());
        match q.poll_expired(&mut cx) {
            Poll::Ready(Some(e)) => got.push(e.into_inner()),
            Poll::Ready(None) => break,
            Poll::Pending => run(1_000.0),
        }
    }
    assert_eq!(got, ["b", "a"]);
}
''')

plant('stack-unlink','C11',[(DQ,"""            store[next].prev = store[key].prev;
        }""","""            if store[key].prev.is_some() {
                store[next].prev = store[key].prev;
            }
        }""")],
'two items due in the same slot: the one inserted last is removed, then the other one and a third',
'the list of a slot keeps a link to the removed item: later operations panic or lose items',
'''
use wasmtimer::tokio_util::DelayQueue;
pub fn demo() {
    warm();
    let mut q = DelayQueue::new();
    let a = q.insert('a', ms(30));
    let b = q.insert('b', ms(30));
    q.remove(&b);
    let c = q.insert('c', ms(40));
    q.reset(&a, ms(40));
    q.reset(&a, ms(30));
    q.remove(&c);
    let mut got = Vec::new();
    for _ in 0..100 {
        let mut cx = Context::from_waker(Waker::noop());
        match q.poll_expired(&mut cx) {
            Poll::Ready(Some(e)) => got.push(e.into_inner()),
            Poll::Ready(None) => break,
            Poll::Pending => run(1_000.0),
        }
    }
    assert_eq!(got, ['a']);
}
''')

plant('queue-old-waker','C12',[(DQ,"""        if !self
            .waker
            .as_ref()
            .map(|w| w.will_wake(cx.waker()))
            .unwrap_or(false)
        {""","""        if self.waker.is_none() {""")],
'a queue polled by one task and then by another, then an item is reset to a deadline that has passed',
'the reset wakes the task that no longer waits; the one that does is never told',
'''
use wasmtimer::tokio_util::DelayQueue;
pub fn demo() {
    warm();
    let mut q = DelayQueue::new();
    let k = q.insert('z', ms(5_000));
    let (w1, w2) = (W::new(), W::new());
    assert!(q.poll_expired(&mut Context::from_waker(&waker(&w1))).is_pending());
    assert!(q.poll_expired(&mut Context::from_waker(&waker(&w2))).is_pending());
    q.reset_at(&k, Instant::now() - ms(10));
    run(40_000.0);
    assert!(w2.woken() > 0, "the task that waits was not woken for the item that is due now");
}
''')

plant('clear-keeps-map','C13',[(DQ,"""        self.key_map.clear();
        self.compact_called = false;""","""        self.compact_called = false;""")],
'a queue that was compacted, then cleared, then used again',
'keys of before the clear shadow the new ones: insertion hands out keys that do not lead to their items',
'''
use wasmtimer::tokio_util::DelayQueue;
pub fn demo() {
    warm();
    let mut q = DelayQueue::new();
    let keys: Vec<_> = (0..4).map(|i| q.insert(i, ms(1_000))).collect();
    q.remove(&keys[0]);
    q.compact();
    q.clear();
    let keys: Vec<_> = (10..14).map(|i| q.insert(i, ms(1_000))).collect();
    for (i, k) in keys.iter().enumerate() {
        assert_eq!(q.remove(k).into_inner(), 10 + i as i32);
    }
    assert!(q.is_empty());
}
''')

plant('remap-first','C13',[(DQ,"""            Some(internal_key) => self.inner.contains(internal_key.index),
            None => false,""","""            Some(internal_key) => self.inner.contains(internal_key.index),
            None => self.inner.contains(key.index),""")],
'a compacted queue asked to remove a key whose item is gone while another item occupies the same place',
'try_remove of an absent key panics instead of returning nothing',
'''
use wasmtimer::tokio_util::DelayQueue;
pub fn demo() {
    warm();
    let mut q = DelayQueue::new();
    let keys: Vec<_> = (0..3).map(|i| q.insert(i, ms(1_000))).collect();
    q.remove(&keys[0]);
    q.compact();
    assert!(q.try_remove(&keys[0]).is_none());
    assert_eq!(q.try_remove(&keys[2]).unwrap().into_inner(), 2);
    assert!(q.try_remove(&keys[2]).is_none());
    assert_eq!(q.len(), 1);
}
''')

plant('slot-usize','C14',[(LV,"((duration >> (level * 6)) % LEVEL_MULT as u64) as usize","((duration as usize) >> (level * 6)) % LEVEL_MULT")],
'an item more than 2^32 ms (49.7 days) after the queue was created',
'the slot of the highest level is computed from the low 32 bits on wasm32: the item expires early, late or not at all',
'''
use wasmtimer::tokio_util::DelayQueue;
pub fn demo() {
    warm();
    let mut q = DelayQueue::new();
    let day = 86_400_000_000.0;
    let t0 = now();
    q.insert('a', Duration::from_secs(60 * 86400));
    let mut last = 0.0;
    for _ in 0..2000 {
        let mut cx = Context::from_waker(Waker::noop());
        match q.poll_expired(&mut cx) {
            Poll::Ready(Some(_)) => {
                last = now() - t0;
                break;
            }
            Poll::Ready(None) => panic!("lost"),
            Poll::Pending => {
                pass(if now() - t0 < 59.9 * day { day / 3.0 } else { 60_000_000.0 });
                run(10_000.0);
            }
        }
    }
    assert!(last >= 60.0 * day, "yielded after {} days", last / day);
    assert!(last <= 60.0 * day + 61_000_000.0, "yielded after {} days", last / day);
}
''')

plant('pause-rounds','C15',[(CL,"""        (*base) += elapsed;""","""        // whole milliseconds, as everywhere in the timer
        (*base) += Duration::from_millis(elapsed.as_millis() as u64);""")],
'pausing the clock at a moment that is not a whole number of milliseconds after it was last resumed',
'the clock jumps back by the fraction when it is paused',
'''
use wasmtimer::tokio::{pause, resume};
pub fn demo() {
    let _ = Instant::now();
    pass(1_700.0);
    let a = Instant::now();
    pause();
    let b = Instant::now();
    assert!(b >= a, "the clock went back by {:?}", a - b);
    resume();
}
''',features=['tokio-test-util'])

plant('fair-turns','C16',[(TM,"""    pub fn advance_to(&mut self, now: Instant) {
        loop {
            match""","""    pub fn advance_to(&mut self, now: Instant) {
        // do not block the event loop: whatever is left is due at the next turn
        for _ in 0..32 {
            match""")],
'more than 32 timers that become due in one advance of the paused clock',
'the timers beyond the 32nd do not complete when the advance returns',
'''
use wasmtimer::tokio::{advance, pause, sleep};
pub fn demo() {
    pause();
    let v: Vec<_> = (0..50).map(|i| Box::pin(sleep(ms(10 + i)))).collect();
    let mut a = Box::pin(advance(ms(100)));
    assert!(noop(a.as_mut()).is_ready());
    let n = v.iter().filter(|s| s.is_elapsed()).count();
    assert_eq!(n, 50, "only {n} of 50 are complete");
}
''',features=['tokio-test-util'])

plant('add-wraps','C17',[(ST,"""        self.0.checked_add(duration).map(Instant)""","""        let sum = self.0.as_nanos() as u64;
        match u64::try_from(duration.as_nanos()) {
            Ok(d) => sum.checked_add(d).map(|n| Instant(Duration::from_nanos(n))),
            Err(_) => None,
        }""")],
'durations of more than 584 years, which are representable',
'checked_add returns nothing (and + panics) for sums that are representable',
'''
pub fn demo() {
    let a = Instant::now();
    let d = Duration::from_secs(600 * 365 * 86400);
    let b = a.checked_add(d).expect("representable");
    assert_eq!(b - a, d);
    assert_eq!(b - d, a);
}
''')

plant('ord-micros','C17',[(ST,"        self.0.partial_cmp(&other.0).unwrap()","        self.0.as_micros().cmp(&other.0.as_micros())")],
'two instants that differ by less than a microsecond',
'they compare equal in order but not in equality, and their difference is not zero',
'''
pub fn demo() {
    let a = Instant::now();
    let b = a + Duration::from_nanos(300);
    assert!(a < b && b > a);
    assert_eq!(a.max(b), b);
}
''')

plant('now-rounds','C18',[(ST,"let val = (performance_now() * 1000.0) as u64;","let val = (performance_now() * 1000.0).round() as u64;")],
'a host whose clock has fractions of microseconds, in the upper half',
'the clock reads a moment that has not come yet',
'''
pub fn demo() {
    let _ = Instant::now();
    perf(5_000_000.0);
    let a = Instant::now();
    perf(5_000_000.6);
    let b = Instant::now();
    assert!(b - a < us(1), "0.6 us passed, the clock says {:?}", b - a);
}
''')

plant('err-days','C19',[(ST,"Duration::from_millis(dur_ms.abs() as u64)","Duration::from_millis(-(dur_ms as i32) as u64)")],
'an earlier time that is more than 24.8 days in the future',
'the error reports a gap of at most 24.8 days',
'''
pub fn demo() {
    let a = SystemTime::now();
    let b = a + Duration::from_secs(40 * 86400);
    assert_eq!(a.duration_since(b).unwrap_err().duration(), Duration::from_secs(40 * 86400));
}
''')

plant('seq-overflow','C20',[(ST,"""                check_overflow(secs, nanos)?;
                Ok(Duration::new(secs, nanos))
            }

            fn visit_map""","""                Ok(Duration::new(secs, nanos))
            }

            fn visit_map""")],
'a time serialised as a sequence (a compact format) with seconds near the maximum and more than a second of nanoseconds',
'deserialising panics instead of returning an error',
'''
pub fn demo() {
    let r: Result<SystemTime, _> = serde_json::from_str("[18446744073709551615, 1000000000]");
    assert!(r.is_err());
    let r: Result<SystemTime, _> = serde_json::from_str("[1, 500000000]");
    assert_eq!(r.unwrap().duration_since(SystemTime::UNIX_EPOCH).unwrap(), ms(1_500));
}
''',features=['serde'])

# ---- C22: the demonstrations explore interleavings themselves

plant('half-flag','C13',[(DQ,"""        self.slab[*key].when = when;
        self.slab[*key].expired = false;

        self.insert_idx(when, *key);
""","""        self.insert_idx(when, *key);
        self.slab[*key].when = when;
        // still expired only if the new deadline has been reached, too
        self.slab[*key].expired = self.slab[*key].expired && when <= self.wheel_now;
""")],
'an item was yielded and the queue not polled since; another item is inserted that is overdue, then reset to a time between the queue\'s last advance and the yielded item\'s deadline, and removed',
'the item is in the wheel but is removed as if it were in the list of expired ones: a panic, or its slot keeps a dead key',
'''
use wasmtimer::tokio_util::DelayQueue;
pub fn demo() {
    warm();
    let t0 = Instant::now();
    let mut q = DelayQueue::new();
    q.insert('a', ms(4));
    run(6_000.0);
    let mut cx = Context::from_waker(Waker::noop());
    assert!(matches!(q.poll_expired(&mut cx), Poll::Ready(Some(e)) if *e.get_ref() == 'a'));
    let b = q.insert_at('b', t0);
    q.reset_at(&b, t0 + ms(3));
    assert_eq!(q.remove(&b).into_inner(), 'b');
    q.insert('c', ms(2));
    let mut got = Vec::new();
    for _ in 0..20 {
        match q.poll_expired(&mut cx) {
            Poll::Ready(Some(e)) => got.push(e.into_inner()),
            Poll::Ready(None) => break,
            Poll::Pending => run(1_000.0),
        }
    }
    assert_eq!(got, ['c']);
}
''')

CONC = "'warm/main/a3t/n2p;r4p' 'warm/main/a3t/n2p;r1r4' 'warm/main/a3t/n2p;d' 'warm/main/a3t/n2;p' 'warm/main/t/n2p;r1r4p' 'warm/own/t/;n2pd' 'warm/main/t/n2p;r4r1' 'cold/own/n2p/n2p' 'warm/own/n2p;r1t/n3p;r4t'"
plant('gen-byte','C03',[(SL,"                let new = bits.wrapping_add(0b100) & !0b11;\n","                // a generation only has to differ from the one before: eight bits are plenty\n                let new = bits.wrapping_add(0b100) & 0x3fc;\n")],
'256 resets of a sleep between two turns of the driver, made by a waker in the very turn in which its old deadline is also due',
'the generation comes round and the superseded deadline completes the sleep',
'''
use std::rc::Rc;
use wasmtimer::tokio::sleep;
pub fn demo() {
    warm();
    let late = Rc::new(RefCell::new(Box::pin(sleep(ms(9)))));
    let l2 = late.clone();
    let first = W::hooked(move || {
        for k in 0..256 {
            l2.borrow_mut().as_mut().reset(Instant::now() + ms(1_000 + k));
        }
    });
    let mut a = Box::pin(sleep(ms(4)));
    let w = W::new();
    let _ = poll(a.as_mut(), &first);
    let _ = poll(late.borrow_mut().as_mut(), &w);
    run(2_000.0);
    pass(50_000.0);
    run(20_000.0);
    assert_eq!(first.woken(), 1);
    assert!(!late.borrow().is_elapsed(), "a superseded deadline completed the sleep");
    run(1_400_000.0);
    assert!(late.borrow().is_elapsed());
}
''')

plant('reset-forgets','C05',[(SL,"            timeouts.list.push(state)?;\n            timeouts.waker.wake();\n        }\n\n        Ok(())","            timeouts.list.push(state)?;\n            // whoever waited for the old deadline polls again\n            drop(state.waker.take());\n            timeouts.waker.wake();\n        }\n\n        Ok(())")],
'a sleep, interval or queue whose deadline is moved while its task waits, without another poll',
'the waker of the most recent poll is thrown away by the reset: nobody is woken at the new deadline',
'''
use wasmtimer::tokio::sleep;
pub fn demo() {
    warm();
    let w = W::new();
    let wk = waker(&w);
    let mut s = Box::pin(sleep(ms(500)));
    assert!(s.as_mut().poll(&mut Context::from_waker(&wk)).is_pending());
    run(20_000.0);
    s.as_mut().reset(Instant::now() + ms(40));
    run(60_000.0);
    assert!(s.is_elapsed());
    assert!(w.woken() > 0, "the waiting task was not woken");
}
''')

plant('far-wrap','C21',[(TM,"                Some(head) if head.at <= now => {}\n","                // compared as a signed difference\n                Some(head) if (head.at.duration_since(now).as_nanos() as i64) <= 0 => {}\n")],
'a deadline between 292 and 584 years away (or in a later such span)',
'the difference wraps to a negative one: a timer of 300 years completes at once',
'''
use wasmtimer::tokio::{sleep, timeout};
pub fn demo() {
    warm();
    for years in [1u64, 290, 300, 500, 600, 900, 5_000] {
        let s = Box::pin(sleep(Duration::from_secs(years * 31_557_600)));
        let mut t = Box::pin(timeout(Duration::from_secs(years * 31_557_600), std::future::pending::<()>()));
        let w = W::new();
        run(200_000.0);
        assert!(poll(t.as_mut(), &w).is_pending(), "{years} years have gone by");
        assert!(!s.is_elapsed(), "{years} years have gone by");
    }
}
''')

plant('batch-cut','C04',[(TM,"        let mut list = self.inner.list.take();\n        while let Some(node) = list.pop() {\n            // A reset","        let mut list = self.inner.list.take();\n        // a bounded amount of work per turn\n        for _ in 0..100 {\n            let node = match list.pop() {\n                Some(node) => node,\n                None => break,\n            };\n            // A reset")],
'more than 100 timers created, reset or dropped in one turn of the event loop',
'the updates beyond the first hundred of a turn are lost: those sleeps never complete',
'''
use wasmtimer::tokio::sleep;
pub fn demo() {
    warm();
    let v: Vec<_> = (0..130u64).map(|i| Box::pin(sleep(ms(20 + i % 7)))).collect();
    run(80_000.0);
    assert!(v.iter().all(|s| s.is_elapsed()), "{} of 130 sleeps are complete", v.iter().filter(|s| s.is_elapsed()).count());
}
''')

plant('early-bird','C07',[(TM,"        self.timer_heap.peek().map(|t| t.at)\n","        // host timeouts are often late: be there a little before\n        self.timer_heap\n            .peek()\n            .map(|t| t.at.checked_sub(Duration::from_millis(400)).unwrap_or(t.at))\n"),(TM,"use std::task::{Context, Poll};","use std::task::{Context, Poll};\nuse std::time::Duration;")],
'every deadline, in its last 400 ms',
'the driver spins on immediate host timeouts for the last 400 ms before each deadline',
'''
use wasmtimer::tokio::sleep;
pub fn demo() {
    warm();
    let _s = Box::pin(sleep(Duration::from_secs(10)));
    let f = fired();
    run(10_100_000.0);
    assert!(fired() - f < 60, "{} callbacks for one sleep of 10 s", fired() - f);
}
''')

plant('elapsed-first','C08',[(TO,"        match self.as_mut().future().poll(cx) {","        // no need to ask the future when it is too late anyway\n        if self.delay.is_elapsed() && self.delay.deadline() < Instant::now() {\n            return Poll::Ready(Err(Elapsed::new()));\n        }\n\n        match self.as_mut().future().poll(cx) {")],
'the wrapped future becomes ready before the deadline, but the task is next polled after it (a busy host)',
'a value that was there is thrown away for an elapsed error',
'''
use wasmtimer::tokio::timeout;
pub fn demo() {
    warm();
    let ready = std::rc::Rc::new(Cell::new(false));
    let r2 = ready.clone();
    let fut = std::future::poll_fn(move |_| if r2.get() { Poll::Ready(7) } else { Poll::Pending });
    let mut t = Box::pin(timeout(ms(20), fut));
    let w = W::new();
    assert!(poll(t.as_mut(), &w).is_pending());
    run(10_000.0);
    ready.set(true);
    pass(30_000.0);
    run(10_000.0);
    assert!(matches!(poll(t.as_mut(), &w), Poll::Ready(Ok(7))), "the value is lost");
}
''')

plant('reset-due','C09',[(IN,"    pub fn reset(&mut self) {\n","    pub fn reset(&mut self) {\n        // a tick that is due is still to be delivered\n        if self.sleep.is_elapsed() {\n            return;\n        }\n")],
'a manual reset when a tick is due but has not been taken',
'the reset is ignored: the old tick is delivered at once instead of one period later',
'''
use wasmtimer::tokio::interval_at;
pub fn demo() {
    warm();
    let w = W::new();
    let mut iv = interval_at(Instant::now() + ms(10), ms(100));
    run(12_000.0);
    iv.reset();
    let due = Instant::now() + ms(100);
    assert!(iv.poll_tick(&mut Context::from_waker(&waker(&w))).is_pending(), "ticked right after the reset");
    run(110_000.0);
    match iv.poll_tick(&mut Context::from_waker(&waker(&w))) {
        Poll::Ready(t) => assert!(t >= due - ms(1) && t <= due + ms(1)),
        _ => panic!("no tick"),
    }
}
''')

plant('ripe-insert','C12',[(DQ,"            current_exp > when\n","            // an entry that has expired already needs no timer\n            current_exp > when && !self.slab[key].expired\n")],
'an entry inserted with a deadline that is not after the current time of the queue, while a task waits for a later one',
'the entry is ready, but the waiting task is not woken for it',
'''
use wasmtimer::tokio_util::DelayQueue;
pub fn demo() {
    warm();
    let w = W::new();
    let wk = waker(&w);
    let mut q = DelayQueue::new();
    let t = Instant::now();
    q.insert_at(1, t + ms(900));
    run(10_000.0);
    assert!(q.poll_expired(&mut Context::from_waker(&wk)).is_pending());
    let n = w.woken();
    q.insert_at(2, t - ms(5));
    run(20_000.0);
    assert!(w.woken() > n, "not woken for the ready entry");
    match q.poll_expired(&mut Context::from_waker(&wk)) {
        Poll::Ready(Some(e)) => assert_eq!(e.into_inner(), 2),
        _ => panic!("nothing"),
    }
}
''')

plant('lap-u32','C14',[(LV,"        let level_start = now - (now % level_range);","        let level_start = now - u64::from(now as u32) % level_range;")],
'a queue that has been in use for more than 49.7 days, with an entry more than 12.4 days ahead',
'the lap of the top level is taken to begin 49.7 days later than it does: the entry is looked for much too late',
'''
use wasmtimer::tokio_util::DelayQueue;
pub fn demo() {
    warm();
    let w = W::new();
    let wk = waker(&w);
    let day = 86_400_000_000.0;
    let mut q = DelayQueue::new();
    let t0 = now();
    q.insert(0, ms(52 * 86_400_000));
    let mut got = vec![];
    while (now() - t0) / day < 140.0 {
        match q.poll_expired(&mut Context::from_waker(&wk)) {
            Poll::Ready(Some(e)) => {
                got.push((e.into_inner(), (now() - t0) / day));
                if got.len() == 1 {
                    q.insert(1, ms(30 * 86_400_000));
                }
                if got.len() == 2 {
                    break;
                }
            }
            _ => {
                pass(day / 24.0);
                run(10_000.0);
            }
        }
    }
    assert_eq!(got.len(), 2, "{got:?}");
    assert!(got[0].1 < 52.1 && got[1].1 >= 82.0 && got[1].1 < 82.2, "{got:?}");
}
''')

plant('key-byte','C13',[(DQ,"            self.next_key_index = self.next_key_index.wrapping_add(1);","            self.next_key_index = usize::from((self.next_key_index as u8).wrapping_add(1));")],
'compaction, and then more than 256 keys in use at once when a key has to be remapped',
'the search for a free key never ends',
'''
use wasmtimer::tokio_util::DelayQueue;
pub fn demo() {
    warm();
    let mut q = DelayQueue::new();
    let mut keys: Vec<_> = (0..300).map(|i| (i, q.insert(i, ms(1_000 + i)))).collect();
    for i in (270..280).rev() {
        let (v, k) = keys.remove(i);
        assert_eq!(q.remove(&k).into_inner(), v);
    }
    q.compact();
    for i in 300..310 {
        keys.push((i, q.insert(i, ms(1_000 + i))));
    }
    for (v, k) in keys {
        assert_eq!(q.remove(&k).into_inner(), v);
    }
    assert!(q.is_empty());
}
''')

plant('same-time','C02',[(TM,"        if let Some(heap_slot) = slot.take() {\n            self.timer_heap.remove(heap_slot);\n        }\n","        let mut gen = gen;\n        if let Some(heap_slot) = slot.take() {\n            // the same deadline: nothing has changed for this entry\n            let old = self.timer_heap.remove(heap_slot);\n            if old.at == at {\n                gen = old.gen;\n            }\n        }\n")],
'a sleep that is reset to the very deadline it already has',
'the entry keeps its old generation: when it is due it is taken for a superseded one, and the task sleeps for ever',
'''
use wasmtimer::tokio::sleep_until;
pub fn demo() {
    warm();
    let w = W::new();
    let t = Instant::now() + ms(50);
    let mut s = Box::pin(sleep_until(t));
    let _ = poll(s.as_mut(), &w);
    run(10_000.0);
    s.as_mut().reset(t);
    let _ = poll(s.as_mut(), &w);
    run(60_000.0);
    assert!(w.woken() > 0 && poll(s.as_mut(), &w).is_ready(), "still asleep");
}
''')

plant('catch-up','C15',[(CL,"        (*unforzen) = Some(Instant::now_js());","        // the clock may have been advanced: it must not run from a moment before that\n        (*unforzen) = Some(Instant::now_js().max(*self.inner.base.lock().unwrap()));")],
'resuming after the paused clock was advanced beyond the host clock',
'the resumed clock stands still until the host clock has caught up',
'''
use wasmtimer::tokio::{advance, pause, resume};
pub fn demo() {
    let _ = Instant::now();
    pass(1_700.0);
    pause();
    let mut f = Box::pin(advance(ms(2_600)));
    assert!(noop(f.as_mut()).is_ready());
    let a = Instant::now();
    resume();
    pass(40_000.0);
    assert_eq!(Instant::now() - a, ms(40));
}
''',features=['tokio-test-util'])

plant('host-clock','C16',[(GL,"        let now = Instant::now();\n","        // the mock clock can fall behind the host's while the task is scheduled\n        let now = Instant::now().max(Instant::now_js());\n")],
'host time that passes while the clock is paused, and an advance by less than that',
'timers complete that are not due by the paused clock',
'''
use wasmtimer::tokio::{advance, pause, sleep};
pub fn demo() {
    warm();
    pause();
    let a = Box::pin(sleep(ms(10)));
    let b = Box::pin(sleep(ms(90)));
    pass(100_000.0);
    let mut f = Box::pin(advance(ms(20)));
    assert!(noop(f.as_mut()).is_ready());
    assert!(a.is_elapsed());
    assert!(!b.is_elapsed(), "completed 70 ms before its deadline");
}
''',features=['tokio-test-util'])

plant('now-u32','C18',[(ST,"let val = (performance_now() * 1000.0) as u64;","let val = (performance_now() * 1000.0) as u32 as u64;")],
'a page that has been open for more than 71.6 minutes',
'the clock stands still from then on',
'''
pub fn demo() {
    let _ = Instant::now();
    perf(4_294_000_000.0);
    let a = Instant::now();
    perf(4_299_000_000.0);
    assert_eq!(Instant::now() - a, ms(5_000));
    assert_eq!(a.elapsed(), ms(5_000));
}
''')

plant('epoch-clamp','C19',[(ST,"        let dur_ms = self.inner - earlier.inner;","        // whole milliseconds\n        let dur_ms = self.inner as u64 as f64 - earlier.inner as u64 as f64;")],
'a time before 1970',
'differences are taken from the epoch instead',
'''
pub fn demo() {
    let e = SystemTime::UNIX_EPOCH;
    let a = e - ms(5_000);
    assert_eq!((e + ms(3)).duration_since(a).unwrap(), ms(5_003));
    assert_eq!(a.duration_since(e).unwrap_err().duration(), ms(5_000));
    assert_eq!((e + ms(9)).duration_since(e + ms(3)).unwrap(), ms(6));
}
''')

plant('missing-zero','C20',[(ST,"""                let nanos = match nanos {
                    Some(nanos) => nanos,
                    None => return Err(<A::Error as Error>::missing_field("nanos_since_epoch")),
                };""","""                // whole seconds
                let nanos = nanos.unwrap_or_default();""")],
'a document in which the nanoseconds are missing (cut off, or of another type)',
'it is accepted as a time',
'''
pub fn demo() {
    let r: Result<SystemTime, _> = serde_json::from_str(r#"{"secs_since_epoch": 5}"#);
    assert!(r.is_err());
    let r: Result<SystemTime, _> = serde_json::from_str(r#"{"secs_since_epoch": 5, "nanos_since_epoch": 7000000}"#);
    assert_eq!(r.unwrap().duration_since(SystemTime::UNIX_EPOCH).unwrap(), ms(5_007));
}
''',features=['serde'])

def plantc(id, prop, edits, needs, breaks, args=CONC):
    PLANTS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, conc=args, demo=''))

plantc('pop-order', 'C22', [(AL, """        *self.list.get_mut() = head.next.load(SeqCst);
        // At this point, the node is out of the list, so store `false` so we
        // can enqueue it again and see further changes.
        assert!(head.enqueued.swap(false, SeqCst));
""", """        // The node is about to be out of the list, so store `false` so we
        // can enqueue it again and see further changes.
        assert!(head.enqueued.swap(false, SeqCst));
        *self.list.get_mut() = head.next.load(SeqCst);
""")],
'another thread resets or drops the sleep between the two lines of pop, when the list holds other nodes',
'the node is pushed again before its link is followed: the rest of the taken list is lost or taken from the live one',
"'warm/main/t/n2pm3q;rq' 'warm/main/t/n2pm3q;r1s4' 'warm/main/t/;n2m3r1s4' 'warm/main/t/;n2m3r1' 'warm/main/t/n2p;r1/n2p;r4'")

plantc('poll-once', 'C22', [(SL, """        if state.state.load(Ordering::SeqCst) & 1 != 0 {
            return Poll::Ready(());
        }

        state.waker.register(cx.waker());

        // Now that we've registered, do the full check of our own internal
        // state. If we've fired the first bit is set, and if we've been
        // invalidated the second bit is set.
        match state.state.load(Ordering::SeqCst) {
            n if n & 0b01 != 0 => Poll::Ready(()),
            n if n & 0b10 != 0 => panic!("Timer has gone away"),
            _ => Poll::Pending,
        }""", """        match state.state.load(Ordering::SeqCst) {
            n if n & 0b01 != 0 => Poll::Ready(()),
            n if n & 0b10 != 0 => panic!("Timer has gone away"),
            _ => {
                state.waker.register(cx.waker());
                Poll::Pending
            }
        }""")],
'the driver fires the sleep between the poll reading its state and registering the waker',
'the task is never woken')

plantc('drop-late-clear', 'C22', [(SL, """            *state.at.lock().unwrap() = None;
            if timeouts.list.push(state).is_ok() {
                timeouts.waker.wake();
            }
""", """            if timeouts.list.push(state).is_ok() {
                *state.at.lock().unwrap() = None;
                timeouts.waker.wake();
            }
""")],
'the driver takes the update between the push and the clearing of the deadline',
'the dropped sleep stays in the timer and keeps its waker',
"'warm/main/t/n2p;d' 'warm/main/t/n2;pd' 'warm/main/t/;n2pd' 'warm/main/t/n2p;r4pd' 'warm/main/tt/n2p;r4pd'")

plantc('register-late', 'C22', [(TM, """        Pin::new(&mut self.inner).waker.register(cx.waker());
        let mut list = self.inner.list.take();
""", """        let mut list = self.inner.list.take();
        Pin::new(&mut self.inner).waker.register(cx.waker());
""")] ,
'another thread pushes an update between the list being taken and the waker being registered',
'the update stays in the list: its sleep is asleep past its deadline',
"'warm/main/t/n2pa2;dn2' 'warm/main/t/n2p;r4p'")
