NA = {}
for i in ['C%02d' % k for k in range(1, 22)]:
    CLAIMED[i] = {}
CLAIMED['C22'] = {
    'technique': 'stateless model checking: exhaustive preemption-bounded exploration of thread schedules of the real sources under a controlled scheduler',
    'note': 'The unmodified timer sources are linked against scheduled stand-ins for std::sync, parking_lot and AtomicWaker, and every schedule of small two- and three-thread programs with at most the stated number of preemptions is executed; nothing is sampled. Trusted: the stand-ins, sequential consistency, rustc. js.rs is replaced by a virtual host.',
}
