"""What the evidence and the manifest say about each property."""
QUICK_SECS = 40
THOROUGH_SECS = 600
REAL = ["all of /repo/include/coro and /repo/src (except kqueue), compiled unmodified from the working tree",
        "libstdc++ (std::thread, mutex, condition_variable, atomics, chrono, containers)"]
STUB = ["OS thread scheduler: seeded fiber scheduler behind pthread_*, futex, C++11 atomics and plain memory accesses (TSan instrumentation seam)",
        "clocks, sleeps and timerfd: virtual time", "heap: deterministic arena allocator with quarantine",
        "kernel descriptors (epoll, eventfd, timerfd, pipe, sockets): simulated kernel"]
ASSUME = ["instruction interleaving at the granularity of atomic operations, locks, system calls and (sampled) plain accesses; sequentially consistent "
          "execution plus a happens-before race detector standing in for weaker memory orders",
          "an object is not destroyed while another thread is still calling it, an executor outlives the tasks given to it, and tokens and descriptors "
          "passed to poll() outlive the poll",
          "pthread, libstdc++ and the compiler are correct"]
NETSTUB = STUB + ["TCP, UDP: simulated network stack (segmentation, windows, delays, loss, resets, backlog); peers outside the library: scenario code"]
PROPS = {
    "C01": dict(oracle="interval-based history check of set/reset/wait against the event's specification, waiters counted per set, order checked where one thread decides it"),
    "C02": dict(oracle="interval bounds on the count; a passage is judged against the count-downs that had begun"),
    "C03": dict(oracle="holder model per mutex, lost-update counters inside the critical sections, happens-before checks on the protected data",
                assume=["waiters may be granted in any order (the implementation is LIFO), so only deadlock, not starvation, is judged"]),
    "C04": dict(oracle="reader/writer model, versioned data, lockstep comparison of try_lock results with a sequential model"),
    "C05": dict(oracle="permit conservation over intervals; a waiter is lost if permits remain when everything is quiescent",
                assume=["a shutdown that races a release may take the permit with it; the waiter then reports the shutdown"]),
    "C06": dict(oracle="bounded FIFO history check (each element once, order over non-overlapping operations, capacity, truthful results around shutdown)"),
    "C07": dict(oracle="FIFO history check (each element once, order per producer, truthful results around shutdown)"),
    "C08": dict(oracle="lock holder model, predicate evaluated only under the lock, notifications matched to waiters over intervals",
                assume=["predicates do not throw; a notifier does not hold the lock it notifies for"]),
    "C09": dict(oracle="as C08 plus bounds on virtual time, matching of notify_one() calls to waits and leak detection for timed-out waits",
                assume=["a timed wait that was notified keeps its timer until it expires"]),
    "C10": dict(oracle="model of every task's outcome at its position, awaiter resumed once and after the last finish"),
    "C11": dict(oracle="the outcome delivered belongs to a task that had finished; losers finish; stop source asked only after a finish"),
    "C12": dict(oracle="model of every task's start, end and outcome, stack depth measured on the simulated stack"),
    "C13": dict(oracle="each accepted unit runs once on a worker, sizes bracketed by what is known to be queued, running or finished, threads joined when shutdown returns",
                assume=["an executor outlives the tasks spawned on it wherever they are suspended; only the first caller of shutdown() blocks"]),
    "C14": dict(oracle="number of accepted and unfinished tasks at the moment each join returns"),
    "C15": dict(oracle="each accepted unit runs once on the threads the mode prescribes, sizes, order with one executing thread, bounded shutdown of an idle scheduler",
                assume=["a manually driven scheduler is driven until it is empty before it is shut down", "an executor outlives the tasks spawned on it"]),
    "C16": dict(oracle="every wait's resumption bracketed in virtual time [deadline, deadline + execution and stalls], order between deadlines in runs without stalls",
                assume=["time points and durations are small enough that now + duration does not overflow"]),
    "C17": dict(oracle="the outcome is compared with what the descriptor's history allowed during the poll, time-outs bracketed in virtual time, registrations left in epoll"),
    "C18": dict(oracle="outcome compared with the times at which the task ended and the limit expired"),
    "C19": dict(oracle="byte-exact comparison with the generated streams, statuses compared with the connection's true history, time-outs bracketed in virtual time", stub=NETSTUB,
                assume=["one reader and one writer per connection; try_again is an acceptable answer to a spurious wake-up"]),
    "C20": dict(oracle="each datagram identified by its contents and compared with what was sent where by whom", stub=NETSTUB),
    "C21": dict(oracle="byte-exact comparison of plaintext with what was sent, statuses compared with what happened to the connection, time-outs bracketed in virtual time",
                real=REAL + ["OpenSSL (real library, seeded randomness)"], stub=NETSTUB,
                assume=["one coroutine at a time uses a TLS client; a send that timed out is repeated before anything else; SIGPIPE is ignored; socket buffers hold a TLS flight"]),
    "C22": dict(oracle="answers compared with the zone the simulated name server was given, lookups bounded in virtual time, nothing left behind",
                real=REAL + ["c-ares (real library)"], stub=NETSTUB + ["DNS server: scenario code that may be silent, late, malformed or mismatched"]),
    "C23": dict(oracle="ownership model: every open descriptor belongs to exactly one live object; allocator and descriptor tables empty at the end", stub=NETSTUB),
    "C24": dict(oracle="no object created without an error is dead, no false success, no leak, accounting back to zero, exactly once", stub=NETSTUB,
                assume=["a failed allocation inside functions declared noexcept or on the library's own threads terminates the process and is not injected"]),
    "C25": dict(oracle="one instance per kind, configured with the options in force at its first use, each accepted unit runs once; one process per run"),
    "C26": dict(oracle="executable model of each body: the values, the exception and the number of steps taken are compared at every advance", stub=STUB),
    "C27": dict(oracle="inet_pton/inet_ntop and raw sockaddr structures as reference; who received what at which address decided by the simulated kernel's byte-wise addresses", stub=NETSTUB,
                assume=["wildcard binds are not used"]),
}
NA = {}
