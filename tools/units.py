"""Which exploration units decide which property, and what each assumes."""
UNITS = {
    "C01": [dict(kind="seq", src=["c01_buffer.cc"], wrap=["memset"])],
    "C02": [dict(kind="seq", src=["c02_stream.cc"], wrap=["read", "write", "recv", "send", "readv", "writev", "recvfrom", "sendto", "recvmsg", "sendmsg"])],
    "C03": [dict(kind="seq", src=["c03_owner.cc"], wrap=["socket", "pipe", "pipe2", "accept", "accept4", "fcntl", "open", "mkfifo", "ioctl", "close"])],
    "C22": [dict(kind="seq", src=["c22_strings.cc"])],
    "C23": [dict(kind="seq", src=["c23_numbers.cc"], wrap=["nanosleep"])],
    "C24": [dict(kind="plain", seq_main=True, src=["c24_signals.cc"])],
    "C25": [dict(kind="seq", src=["c25_stream_sockets.cc"], wrap=["accept", "accept4"])],
    "C26": [dict(kind="seq", src=["c26_datagram.cc"], wrap=["recvfrom", "sendto", "recvmsg", "sendmsg"])],
    "C04": [dict(kind="seq", src=["c04_loop.cc"])],
    "C06": [dict(kind="xs", src=["c06_server.cc"])],
    "C07": [dict(kind="xs", src=["c07_bytes.cc"])],
    "C08": [dict(kind="xs", src=["c08_client.cc"])],
    "C09": [dict(kind="xs", src=["c09_shutdown.cc"])],
    "C28": [dict(kind="xs", src=["c28_faults.cc"])],
    "C05": [dict(kind="xs", src=["c05_loop_threads.cc"])],
    "C27": [dict(kind="seq", src=["c27_loader.cc"], so=[["c27_a"], ["c27_b"], ["c27_c", "c27_a"]])],
    "C11": [dict(kind="xs", src=["c11_runnable.cc"])],
    "C13": [dict(kind="plain", seq_main=True, src=["c14_guards.cc"], cflags=["-DPART=13"]), dict(kind="xs", src=["c13_locks.cc"])],
    "C14": [dict(kind="plain", seq_main=True, src=["c14_guards.cc"], cflags=["-DPART=14"]), dict(kind="xs", src=["c14_rwlock.cc"])],
    "C15": [dict(kind="xs", src=["c15_fence.cc"])],
    "C16": [dict(kind="xs", src=["c16_barrier.cc"])],
    "C17": [dict(kind="xs", src=["c17_shm.cc"])],
    "C18": [dict(kind="xs", src=["c18_sem.cc"])],
    "C12": [dict(kind="xs", src=["c12_logger.cc"])],
    "C19": [dict(kind="xs", src=["c19_scheduler.cc"])],
    "C20": [dict(kind="xs", src=["c21_threads.cc"]), dict(kind="xs", src=["c20_subprocess.cc"])],
    "C21": [dict(kind="xs", src=["c21_threads.cc"]), dict(kind="plain", seq_main=True, src=["c21_exec.cc"], wrap=["close"]), dict(kind="xs", src=["c20_subprocess.cc"], cflags=["-DFDS"])],
    "C10": [dict(kind="xs", src=["c10_pool.cc"])],
}
ASSUME = {
    "*": ["g++ 13 with the sanitizers or the instrumentation named in DESIGN.md compiles the same semantics as the shipped build",
          "behaviour beyond the stated bounds is not covered"],
    "C01": ["lengths passed to consume/get_string do not exceed size() (documented use)"],
}
TECH = {}
NOTE = {
    "xs": "Every execution of the listed drivers within the cost bound (preemptions + environment deviations) is run on the real code, unmodified, under a controlled scheduler; "
          "interleavings are sequentially consistent, data races are detected by happens-before on every execution. Trusted: the runtime in engine/ (its models of mutexes, condition "
          "variables, semaphores and the virtual clock; replayed executions are compared), state hashing, and that larger drivers or more preemptions add nothing.",
    "seq": "Every sequence of the listed operations up to the depth bound is executed on the real code (ASan, UBSan) and compared step by step with a small reference model. "
           "Trusted: the reference model, the compiler's sanitizers, and the small-scope assumption.",
}
