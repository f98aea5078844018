"""property -> (module, function)"""
CHECKS = {
    'C01': ('control', 'c01'), 'C02': ('control', 'c02'), 'C03': ('control', 'c03'),
    'W01': ('iocheck', 'writer'), 'W02': ('iocheck', 'writer'), 'W03': ('iocheck', 'writer'),
    'R01': ('iocheck', 'reader'), 'R02': ('iocheck', 'reader'), 'R03': ('iocheck', 'reader'),
    'S01': ('iocheck', 'both'), 'S02': ('iocheck', 'both'), 'S04': ('iocheck', 'both'),
    **{'I%02d' % i: ('iothrcheck', 'check') for i in range(1, 8)},
    'T01': ('sockcheck', 'check'), 'T02': ('sockcheck', 'check'),
    'T03': ('filecheck', 'check'),
    'O01': ('optcheck', 'check'),
    'M01': ('memcheck', 'check'),
    **{'P%02d' % i: ('capcheck', 'check') for i in range(1, 5)},
    'P05': ('toolcheck', 'replay'), 'P06': ('toolcheck', 'dump'),
    'S03': ('paircheck', 'check'),
    'N01': ('isocheck', 'check'), 'U01': ('cmdcheck', 'check'), 'P07': ('endurecheck', 'check'),
    'Q01': ('queuecheck', 'q01'), 'Q02': ('queuecheck', 'q02'),
}
NOTES = {
    'control': ('TLA+ model of the wire format and control object (TLC); conformance of generated and sampled API executions',
                'Exhaustive on a scaled-down format in TLC; the real library is judged by the specification on every class combination enumerated from it plus seeded sampling, under ASan/UBSan.'),
    'iocheck': ('TLA+ design and observer of reader/writer handles (TLC); replay of spec-generated and sampled scripts with transport faults, traces validated by TLC',
                'Exhaustive for the design within 4-6 calls and 2 connections; the real library is judged by the same observer on a scripted transport with a failure at every byte and operation of reference sessions, behaviours generated from the design, and seeded sampling, under ASan/UBSan.'),
    'iothrcheck': ('TLA+ design and observer of the I/O thread (TLC); real I/O thread run under a simulated scheduler with virtual time and transport faults, traces validated by TLC',
                   'Exhaustive for the design within small bounds (1-2 producers, 2-5 frames, 1-3 connections, a few seconds of virtual time); the real code runs every few-preemption schedule of small workloads, behaviours generated from the design and random scenarios and schedules, each trace judged by the same observer.'),
    'paircheck': ('TLA+ design and observer of a writer and a reader in session (TLC); real handles joined by bounded pipes under a deterministic scheduler, traces validated by TLC',
                  'Exhaustive for the design (content type lists up to 2-3 of 2-3 types, both directions, bounded channels, deadlock and termination); every behaviour of it and random sessions run on the real handles.'),
    'sockcheck': ('TLA+ design and observer of socket writers at the system call interface (TLC); real writers over a simulated kernel, system call traces validated by TLC',
                  'Exhaustive for the design (up to 4-7 calls, every split of small sends and reads, up to 4 failures); real TCP and Unix writers run with a short write, interruption or error at every byte of reference sessions, behaviours of the design, and seeded sampling, under ASan/UBSan.'),
    'optcheck': ('TLA+ model of option objects and observer of their effect (TLC); setter sequences and probes of the created objects on the real library, validated by TLC',
                 'Exhaustive for the design over boundary values (2-3 setter calls); every boundary of every setter and random sequences on the real library, the value in effect observed through capacities, batches, delays, retries, wakeups, frame sizes and offered content types under simulated scheduling and virtual time.'),
    'memcheck': ('TLA+ design and observer of the memory held by library objects (TLC); books kept while the real objects are created, used, failed and destroyed, validated by TLC',
                 'Exhaustive for the design (up to 10-16 steps); the real readers, writers, control and option objects run with their allocations counted through a failure at every byte of reference sessions, refused creations, repeated identical rounds, behaviours of the design, and seeded sampling, under ASan/UBSan.'),
    'capcheck': ('TLA+ design and observer of fstrm_capture (TLC); the real program run in lock step with scripted clients, packets, signals, clock and full outputs, traces validated by TLC',
                 'Exhaustive for the design (1-3 clients out of 15 kinds, every split in coarse units, 4-6 driver steps, signals, rotation, connection limit, bounded output); the real program (its event loop driven in lock step, virtual time) runs every cut of small sessions, signals and full outputs at every byte, behaviours of the design and seeded mixtures, under ASan/UBSan.'),
    'toolcheck': ('TLA+ byte-level meaning of files and design of fstrm_dump and fstrm_replay (TLC); the real programs run on generated, damaged and cut files with scripted receivers and full outputs, each run judged by TLC',
                  'Exhaustive for the design (every file of up to 8-9 bytes of the scaled-down format, every limit of the copy; lists of up to 2-3 files of 14 kinds with 12 kinds of receivers); the real programs run cuts and alterations of every byte, receivers that leave at every byte, all file and receiver kinds of the design and seeded sampling, under ASan/UBSan.'),
    'filecheck': ('TLA+ design and observer of file readers and writers (TLC); real handles on real files, limited devices and faulty streams, histories and file contents validated by TLC',
                  'Exhaustive for the design (up to 5-8 calls, every device size, every moment of flushing); the real handles run with the device full at every byte, transient and close-time errors, every cut and read error position, behaviours of the design, and seeded sampling, under ASan/UBSan.'),
    'isocheck': ('TLA+ design of objects side by side and product of the observers of the single objects (TLC); real control objects, readers, writers, socket and file handles run as interleaved tasks of a simulated process, traces validated by TLC',
                 'Exhaustive for the design (2-3 objects, 1-2 calls each, every interleaving of their steps); on the real library random mixtures of 2-4 tasks with up to 3 objects each, switched at calls and at memory accesses, each object judged by its own observer.'),
    'cmdcheck': ('TLA+ meaning of command lines and design of the option parser (TLC); the real programs run on generated command lines, what each one did judged by TLC',
                 'Exhaustive for the design (every line of up to 3-6 options in every order and spelling); the real programs run lines generated from the specification and seeded lines with defects, and are observed on their sockets, files and exit status.'),
    'endurecheck': ('TLA+ design and observer of what the programs hold over repeated rounds of events (TLC); the real programs driven in lock step, memory and descriptors at every rest judged by TLC',
                 'Exhaustive for the design (2 clients, every round of up to 4-5 events, or 1 client and 6-7, repeated 3 times; every list of up to 4-6 inputs); the real programs repeat generated and seeded rounds 4-40 times, with exact counts of allocated bytes and open descriptors at every rest.'),
    'queuecheck': ('TLA+ model of both queues at memory-access level (TLC); real queues run under a simulated scheduler, histories checked for linearizability by TLC',
                   'Exhaustive for the algorithms under SC/TSO/PSO within small bounds; the real code is executed under all schedules with up to 2-3 preemptions of small workloads and random schedules, each history explained by the TLA+ bounded FIFO.'),
}
NOT_APPLICABLE = {}
