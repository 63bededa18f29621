NOT_CLAIMED = {}
NOTES = {}


def n(id, technique, note, level='exploration'):
    NOTES[id] = dict(technique=technique, note=note, level=level)


n('P01', 'runtime monitoring: online differential oracle (in-memory POSIX model) over random '
  'syscall histories on the real mount process',
  'Random histories only; the kernel is emulated (no FUSE in the sandbox), at handler level.')

n('P02', 'runtime monitoring: full-tree recorder before unmount compared with the tree after every '
  'kind of remount (same cache, no cache, kept data cache)',
  'Random histories and configurations; the kernel is emulated.')
n('P07', 'runtime monitoring: online monitor on every backend request and on the object tables, '
  'offline audit of all stored objects after unmount, under concurrent load',
  'Random schedules; no backend faults in this check.')
n('P08', 'runtime monitoring: independent database invariant checker, fsck run and row-level diff '
  'after random histories', 'Random histories only.')

n('P03', 'runtime monitoring: offline linearizability checkers (per-block register check, Wing-Gong '
  'search over name operations) on recorded concurrent histories, stuck-request watchdog',
  'Random schedules from a seeded scheduler with delayed backend; the kernel is emulated.')
n('P10', 'runtime monitoring: source and copy recorded and compared, then both modified at random and '
  'compared with a model; concurrent copies judged against what was present throughout',
  'Random trees, schedules and histories.')

n('P11', 'runtime monitoring: hostile requests of every kind to every locked inode, the whole tree '
  'compared after each group; recursive removal judged by before/after trees and invariants',
  'Random trees, request sequences and schedules; requests sent at the level of the handlers.')

n('P04', 'runtime monitoring under crash injection: the process dies at counted points (SQL statement, '
  'cache file operation, backend request); recovery judged against a recorded model history',
  'Process death at sampled points of random histories; no power loss.', 'fault_injection')
n('P05', 'runtime monitoring under crash and fault injection: the machine is lost at counted backend '
  'requests; what is restored from the backend alone (newest state and every old backup) is judged '
  'against the recorded model history',
  'Sampled points of random histories; one failing request pattern.', 'fault_injection')

n('P06', 'runtime monitoring: recorder copies every uploaded database version; all retained sequence '
  'numbers are downloaded and compared byte for byte, under random histories, concurrent writers '
  'and injected backend failures',
  'Random histories; database files up to about 1 MB.', 'fault_injection')

n('P09', 'runtime monitoring under fault injection: random damage to tables and stored objects (and '
  'killed fsck runs); the repaired file system is judged by an independent evaluation of the damaged '
  'tables, an independent invariant checker and a second fsck',
  'Random combinations of 28 damage kinds; the root inode is never damaged; file types that fsck only '
  'reports (UNIX conventions) are not damaged.', 'fault_injection')

n('P12', 'runtime monitoring under fault injection: data objects are deleted or damaged before or in '
  'the middle of sessions with random requests of several tasks; every result, the refusal of '
  'changes, the next mount, s3ql_verify, remove_objects.py and the tree after fsck are judged '
  'against a recorded model',
  'Random trees, losses and requests; blocks being modified at the moment of the loss may be judged '
  'either way.', 'fault_injection')
n('P14', 'runtime monitoring under attack: stored encrypted objects are tampered with, swapped, '
  'replayed and forged; every read, lookup, mount, fsck, verify and adm run is judged against '
  'recorded versions',
  'Random attacks of 15 kinds. Known finding: replacing the whole set of metadata objects by '
  'unencrypted ones and removing s3ql_passphrase is not detected.', 'fault_injection')
n('P15', 'runtime monitoring: random histories of stores and reads over several instances, payload '
  'sizes around all internal borders, compared with a dictionary; damage of compressed objects',
  'Random histories; payloads up to a few MB; local directory as storage.')
n('P16', 'runtime monitoring: recorder of every stored object and of every cipher initialisation over '
  'the whole life of file systems with odd clocks; the recording is searched for markers and keys '
  'and for repeated keys or nonces',
  'Random histories; searched for known markers directly and after generic decoding, and for '
  'non-random looking payloads.')
n('P19', 'runtime monitoring: dictionary oracle after every call, linearizability checker over '
  'recorded concurrent histories of tasks and processes, audit after kills at every kind of file '
  'operation and within writes, and under full disks and read errors',
  'Random histories and crash points; process death, not power loss.', 'fault_injection')

n('P20', 'runtime monitoring under fault injection: random subsets of the stored objects are deleted or '
  'damaged in nine ways; lists, exit code and requests of s3ql_verify with random options are compared '
  'with what was done, storage and cache byte by byte',
  'Random damage to up to 250 objects in a local directory.', 'fault_injection')
n('P21', 'runtime monitoring: the cache directory is counted and measured after every request and '
  'storage operation of concurrent random workloads; whenever idle it is compared with reported '
  'usage, open descriptors and database; idle periods and working sets are observed',
  'Random schedules; overshoot allowed: one block per task at work.', 'fault_injection')
n('P23', 'runtime monitoring: listings split at random places over several handles while entries are '
  'created, removed and renamed (also concurrently) are judged against the recorded history of every '
  'name; positions are reused; lookup counts are followed to zero',
  'Random directories up to some thousand entries; the kernel is emulated.')
n('P25', 'runtime monitoring: index and locks driven with random operations, iterators and cancelled '
  'tasks; compared after every operation with a list model, and lock histories with an exclusion and '
  'progress checker',
  'Random operation sequences and schedules; direct calls of both classes.')
n('P26', 'runtime monitoring: simulated years of backups with gaps, failed and killed runs; after every '
  'run the directory is compared with what the schedule calls for',
  'Random schedules and histories; s3qlrm is replaced by a recorder.', 'fault_injection')
n('P18', 'runtime monitoring under fault injection: client and pool against a server on raw sockets that '
  'controls every byte, pause and close; every response and request carries marks that are compared '
  'with what was sent, with time limits and a descriptor count',
  'Random responses and faults over loopback, with TLS and proxies.', 'fault_injection')

n('P17', 'runtime monitoring under fault injection: every remote backend against protocol-level stand-ins of '
  'its service on raw sockets, which check signatures, tokens and framing; results and stored objects are '
  'compared with a dictionary; refused operations must fail once and with the right kind of exception',
  'Random operations and faults; the services are stand-ins written from the protocol documentation, virtual '
  'time for the waiting between attempts.', 'fault_injection')

n('P22', 'compiler sanitizers (AddressSanitizer, UndefinedBehaviorSanitizer) on both native extensions, plus '
  'runtime monitors: model of files and dirty blocks for the SQLite VFS, byte comparison of copied blocks with '
  'the database, model and value lifetimes for the linked dictionary',
  'Random sequences; interpreter and SQLite themselves are not instrumented.')

n('P24', 'runtime monitoring under fault injection: the real administrative commands, run to the end, killed at '
  'random backend requests, file operations and SQL statements, or with a failing backend; then mount and fsck '
  'with old and new credentials on several machines, with the resulting trees compared with those recorded before',
  'Random histories and crash points; process death, not power loss; previous revision imitated.',
  'fault_injection')

n('P13', 'runtime monitoring under fault injection: histories of sessions and fsck runs on three machines sharing '
  'one backend, with commands killed or cut off from the backend anywhere; from the recorded events alone a monitor '
  'knows what the next command must do (start, refuse, fetch, recover), and compares trees and sequence numbers',
  'Random histories; every machine has a correct clock. Known finding: a mount that fails while announcing itself, '
  'followed by a failing fsck, supersedes a clean session of another machine.', 'fault_injection')

n('P27', 'runtime monitoring on a virtual clock that advances only when no task can run: a monitor records when each '
  'block was last modified, uploaded, and each object stored and removed, and compares that with the configured upload '
  'delay and metadata backup interval',
  'Random workloads under modest latency; bounds include a fixed allowance for the queue in front of a transfer.',
  'fault_injection')

n('P28', 'runtime monitoring: the real tools run in a thread with their system calls redirected to an emulated kernel on '
  'top of the live mount; the whole tree is compared before and after each call with what the command line '
  'asks for, and the backend with what it was when umount.s3ql returned',
  'Random trees and arguments; permissions of the caller are those of root except for the ownership test.')
