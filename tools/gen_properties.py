#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text stays reviewable)."""
import json, os
OUT = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=[f'src/s3ql/{f}' if not f.startswith(('contrib','docs')) else f for f in files],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            observe_at=observe, hook_needed=hook)))

p('P01', 'File system calls behave like a POSIX file system, whatever the cache does',
  'Every sequence of file system requests (create, open, read, write, truncate, link, symlink, unlink, mkdir, rmdir, rename, setattr, xattrs, readdir, getattr, forget) returns the results, error codes and attributes that a plain in-memory POSIX tree would return for that sequence. '
  'Cache evictions, uploads, cache flushes and cache drops happening between or during requests, and any block size, compression or cache size, never change a result.',
  ['histories', 'inputs', 'configurations'],
  'all request sequences over a small name space, offsets/lengths straddling block borders and holes, every block size and cache size including a cache of one block, flush/drop at every position',
  'The tests run one short hand-written sequence per call, almost always with everything in cache; they do not compare long mixed histories (unlink while open, rename over, sparse and truncated blocks, evicted and re-fetched blocks) with a model.',
  ['fs.py', 'block_cache.py', 'inode_cache.py', '_linked_dict.py'],
  [('request handlers', 'src/s3ql/fs.py:Operations'), ('block fetch/evict/upload', 'src/s3ql/block_cache.py:BlockCache'), ('attribute cache', 'src/s3ql/inode_cache.py:InodeCache')],
  ['return values and FUSEError codes of the request handlers', 'attributes returned by getattr/lookup', 'bytes returned by read'],
  [('dirty blocks', 'block contents newer than the backend', 'BlockCache.cache'), ('open inodes', 'kernel lookup counts', 'Operations.open_inodes')])

p('P02', 'A clean unmount followed by a mount gives back exactly the same file system',
  'After a clean unmount, mounting the file system again - with the same local cache, with an empty one, or with a preserved data cache - shows exactly the tree that was there before: names, types, modes, owners, times, link groups, sizes, contents, link targets, device numbers and extended attributes. '
  'This holds for every combination of encryption, compression algorithm, data and metadata block size, and cache setting, and over any number of mount cycles.',
  ['histories', 'configurations'],
  'all request histories split into any number of mount sessions, with each of the three ways of starting the next session',
  'Tests do a single write-unmount-mount-compare round with default settings on tiny data; remount after mixed histories with cache persistence and several block sizes is not compared.',
  ['mount.py', 'database.py', 'block_cache.py', 'fs.py', 'mkfs.py', 'backends/comprenc.py'],
  [('unmount sequence', 'src/s3ql/mount.py:main_async'), ('metadata up/download', 'src/s3ql/database.py:upload_metadata/download_metadata'), ('cache destroy/keep', 'src/s3ql/block_cache.py:BlockCache.destroy')],
  ['the full tree as seen through lookup/getattr/readdir/read/listxattr before unmount and after mount'])

p('P03', 'Concurrent requests are linearizable and every request completes',
  'When several requests run at the same time, the results of every request (and the final tree) can be explained by some one-at-a-time order in which each request takes effect between its start and its end. '
  'Every request eventually completes while the backend makes progress: no interleaving of reads, writes, truncates, renames, removals, background uploads, evictions, flushes and drops deadlocks or corrupts a block.',
  ['schedules', 'histories'],
  'all interleavings of concurrent requests with background upload, eviction, removal and metadata upload tasks, under any backend latency',
  'The only tests with concurrency are a few block cache tests with a fixed schedule; they never compare concurrent results to any sequential order nor vary backend latencies.',
  ['fs.py', 'block_cache.py', 'multi_lock.py', 'mount.py'],
  [('block locks', 'src/s3ql/block_cache.py:BlockCache._lock_entry'), ('request handlers', 'src/s3ql/fs.py:Operations'), ('background tasks', 'src/s3ql/mount.py:CommitTask')],
  ['invocation/response log of every request', 'final contents', 'pending requests when the backend is idle'])

p('P04', 'A crash of the mount process loses nothing that was synced or settled',
  'If the mount process dies at any point, running fsck with the same local cache and mounting again gives a usable file system in which every file operation that was completed and synced before the crash is present with its exact contents and everything not touched since the last sync is unchanged. '
  'Data written but not synced may be old or new per block, but never bytes that were never written to that file range, and fsck never discards a locally cached block that is the only copy of file data.',
  ['crash_points', 'histories'],
  'process death at every backend request, every database statement and every cache-file operation, after every history',
  'Tests kill the mount process once, at one moment, with nothing in flight; crash points inside uploads, commits, evictions and the unmount sequence are never visited.',
  ['block_cache.py', 'fsck.py', 'mount.py', 'database.py', 'fs.py'],
  [('upload then commit order', 'src/s3ql/block_cache.py:BlockCache.upload_if_dirty'), ('cache recovery', 'src/s3ql/fsck.py:Fsck.check_cache'), ('unmount order', 'src/s3ql/mount.py:main_async')],
  ['tree after crash+fsck+mount versus the log of operations completed and synced'],
  [('block map', 'which object holds which file range', 'tables inode_blocks, objects'), ('cache directory', 'blocks not (yet) uploaded', '<cachedir>/*-cache')])

p('P05', 'Every stored metadata backup restores to a consistent file system',
  'After the loss of the machine (all local state), fsck and mount on the backend alone give a consistent file system that contains everything that was completed (and whose data was uploaded) before the last finished metadata upload began, with exact contents and attributes for everything not modified since then. '
  'This also holds if the crash or backend failure happened in the middle of a metadata upload or of the rotation of old backups (if half an upload left a database that fsck refuses as corrupted, then after going back to the newest complete backup with restore-metadata), and every retained older backup offered by restore-metadata can be restored to exactly the tree (names and attributes) as it was when that backup was made.',
  ['crash_points', 'histories'],
  'every history with any number of metadata uploads, machine loss at every backend request including those of metadata upload and backup rotation, every retained backup',
  'Tests restore one backup of an unchanged file system; neither loss in the middle of an upload nor older incremental backups after further changes are exercised.',
  ['database.py', 'mount.py', 'adm.py', 'fsck.py'],
  [('incremental metadata upload', 'src/s3ql/database.py:upload_metadata'), ('trim of old block versions', 'src/s3ql/database.py:expire_objects'), ('restore', 'src/s3ql/adm.py:restore_metadata')],
  ['tree after restoring from backend objects only', 'list of restorable backups', 'backend objects'])

p('P06', 'Metadata storage reproduces the database byte for byte',
  'After any sequence of database modifications (growing, shrinking, vacuuming) with metadata uploads in between, downloading the metadata for any retained sequence number yields a database file byte-identical to the one that was uploaded under that number, regardless of the metadata block size. '
  'Interrupted or repeated uploads never leave the metadata parameters referring to missing or wrong blocks.',
  ['histories', 'configurations', 'crash_points'],
  'every sequence of transactions, uploads, expirations, failed uploads and block sizes; every retained sequence number',
  'Tests check a fixed list of dirty-block bitmaps and a single upload/download; they do not vary database shrinkage, block-boundary writes, interleaved uploads and failures.',
  ['database.py', 'sqlite3ext.pyx', '_sqlite3ext.cpp'],
  [('dirty page tracking', 'src/s3ql/sqlite3ext.pyx, src/s3ql/_sqlite3ext.cpp'), ('upload/download/expire', 'src/s3ql/database.py')],
  ['bytes of the downloaded database', 'metadata objects in the backend'])

p('P07', 'Stored data objects are exactly the blocks that files refer to',
  'Whenever all caches have been flushed, the set of data objects in the backend equals the set of objects that file blocks refer to, each object\'s decrypted content hashes to the recorded hash and has the recorded size, and equal block contents are stored only once. '
  'At no moment - including between concurrent writes, overwrites, deduplication and deletion - is an object removed while a committed file block still refers to it, and no object is uploaded twice or left behind when the last reference goes away.',
  ['histories', 'schedules'],
  'all histories of writes, overwrites with equal or different contents, truncates, copies and removals under any interleaving of uploads and removals',
  'Tests look at the object count after one upload or one deletion; they never check reference counts, leaks and dedup races over long concurrent histories.',
  ['block_cache.py', 'fs.py', 'fsck.py'],
  [('dedup and refcounts', 'src/s3ql/block_cache.py:BlockCache.upload_if_dirty'), ('deref and removal', 'src/s3ql/block_cache.py:BlockCache._deref_obj/_queue_removal'), ('copy', 'src/s3ql/fs.py:Operations.copy_tree')],
  ['backend object listing and contents', 'backend request log', 'objects and inode_blocks tables'])

p('P08', 'Metadata stays internally consistent and fsck finds nothing after clean use',
  'After any history of successful and failing requests followed by a clean unmount, every reference count (links, names, objects) equals the number of references, every referenced row exists, nothing is orphaned, and sizes agree with the blocks present. '
  'Running fsck on a cleanly unmounted file system reports no error and changes nothing in the tree.',
  ['histories'],
  'all request histories including requests that fail and files removed while open',
  'Tests run fsck after a few scripted operations; failing requests, extended attribute churn, replaced and unlinked-open files are not audited against an independent invariant checker.',
  ['fs.py', 'inode_cache.py', 'block_cache.py', 'fsck.py'],
  [('name reference counts', 'src/s3ql/fs.py:Operations._add_name/_del_name'), ('link counts', 'src/s3ql/fs.py'), ('fsck checks', 'src/s3ql/fsck.py:Fsck.check')],
  ['the metadata tables', 'fsck exit code and log', 'lookup counts after forget'])

p('P09', 'fsck repairs any damage to a consistent state and keeps intact data',
  'For any loss of metadata rows, dangling references between them, wrong reference counts or sizes, unreachable directories, and any set of missing, extra or temporary backend objects (the root directory being there), one fsck run ends with a file system on which a second run finds nothing and which can be mounted and read, also if an earlier fsck run was killed. '
  'Files not affected by the damage keep their path, attributes and contents; every other surviving file is found in lost+found with its attributes and all its intact blocks, zero-filled only where the block (its mapping, object record or stored object) is gone, and no stored object is removed without a message.',
  ['inputs', 'histories'],
  'all combinations of row-level corruptions in every table and missing or spurious objects, on any file system tree',
  'Each fsck test plants exactly one kind of corruption on a near-empty file system; combinations and preservation of unrelated data are not checked.',
  ['fsck.py'],
  [('all checks', 'src/s3ql/fsck.py:Fsck')],
  ['metadata tables before and after', 'tree before and after', 'fsck exit codes of first and second run'])

p('P10', 'A snapshot copy is complete, equal and isolated from its source',
  'Right after a recursive copy of a tree made with the copy command, source and copy have identical structure, contents, attributes, link structure, device numbers and extended attributes, even when data was written just before and is not uploaded yet or the kernel has already forgotten the files. '
  'Later changes to either side are never visible in the other, and deleting one never damages the other, also across flush, unmount and fsck.',
  ['histories', 'schedules'],
  'all trees (hard links, symlinks, devices, xattrs, sparse files, dirty blocks) and all later histories on either side, copies racing with uploads and writes elsewhere',
  'Tests copy one small static tree and compare; dirty unforgotten/forgotten blocks, hard links between subtrees and later divergence under eviction are not covered.',
  ['fs.py', 'cp.py', 'block_cache.py'],
  [('copy', 'src/s3ql/fs.py:Operations.copy_tree'), ('reference counts', 'tables objects, names, inodes')],
  ['snapshots of both trees after copying and after each later history', 'invariants of the tables'])

p('P11', 'Locked trees are immutable and recursive removal removes exactly the tree',
  'Once a tree has been made immutable, no request through the file system changes the content, attributes, extended attributes or directory entries of anything in it, and only recursive removal with the dedicated command can delete it; reading stays possible. '
  'Recursive removal removes exactly the named subtree, releases everything only it referred to, and leaves everything else - including files hard-linked from elsewhere - intact, even while other requests run.',
  ['histories', 'schedules'],
  'all trees and all later request sequences against locked objects, all trees for recursive removal, removal with concurrent requests',
  'One test locks a small tree and tries a handful of calls; no sweep over all calls and object kinds, nor removal of trees with links to the outside or open files.',
  ['fs.py', 'lock.py', 'remove.py'],
  [('lock', 'src/s3ql/fs.py:Operations.lock_tree'), ('locked checks', 'src/s3ql/fs.py'), ('recursive removal', 'src/s3ql/fs.py:Operations.remove_tree')],
  ['error code of each request', 'snapshot before and after', 'metadata tables'])

p('P12', 'Data loss on the backend is reported, contained and never spreads',
  'If the backend loses or returns a corrupted block, reading or modifying it fails with an I/O error and never returns other data, the file system turns read-only so that nothing new is accepted, other files stay readable, and the process keeps serving requests. '
  'The file system is then flagged so that the next mount demands fsck, and fsck moves exactly the affected files out of the way while everything else is kept.',
  ['fault_sequences', 'histories'],
  'loss or corruption of any object at any time, detected by any kind of request or background task',
  'One test removes one object and reads it; truncates, partial overwrites, background evictions, several objects and what happens afterwards are not covered.',
  ['fs.py', 'block_cache.py', 'mount.py', 'fsck.py', 'backends/comprenc.py'],
  [('failsafe', 'src/s3ql/fs.py:Operations.handle_damage / failsafe'), ('damage detection', 'src/s3ql/block_cache.py:BlockCache._get_entry'), ('needs_fsck', 'src/s3ql/mount.py')],
  ['error codes', 'bytes returned', 'mount and fsck exit codes', 'tree after repair'])

p('P13', 'Unclean, outdated or doubly mounted file systems are always detected',
  'A mount only starts when the newest metadata is known to be in use: if another session was not closed cleanly, if the local metadata is outdated or newer than the backend\'s, or if a check is due, the mount is refused or newer metadata is fetched - never is old local metadata or a stale cached block used over newer backend data. '
  'fsck.s3ql, mount.s3ql and s3qladm refuse a file system that is mounted on the same computer, whatever its storage URL looks like. '
  'Whatever the crash history of several machines using one backend, running fsck (as instructed) leads back to a mountable state, and the sequence of metadata generations never goes backwards.',
  ['histories', 'crash_points'],
  'all sequences of mount, unmount, crash, fsck, and machine switch on two or more local caches, with crashes between any two steps of mounting and unmounting',
  'Tests cover a single stale cache or a single crash at one point; the state machine over several machines with crashes between parameter writes is not explored.',
  ['mount.py', 'fsck.py', 'database.py', 'common.py', 'adm.py'],
  [('sequence numbers', 'src/s3ql/mount.py:get_metadata'), ('parameter files', 'src/s3ql/database.py:read_remote_params/write_params/upload_params'), ('fsck entry', 'src/s3ql/fsck.py:main_async')],
  ['exit code of each command', 'tree shown by a successful mount', 'sequence numbers in parameter objects'])

p('P14', 'Tampering with encrypted storage is always detected',
  'With encryption, no modification of stored objects by someone without the passphrase - flipping, truncating, extending, replacing, swapping or renaming objects, or altering their metadata - ever makes the system return data or metadata that was not stored under that name. '
  'Every such attempt ends in a clear error, never in wrong data, silent acceptance or an unclassified crash.',
  ['inputs'],
  'every single- and multi-byte change of the payload and metadata of every object kind, every swap and rename, every compression algorithm',
  'Tests flip one byte at a fixed place; the full space of positions, swaps and metadata field edits is not explored.',
  ['backends/comprenc.py', 'backends/common.py', 'backends/local.py', 'common.py'],
  [('object authentication', 'src/s3ql/backends/comprenc.py:AsyncComprencBackend'), ('metadata checksum', 'src/s3ql/backends/comprenc.py:_verify_meta'), ('metadata decoding', 'src/s3ql/common.py:thaw_basic_mapping')],
  ['returned data and metadata', 'exception class'])

p('P15', 'Whatever is stored through the storage layer is read back unchanged',
  'For every payload (any size, any compressibility), every metadata mapping of basic types, every key and every encryption/compression setting, reading an object returns exactly the bytes and metadata of the last completed store, from any configuration sharing the passphrase, and reported sizes are correct. '
  'Overwrites replace the whole object, reads and writes honour the starting offset and length of the local file used, and damaged compressed objects are reported as corrupted instead of returned, also without encryption (payload that is neither compressed nor encrypted has no checksum in this layer; checking it is left to s3ql_verify).',
  ['inputs', 'configurations'],
  'all payload sizes around internal buffer borders, all metadata values, all keys, all algorithms, reads with a differently configured instance',
  'Tests store a few short strings per backend; sizes around buffer borders, offsets, odd metadata and cross-algorithm reads are sampled once or never.',
  ['backends/comprenc.py', 'backends/common.py', 'backends/local.py', 'common.py'],
  [('compress/encrypt pipeline', 'src/s3ql/backends/comprenc.py'), ('metadata encoding', 'src/s3ql/common.py:freeze_basic_mapping'), ('file storage', 'src/s3ql/backends/local.py')],
  ['bytes and mapping returned by fetch/readinto/lookup', 'sizes returned'])

p('P16', 'Nothing leaves the machine unencrypted and no key or nonce is reused',
  'With encryption, no object sent to the backend contains file contents, names, link targets, attribute values, or metadata in the clear, compressed or otherwise, nor the passphrase or master key in any recoverable form without the passphrase. '
  'Every stored object is encrypted under a key/nonce combination never used before, over the whole life of the file system, including rewrites of equal content and after remounts.',
  ['inputs', 'histories'],
  'all file system histories and contents; all pairs of stored objects',
  'Tests check that data decrypts with the right passphrase; they never look at what an observer of the storage sees or whether nonces repeat.',
  ['backends/comprenc.py', 'backends/common.py', 'mkfs.py', 'adm.py', 'database.py'],
  [('encryption', 'src/s3ql/backends/comprenc.py'), ('master key handling', 'src/s3ql/mkfs.py, src/s3ql/adm.py:change_passphrase')],
  ['raw bytes of every object ever stored', 'session keys and nonces recovered from stored objects'])

p('P17', 'Remote backends behave like a correct object store despite transient faults',
  'For every remote storage protocol, any sequence of transient faults (timeouts, dropped connections at any byte, truncated or corrupted transfers, 5xx and throttling answers, expired tokens) that ends is survived: each operation finally returns the right result exactly as a simple key-value store would, and permanent errors are reported as such. '
  'Data read after a retried transfer has no duplicated, missing or mixed bytes, a successful store has stored exactly the given data, listing is complete across pages, and bulk deletion reports precisely which keys remain.',
  ['fault_sequences', 'histories'],
  'all sequences of store operations with any transient fault at any request and byte position, for every backend dialect',
  'Tests inject one fault of a kind into one operation; combinations, mid-body disconnects at arbitrary offsets with retry, and partial bulk failures are not covered.',
  ['backends/s3c.py', 'backends/s3c4.py', 'backends/s3.py', 'backends/gs.py', 'backends/swift.py', 'backends/common.py'],
  [('retry', 'src/s3ql/backends/common.py:retry'), ('protocols', 'src/s3ql/backends/*.py'), ('bulk delete', 'delete_multi of each backend')],
  ['results of backend calls versus the mock server\'s object store', 'keys left after delete_multi', 'requests received by the server'])

p('P18', 'The HTTP client delivers each response to its request, complete or not at all',
  'For every server behaviour (any chunking, any split of bytes over packets, content-length or chunked bodies, empty bodies, early responses, premature close, keep-alive or not), the client returns exactly the response of the request it belongs to, with the exact body, or raises a connection error; it never returns a truncated, padded or foreign body as complete. '
  'Malformed or oversized responses raise protocol errors instead of hanging or crashing, and a connection is usable again after disconnecting.',
  ['inputs', 'schedules'],
  'all well-formed and malformed response byte streams with all packet splits, all request kinds and pipelined sequences',
  'Tests use a cooperative server with a few fixed responses; they do not vary packet boundaries, malformed framing or truncation points.',
  ['http.py'],
  [('connection state machine', 'src/s3ql/http.py:HTTPConnection'), ('chunked decoding', 'src/s3ql/http.py'), ('connection reuse', 'src/s3ql/backends/common.py:HttpBackend')],
  ['body bytes and status per request', 'exception class', 'time to completion'])

p('P19', 'The local storage backend is atomic and complete',
  'Storing, reading, listing, looking up and deleting objects in a local directory behaves like a simple key-value store for every key, including keys with special characters, long names and common prefixes, and for concurrent use from several tasks. '
  'If the process dies at any point in a store, a reader afterwards sees the complete old or the complete new object, never a part, and listing shows exactly the stored objects.',
  ['histories', 'crash_points', 'schedules'],
  'all sequences of store/fetch/delete/list with arbitrary keys and prefixes, concurrent stores of the same key, death at every file operation',
  'Tests use a handful of simple keys sequentially; crash points, prefix listings over nested directories and concurrent stores of one key are not tested.',
  ['backends/local.py', 'backends/common.py'],
  [('write then rename', 'src/s3ql/backends/local.py:AsyncBackend.write_fh'), ('escape', 'src/s3ql/backends/local.py:escape/unescape'), ('list', 'src/s3ql/backends/local.py:list')],
  ['results of backend calls', 'directory contents after a kill'])

p('P20', 's3ql_verify reports exactly the damaged or missing objects',
  'For any set of missing or damaged data objects, a verification run lists exactly the missing objects as missing and exactly the damaged ones as corrupted, reports success only if there are none, and with fewer connections, partial runs or a starting point covers exactly the stated objects. '
  'Verification changes nothing on the backend or in the local cache.',
  ['inputs', 'configurations'],
  'all subsets of damaged and missing objects, any kind of damage, with and without reading the data, any parallelism and start position',
  'Tests damage one object at a time with default options.',
  ['verify.py', 'backends/comprenc.py'],
  [('verification', 'src/s3ql/verify.py:retrieve_objects/_retrieve_loop')],
  ['missing and corrupted output files', 'exit code', 'backend requests'])

p('P21', 'The cache stays within its limits and accounts for what it holds',
  'Under any load the local cache holds at most the configured number of bytes and blocks (beyond what is in use by requests under way), the reported usage equals what is actually in the cache directory, file descriptors do not leak, blocks within the limits are not evicted while in use, and dirty data is eventually uploaded without further requests. '
  'After a clean unmount the cache directory holds no data blocks unless the cache is kept, and then exactly those it reported as cached.',
  ['histories', 'schedules', 'configurations'],
  'all request loads, cache sizes and backend latencies',
  'Tests check one expiry; sizes are not audited over histories with truncation, partial blocks, removals and concurrent eviction.',
  ['block_cache.py', 'mount.py', 'fs.py'],
  [('size accounting', 'src/s3ql/block_cache.py:CacheDict'), ('expiry', 'src/s3ql/block_cache.py:BlockCache.expire'), ('commit task', 'src/s3ql/mount.py:CommitTask')],
  ['files in the cache directory', 'cache statistics', 'open file descriptors'])

p('P22', 'The native extensions are memory-safe and lose no dirty page',
  'No sequence of database operations, checkpoints, uploads, size changes, full disks, reopening and block cache operations makes the native database layer or the cache index access memory out of bounds or after it was freed, leak memory, or run into undefined behaviour. '
  'Every change of the tracked database file is reflected in the record of modified blocks, for every block size: copying the recorded blocks (and nothing else) always yields the same file; while writes are inhibited the file does not change. '
  'The cache index keeps its entries in order, and iterating it while it changes yields every entry that stays put exactly once and none that is gone.',
  ['inputs', 'histories'],
  'all sequences of database writes, truncations, dirty-block queries and cache index operations, at any offsets and block sizes',
  'The tests run the uninstrumented extension on a few sequences; memory errors that do not crash and off-by-one page tracking stay invisible.',
  ['sqlite3ext.pyx', '_sqlite3ext.cpp', '_linked_dict.py', 'database.py'],
  [('virtual file system', 'src/s3ql/_sqlite3ext.cpp'), ('cython wrapper', 'src/s3ql/sqlite3ext.pyx'), ('linked dict', 'src/s3ql/_linked_dict.py')],
  ['sanitizer reports', 'dirty block indices versus file diffs', 'order and lifetime of cache index entries'])

p('P23', 'Listing a directory is complete and stable while it changes',
  'A directory listing, however it is split into calls and whatever is created, removed or renamed meanwhile, returns every entry present throughout exactly once, never an entry absent throughout, and no entry twice (unless it was removed and created again). '
  'Continuing from any returned position works, and lookups implied by the listing are counted exactly once.',
  ['histories', 'schedules'],
  'all directories, buffer sizes and modifications between and during listing calls',
  'Tests list a static directory once.',
  ['fs.py'],
  [('readdir', 'src/s3ql/fs.py:Operations.readdir')],
  ['entries returned per call', 'lookup counts'])

p('P24', 'Administrative commands never lose or damage the file system',
  'Creating a file system never overwrites an existing one. After changing the passphrase or recovering the key only the new passphrase opens the file system, and the tree is the same; shrinking the database or upgrading the revision keeps the tree; restoring metadata requires a check, after which the tree is that of the chosen backup; clearing removes everything, after which a new file system can be made; none of them does anything without the right credentials and (where asked) consent. '
  'If such a command is killed or the backend fails at any step, the file system can still be opened with the old or the new credentials - as it was, or as the finished command leaves it, never with metadata of another generation - or the command can be repeated.',
  ['crash_points', 'histories', 'configurations'],
  'every administrative command, killed or failing at every backend request or file operation',
  'Tests run each command once to completion on an empty file system.',
  ['adm.py', 'mkfs.py', 'common.py', 'database.py'],
  [('passphrase change', 'src/s3ql/adm.py:change_passphrase'), ('key recovery', 'src/s3ql/adm.py:recover'), ('mkfs', 'src/s3ql/mkfs.py')],
  ['exit codes', 'tree after the command with each credential', 'backend objects'])

p('P25', 'Internal ordered index and block locks behave as specified under any use',
  'The ordered cache index always behaves like a mapping that remembers insertion order with move-to-end, for any sequence of operations; iterating while it is modified never fails or disturbs the order, only ever yields current values, yields every entry not touched meanwhile exactly once and in order, and ends once nothing is added or moved any more. '
  'The per-block lock gives mutual exclusion per key, lets unrelated keys proceed, never loses a wake-up, honours try-lock and timeouts, and survives cancellation of waiting tasks and of holders.',
  ['histories', 'schedules'],
  'all operation sequences on the index; all interleavings of lock, try-lock, release and cancellation over many keys',
  'Unit tests run a few fixed operations; modification while iterating and cancellation of waiting tasks are not covered.',
  ['_linked_dict.py', 'multi_lock.py'],
  [('ordered index', 'src/s3ql/_linked_dict.py:LinkedDict'), ('locks', 'src/s3ql/multi_lock.py:MultiLock')],
  ['results of operations', 'critical section log'])

p('P26', 'Backup expiration keeps exactly the backups its schedule calls for',
  'When the expiration tool runs after each backup, then for every schedule of age ranges there is at every moment a kept backup in each age range that the backup history is long enough to fill, whatever the real time between backups. '
  'It deletes only backups not needed for that, keeps none older than the last age range, never deletes a directory that is not a backup, running it twice in a row deletes nothing more, a dry run changes nothing, and it refuses to delete more than the allowed proportion or to run when its records are missing.',
  ['histories', 'configurations'],
  'all schedules and all sequences of backup times and tool runs',
  'There are no tests for this tool.',
  ['contrib/expire_backups.py'],
  [('rotation', 'contrib/expire_backups.py:process_backups')],
  ['directories kept and removed per run'])

p('P27', 'Background tasks store changes, remove objects and back up metadata on time',
  'While mounted, a data block that was modified and then left alone for the configured upload delay is uploaded without anybody asking for it, within bounded time, whatever other blocks are read or written meanwhile; without cache pressure or an explicit flush it is not uploaded before its delay has passed. '
  'Objects that are no longer needed are removed from the backend without further requests. A metadata backup is made at each configured interval while there are changes, and on request. After the last request everything comes to rest: nothing dirty, nothing queued.',
  ['schedules', 'histories', 'configurations'],
  'all workloads, delays, intervals and transfer times',
  'Tests wait for a single dirty block or trigger uploads explicitly.',
  ['mount.py', 'block_cache.py'],
  [('upload delay', 'src/s3ql/mount.py:CommitTask.run'), ('backups', 'src/s3ql/mount.py:MetadataUploadTask.run'), ('removals', 'src/s3ql/block_cache.py:BlockCache._removal_task')],
  ['time of modification and of upload per block', 'backend operations with times', 'objects present'])

p('P28', 'Tools for mounted file systems act on exactly what they are given',
  's3qlrm removes exactly the named entries with everything below them (a symbolic link itself, not what it points to), s3qlcp makes an equal copy at exactly the target, s3qllock makes exactly the given tree immutable, however the paths are written (relative, through symbolic links, with any byte in a name). '
  'A command that is refused - missing or existing paths, mount points, other file systems, file systems mounted by somebody else - exits non-zero and changes nothing. s3qlctrl flushcache, dropcache, cachesize, log and backup-metadata have their effect by the time they return (the backup: soon after), s3qlstat prints the true numbers, '
  'and umount.s3ql returns successfully only after all data and metadata have been uploaded, and leaves a file system in use mounted.',
  ['inputs', 'histories'],
  'all trees, names and spellings of paths, for each of the tools',
  'Tests of these tools need FUSE and use simple names.',
  ['remove.py', 'cp.py', 'lock.py', 'ctrl.py', 'statfs.py', 'umount.py', 'common.py'],
  [('removal', 'src/s3ql/remove.py:remove'), ('copy', 'src/s3ql/cp.py:cp'), ('unmount', 'src/s3ql/umount.py:blocking_umount')],
  ['tree before and after each command', 'exit codes', 'cache and backend state'])

with open(OUT, 'w') as fh:
    for x in P:
        fh.write(json.dumps(x) + '\n')
print(len(P))
