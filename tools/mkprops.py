#!/usr/bin/env python3
"""writes /verif/properties.jsonl (kept as a generator so that the file stays one valid JSON object per line)"""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=(),observe=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
                   mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=hook)))
SH='src/shr.c'; BW='lib/bw.c'; UX='lib/ux.c'; TL='util/shr-tool.c'
T="The tests sample a few dozen fixed rings, sizes and two-process scripts; "
p('P01','Messages come out exactly as written, in order, each once',
  "On a ring without farm readers, the messages returned by all readers together are exactly the messages accepted by writes, in the order of acceptance, byte for byte and with their boundaries, each delivered to exactly one reader. The only messages that may be missing are those still unread and those a drop-mode ring discarded. This holds for every message size, batch, wrap position, ring size and slot count, and however readers and writers in different processes interleave.",
  ['inputs','histories','schedules'],'all ring geometries, message sizes and batches, all histories of reads and writes by any number of processes',
  T+"wrap offsets, slot wrap, batch sizes and interleavings are unbounded.",[SH],
  [('write: copy-in loop, slot vector, wrap split','src/shr.c shr_writev'),('read: next message lookup, copy-out loop','src/shr.c next_msg_info, shr_readv')],
  [('i,u,m,mp,r,e,q','ring position state','src/shr.c shr_ctrl'),('mv','slot vector: position and length of each message','src/shr.c struct msg')],
  ['shr_write','shr_writev','shr_read','shr_readv'])
p('P02','A write is all or nothing and its return value tells which',
  "A write that returns a positive number returns the total length of the batch, and all of its messages, one per element, become readable together, adjacent and in order. A write that returns zero or a negative number has made none of its messages readable, now or later. The one exception is a ring with synchronous flushing, where an error may report that the stored messages could not be flushed.",
  ['inputs','fault_sequences','histories'],'all batches, all ring states, all failures of the system calls underneath',
  T+"no test injects a failing system call or checks that a failed write left nothing behind.",[SH],
  [('capacity checks before any change; one commit at the end','src/shr.c shr_writev'),('single-message wrapper','src/shr.c shr_write')],
  [],['shr_write','shr_writev'])
p('P03','Without drop mode unread data is kept and capacity decides the outcome',
  "On a ring without drop mode a write never overwrites, removes or shortens a message that has not been read. A write that exceeds the ring's total bytes or total message slots, is empty, or contains an empty message is refused with -1; a write that fits the ring but not its current free bytes and free slots returns 0 on a non-blocking handle and waits on a blocking one; every other write succeeds unless a system call fails. The full byte capacity and the full number of slots are usable.",
  ['inputs','histories'],'all ring states and batches',
  T+"boundary cases of bytes and slots jointly are sampled a handful of times.",[SH],
  [('admission test against free bytes and free slots','src/shr.c shr_writev'),('eviction of already-read messages only','src/shr.c shr_writev')],
  [],['shr_write','shr_writev','shr_stat'])
p('P04','Drop mode discards the oldest unread messages and no more than needed',
  "On a drop-mode ring a write that fits the ring's total capacity never waits and never returns 0. If free space or slots are short it discards whole unread messages, oldest first, and only as many as are needed to make room; the rest stay readable in order. The dropped-message and dropped-byte counters grow by exactly what was discarded.",
  ['inputs','histories'],'all ring states and batches on drop-mode rings',
  T+"drop is tested at a few sizes; minimality and exact counts over all layouts are not.",[SH],
  [('drop loop over the slot vector','src/shr.c drop_unread')],[],['shr_write','shr_writev','shr_read','shr_stat'])
p('P05','Every farm reader sees every message still in the ring, and misses are counted',
  "On a farm ring each reader independently starts at the oldest message present when it opened and receives messages in order, byte for byte, whatever other readers do. It skips only messages that were overwritten before it read them, then resumes at the oldest one available, and its drop count grows by exactly the number skipped until it is reset. A message leaves the ring only when its bytes or its slot are needed for a newer one.",
  ['inputs','histories','schedules'],'all farm rings, all writer/reader histories, any lag',
  T+"a reader's lag relative to wrap of bytes and of slots is unbounded.",[SH],
  [('sequence numbers and catch-up','src/shr.c next_msg_info'),('eldest-message advance','src/shr.c shr_writev'),('drop count','src/shr.c shr_farm_stat')],
  [('q','sequence number of the eldest message / of the next message of a reader','src/shr.c')],['shr_read','shr_readv','shr_farm_stat'])
p('P06','A read returns whole messages and reports exactly what it delivered',
  "A read delivers as many whole unread messages as fit the caller's buffer and element count, never part of one; the returned total, the element count and each element's address and length describe exactly the messages placed back to back in the buffer, and nothing beyond them is written. If the next message does not fit the buffer it returns -2 and the message stays unread; with nothing to read a non-blocking handle returns 0; a zero-length buffer or zero elements gives -1. The element count is always set to the number delivered.",
  ['inputs','histories'],'all ring states, buffer sizes and element counts',
  T+"buffer-edge and wrap combinations are unbounded.",[SH],
  [('copy-out loop','src/shr.c shr_readv'),('single-message wrapper','src/shr.c shr_read')],[],['shr_read','shr_readv'])
p('P07','Shared ring state is touched only under the ring lock, which is always released',
  "Every access a process makes to the changing part of a ring, including the wait/wake registries, happens while it holds an exclusive whole-file lock on the ring. Every library call returns with the lock released, on success and on every error path. No call sleeps waiting for data or space while holding the lock.",
  ['schedules','fault_sequences','inputs'],'all paths through every library call, including failing system calls',
  "A missing lock or unlock shows only under a particular interleaving or fault; tests run sequential scripts.",[SH],
  [('file lock','src/shr.c lock, unlock'),('call sites','src/shr.c shr_open, shr_readv, shr_writev, shr_flush, shr_appdata, shr_stat, shr_close, shr_init')],
  [],['fcntl lock calls made by the library'])
p('P08','Every waiting reader and writer is woken when data or space appears',
  "Before a successful write releases the ring, a wakeup has been issued to every registered waiting reader; before a read that removed data releases the ring, a wakeup has been issued to every registered waiting writer unless a system call fails. A blocking call goes to sleep only after finding, under the lock, that it cannot proceed, and after waking it checks again. So no wakeup is lost however the processes interleave.",
  ['schedules','histories'],'all interleavings of readers and writers',
  "Lost wakeups need a particular interleaving; tests run fixed sleeps.",[SH,BW],
  [('wake after write','src/shr.c shr_writev'),('wake after read','src/shr.c shr_readv'),('broadcast','lib/bw.c bw_wake')],
  [],['shr_read','shr_write','selectable descriptor'])
p('P09','The selectable descriptor is ready exactly when unread data remains',
  "When a reader is opened and when each of its read calls returns anything but -1 (messages, nothing, or a too-small buffer), its selectable descriptor is readable if unread messages for that reader remain and not readable if none do, until some process next changes the ring (provided the system calls involved succeed). A selectable descriptor is given only for a non-blocking read handle; otherwise -1.",
  ['histories','schedules','inputs'],'all ring states at open and after each read, any number of queued wakeups',
  T+"only a few queued-wakeup counts are tried.",[SH,BW],
  [('forced readiness after read and at open','src/shr.c shr_readv, open_blockwake'),('drain / self wake','lib/bw.c bw_force, drain_msgs')],
  [],['shr_get_selectable_fd','shr_readv'])
p('P10','Buffered writing loses, duplicates and reorders nothing',
  "For a buffered writer, the messages that reached the ring followed by those still in its buffer are always exactly the messages its writes accepted, in order and byte for byte. A flush (explicit, triggered by a full buffer, or at close) moves the whole buffer to the ring at once or, if the ring has no room or an error occurs, leaves it intact; a write that could not be accepted reports it and is not buffered. What is buffered can always be flushed at once into an empty ring.",
  ['histories','inputs','fault_sequences'],'all sequences of writes and flushes, blocking or not',
  T+"buffer-full boundaries combined with a full ring are not enumerated.",[SH],
  [('buffer fill and flush','src/shr.c shr_writev, shr_flush, shr_close'),('buffer sizing','src/shr.c init_cache')],[],['shr_writev','shr_flush','shr_close'])
p('P11','Ring creation makes exactly the ring asked for, or nothing',
  "Creating a ring succeeds only with valid flags and a non-zero size, and leaves an empty ring file of the requested byte capacity, message limit (or the default derived from the size), mode flags and application data, large enough for everything it records. If any step fails, or the sizes cannot be represented, it returns -1 and leaves no ring file behind that it created; with keep-existing an existing file is left untouched, otherwise it is replaced by a fresh file.",
  ['inputs','fault_sequences','configurations'],'all sizes, limits, flag combinations and failing system calls',
  T+"size overflow and failing system calls are never exercised.",[SH],
  [('layout computation, initialisation and cleanup','src/shr.c shr_init')],[],['shr_init','shr_open','shr_stat'])
p('P12','Opening accepts exactly well-formed rings and valid modes',
  "Opening requires exactly one of read and write mode and no creation-only flags. It is refused for a file that is too short to be a ring, lacks the ring signature, is shorter than its recorded layout, or records a fill level, write position or read slot outside its bounds; it succeeds for every ring this library created and has used, in whatever state, unless a system call fails or all waiter slots are taken. A handle's positions start at the ring's current state and opening changes no message.",
  ['inputs','histories','configurations'],'all flag words and all file contents of the ring header',
  T+"mode combinations and header corruptions are barely sampled.",[SH],
  [('flag and ring validation','src/shr.c validate_flags, validate_ring, shr_open')],[],['shr_open'])
p('P13','Application data is read and replaced exactly, within its bounds',
  "Fetching application data returns exactly the stored bytes and their length, into a new buffer or into a caller buffer that is large enough, and never reads or writes outside the stored area or the caller's buffer. Storing requires exactly the stored length and replaces the bytes; fetching and storing in one call returns the old bytes and leaves the new ones. A call that fails changes neither the stored data nor the ring, except that on a ring with synchronous flushing an error may report that a completed change could not be flushed. Fetching and storing in one call needs a caller buffer.",
  ['inputs','histories'],'all lengths, argument combinations and contents',
  T+"only equal lengths are tried.",[SH],[('get/set under lock','src/shr.c shr_appdata')],[],['shr_appdata'])
p('P14','Statistics are exact',
  "The written/read byte and message counters equal the totals of successful writes and reads since the last reset, the dropped counters the totals discarded, and the gauges equal the ring's current unread bytes and messages, its capacity, slot count and modes, and the caller's own buffer. Asking for statistics changes nothing except that a requested reset zeroes the counters, after reporting them, and records the start time.",
  ['histories','inputs'],'all histories of operations and resets',
  T+"counters are printed in a few scripts only.",[SH],
  [('counter updates','src/shr.c shr_writev, shr_readv, drop_unread'),('report and reset','src/shr.c shr_stat')],[],['shr_stat'])
p('P15','No library call goes out of bounds or aborts',
  "For every valid handle and every argument list whose buffers are as large as stated, no library call reads or writes outside the ring mapping's proper areas, the caller's buffers or its own allocations, uses freed or uninitialised memory, or trips an internal assertion. This holds on a ring in any state the library can produce, with any message sizes and counts.",
  ['inputs','histories','fault_sequences'],'all ring states, arguments and failing system calls',
  "Bounds and assertion failures depend on values tests do not sample.",[SH,BW],
  [('bounds implied by the ring state invariant','src/shr.c shr_readv, shr_writev, next_msg_info, drop_unread'),('fixed-size registries','lib/bw.c')],[],['all library calls'])
p('P16','Each waiter owns one registry slot, and only dead waiters lose theirs',
  "Registering as a waiter takes a free slot, stores the caller's process id and its socket's own name in it, and fails only if all 64 are taken or a system call fails; it never disturbs another waiter's slot. A slot is released when its owner closes, or when its owner is known to be gone; a slot whose owner is alive with that socket open, or whose status cannot be determined, is left alone. (A wakeup refused for any reason other than a full queue counts as the waiter being gone.) Every change to the registry is made noticeable to processes that wake.",
  ['histories','fault_sequences','schedules'],'all registry contents, all orders of open, close and death',
  "Registry contents with stale or 64 entries are hardly tested.",[BW],
  [('reserve / prune / release','lib/bw.c bw_reserve, prune_handle, bw_open, bw_close, open_socket, wake_one')],[],['bw_open','bw_close','registry contents'])
p('P17','A wakeup reaches every registered waiter, whoever came or went',
  "A successful wake call sends to the socket of every waiter registered at that moment and to no one else, reconnecting as needed when waiters joined, left or were replaced since the last call. A waiter that is gone is dropped from the registry without failing the call and without keeping the others from being woken; a waiter whose queue is full counts as woken.",
  ['histories','fault_sequences'],'all registry histories between two wake calls, all send failures',
  "Tests use one or two waiters that never die mid-sequence.",[BW],
  [('connection table sync','lib/bw.c bw_sync, open_socket'),('send','lib/bw.c bw_wake, wake_one')],[],['bw_wake'])
p('P18','Liveness probing says gone only for a waiter that is gone',
  "The test whether a process still holds a named socket answers yes only if that process has open a socket of exactly that name, no only if the process does not exist or holds no such socket, and otherwise reports that it cannot tell. It is right for every well-formed content of the kernel's socket table and descriptor listing, including sockets without names.",
  ['inputs','fault_sequences'],'all contents of /proc/net/unix and /proc/<pid>/fd, all read failures',
  "The answer depends on what else runs on the machine; tests see one table.",[UX],
  [('descriptor listing, table parsing','lib/ux.c has_pid_socket, get_socket_inodes, has_socket_name, get_col, slurp_special')],[],['has_pid_socket'])
p('P19','Opening and closing leak nothing',
  "An open that fails, at whatever step, leaves no descriptor, memory, mapping or registry slot behind, and so does a failed ring creation. Closing a handle releases all of these unless the ring lock cannot be obtained, and a liveness probe releases everything it opened. Nothing is released twice.",
  ['fault_sequences','inputs'],'every step of open, create, close and probe failing in turn',
  "No test makes a step fail.",[SH,BW,UX],
  [('cleanup paths','src/shr.c shr_open, shr_init, shr_close; lib/bw.c bw_open, bw_close; lib/ux.c')],[],['descriptor table, registry'])
p('P20','A watched descriptor interrupts a blocked call with -3 and no effect',
  "When a caller's descriptor has been registered on a handle and becomes ready while a read or write of that handle is blocked, the call returns -3 having transferred nothing and consumed nothing; when the ring's own wakeup is what became ready, the call carries on instead. A failed wait returns -1, also with no effect.",
  ['schedules','inputs','fault_sequences'],'all wait outcomes at all blocking points',
  T+"only a single timing is tried.",[SH,BW],
  [('wait set','lib/bw.c bw_wait_ul, bw_ctl'),('return paths','src/shr.c shr_readv, shr_writev, shr_ctl')],[],['shr_ctl','shr_readv','shr_writev'])
p('P21','Subscribing recovers exactly the published frames',
  "For every byte stream of length-prefixed frames and however the network splits it, the subscriber writes to its ring exactly the frames of the stream in order, each once, keeping an incomplete tail for later; if its ring refuses a batch of frames it stops with an error. A frame of length zero, or longer than it can hold, is refused instead of being waited for; the publisher sends each message as its exact length followed by its bytes.",
  ['inputs','schedules'],'all streams, all segmentations, all frame sizes',
  "No test covers the network modes.",[TL],
  [('frame decoding','util/shr-tool.c decode_frames, do_subscriber'),('frame sending','util/shr-tool.c handle_io')],[],['shr-tool pub','shr-tool sub'])
p('P22','The read, publish and tee modes of the tool pass each message on complete',
  "For every message it takes from its ring, the tool's raw read mode writes exactly the message's bytes to standard output, even if the system accepts them in several pieces, and stops with an error if writing fails. Publish mode does the same to its client, and drops the client if writing fails. Tee mode writes each message to both target rings and stops if either refuses it.",
  ['inputs','fault_sequences'],'all messages, all short or failing writes',
  "No test runs the tool.",[TL],[('output loops','util/shr-tool.c handle_io')],[],['shr-tool read','shr-tool pub','shr-tool tee'])
p('P23','Hex input is decoded exactly or refused',
  "The tool's hex argument is accepted only if it is a non-empty, even-length string of hexadecimal digits, upper or lower case, and then yields exactly the bytes it denotes, in order. Anything else is refused.",
  ['inputs'],'all strings','No test runs the tool.',[TL],[('hex decoder','util/shr-tool.c unhex')],[],['shr-tool writehex'])
p('P24','A writer that dies in mid-write leaves the unread messages intact',
  "On a ring without drop mode, if a writer is killed at any moment during a write, the messages that were unread before remain readable afterwards, unaltered and in order. The messages of the interrupted write become readable either completely or not at all.",
  ['crash_points','histories','inputs'],'every store of every write as the last one performed',
  "No test kills a writer at a chosen store.",[SH],
  [('order of stores: data and slots first, message count last','src/shr.c shr_writev')],[],['shr_read after a killed writer'])
p('P25','Blocking happens only where the mode allows it',
  "A call on a non-blocking handle never sleeps waiting for data or space, and a writer on a drop-mode or farm ring never sleeps at all; the one exception is a flush that asks to wait on a non-blocking handle. That flush blocks until the buffer is written, after which the handle is non-blocking again whatever the outcome. Handle modes are otherwise never changed by a call.",
  ['inputs','histories','fault_sequences'],'all handles, ring states and failures',
  T+"mode restoration on error paths is not tested.",[SH],
  [('mode tests before waiting','src/shr.c shr_readv, shr_writev, shr_flush')],[],['shr_readv','shr_writev','shr_flush'])
p('P26','Synchronous and locked rings are flushed and locked as promised',
  "On a ring created for synchronous flushing, every call that changed the ring flushes the whole mapping before it returns success, while still holding the lock; on other rings no flush is made. (A read that delivered messages returns them even if its flush fails; the registry change of a flush that asks to wait is covered by the later flush of the same call.) On a ring created to be locked in memory, an open succeeds only after the whole mapping has been locked.",
  ['configurations','fault_sequences','histories'],'all calls on all rings with and without these modes',
  "The tests cannot see whether a flush happened.",[SH],
  [('sync','src/shr.c shr_sync and its call sites'),('mlock','src/shr.c shr_open')],[],['msync and mlock calls'])
p('P27','Blocked callers eventually proceed',
  "If data keeps being written, every blocked reader process eventually returns with a message or finds others consumed it, and if space keeps being freed, a blocked writer whose batch fits eventually completes. No operation holds the ring lock for unbounded time.",
  ['schedules','histories'],'all fair infinite schedules',
  "Liveness over infinite schedules cannot be sampled.",[SH,BW],[('retry loops','src/shr.c shr_readv, shr_writev')],[],['shr_read','shr_write'])
p('P28','Creating rings with the tool makes exactly the rings asked for',
  "The tool's create mode makes every ring named, in the order named, with the size asked for (a number, times 1024, 1024^2, 1024^3 or 1024^4 for the suffix k, m, g or t in either case), exactly the modes whose letters were given, the message limit if one was given, and the content of the given file as application data. Of several sizes, limits or files the last counts; mode letters accumulate. A size, mode letter or option that is not understood is refused before any ring is made, and nothing else is refused. The exit status is 0 only if every ring was made; the tool stops at the first that cannot be made. (Sizes below 2^63, limits below 2^31.)",
  ['inputs','configurations','fault_sequences'],'all option sequences, all files, all failures',
  "No test runs the tool; the combinations of options are unbounded.",[TL],[('options, create mode','util/shr-tool.c main'),('file mapping','util/shr-tool.c map')],[],['shr-tool create'])
p('P29','Lines and files written with the tool arrive as the messages they are',
  "The tool's write mode stores each line of its input, without the newline, as one message, in order and each once, whether or not the last line ends in a newline; its writefile mode stores the whole content of the file as one message. At the first message the ring refuses the tool stops. The exit status is 0 only if everything was stored, and not 0 if the ring or the file cannot be opened or a message is refused. (Lines of 1 to 998 characters other than NUL; non-empty files.)",
  ['inputs','fault_sequences'],'all inputs, all files, all refusals',
  "No test runs the tool.",[TL],[('write and writefile modes','util/shr-tool.c main'),('file mapping','util/shr-tool.c map')],[],['shr-tool write','shr-tool writefile'])
p('P30','The status the tool shows is the status of the ring, and looking changes nothing',
  "The tool's status mode shows each of the ten statistics of the ring under its own name with its own value, exactly the attributes the ring's flags have, and the size of its application data (0 if it has none). It writes nothing to the ring and does not reset the statistics. Given a file, it copies exactly the application data into it, replacing what was there. The exit status is not 0 if the ring cannot be opened or its statistics cannot be read.",
  ['inputs','configurations','fault_sequences'],'all rings, all statistics, all application data',
  "No test runs the tool.",[TL],[('status mode','util/shr-tool.c main')],[],['shr-tool status'])
open(os.path.join(os.path.dirname(__file__),'..','properties.jsonl'),'w').write(''.join(json.dumps(x)+'\n' for x in P))
for x in P:
    assert len(x['title'])<=80,x['title']
print(len(P))
