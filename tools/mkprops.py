#!/usr/bin/env python3
"""Writes properties.jsonl. The file is committed; this is only its editable form."""
import json, os

P = []


def prop(id, title, statement, over, text, why, files, state, mech, observe, hook=False):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
            "mechanism": [{"name": n, "where": w} for n, w in mech],
            "observe_at": observe,
            "hook_needed": hook,
        },
    })


T = "src/transport.c"
prop("C01", "Committed messages stay intact until evicted, and eviction is oldest-first",
     "Every message committed to a transport stays readable with exactly the size and bytes its writer gave it until it is evicted or the transport is cleared. "
     "Making room only ever discards messages from the oldest end, and the live messages always lie inside the arena, aligned, and disjoint from each other and from the bookkeeping header.",
     ["histories", "inputs"],
     "every reachable ring state with a bounded number of live messages, every arena size, message size and message content, and every next operation (write, clear, resize, abandon)",
     "tests use a handful of fixed sizes in one or two arena sizes; the wrap-around, exact-fit and multi-eviction geometries are a product of sizes no test enumerates",
     [T, "include/a0/transport.h"],
     [("state page (seq_low, seq_high, off_head, off_tail, high_water_mark)", "what is live and where it is", T + ":25"),
      ("frame header (seq, off, next_off, prev_off, data_size)", "per-message links and size", "include/a0/transport.h")],
     [("slot search, eviction loop, slot initialisation", T + ": a0_transport_find_slot, a0_transport_evict, a0_transport_alloc")],
     ["a0_transport_alloc / a0_transport_commit followed by iteration from oldest to newest"])

prop("C02", "Sequence numbers are gapless and iteration visits every live message once",
     "Each committed message gets the number after the previous commit's, and the live messages always form one contiguous run of numbers. "
     "Stepping forward from the oldest, or backward from the newest, visits each live message exactly once in order and then reports that there is no further message. "
     "A cursor whose message was evicted is reported as invalid, cannot step backward, and its next forward step lands on the oldest live message.",
     ["histories", "inputs"],
     "every ring state with a bounded number of live messages, every 64-bit starting sequence number, every cursor position (including stale ones) and every following write/clear",
     "tests iterate short, freshly written transports starting at sequence 1; stale cursors combined with wrap-around and multi-eviction are not enumerated",
     [T],
     [("cursor (_seq,_off)", "position of this transport handle", "include/a0/transport.h")],
     [("jump_head/jump_tail/step_next/step_prev/has_next/has_prev/iter_valid", T)],
     ["a0_transport_{jump_head,jump_tail,step_next,step_prev,has_next,has_prev,iter_valid,frame,seq_low,seq_high}"])

prop("C03", "A writer dying at any instruction leaves the transport consistent",
     "If a process dies at any point inside a write, an eviction, a clear or a resize, the next process to lock the transport finds a consistent transport. "
     "The live messages it sees are those before the interrupted operation minus zero or more of the oldest, plus the new message only if its commit had taken effect; each has the bytes it was committed with, and the transport accepts further writes.",
     ["crash_points", "histories"],
     "every store and every position inside block copies made by the operation, from every ring state with a bounded number of messages",
     "a test can kill a process only at a few places; the interesting points are single stores inside commit and eviction",
     [T],
     [("committed_page_idx", "selects which state page is authoritative", T + ":48"), ("state_pages[2]", "double-buffered bookkeeping", T + ":47")],
     [("page flip before page copy", T + ": a0_transport_commit"), ("discarding of unfinished changes on lock", T + ": a0_transport_lock")],
     ["state seen by a0_transport_lock + iteration in the surviving process"])

prop("C04", "A message is visible only after it is committed",
     "An allocated message that has not been committed is never visible to a later lock holder: after unlocking, dying, or waiting, it is gone, and sequence numbers and live messages are those of the last commit. "
     "This holds whichever access mode the arena is opened with, including an arena left behind by a process that died between allocation and commit.",
     ["histories", "crash_points", "configurations"],
     "every arena mode (shared, exclusive, read-only), every ring state, abandonment by unlock, by death, or by death while another process waits",
     "tests only commit before unlocking, or never reopen in another mode after an abandoned allocation",
     [T],
     [("working page", "uncommitted bookkeeping", T + ":74")],
     [("rollback on lock/unlock", T + ": a0_transport_lock, a0_transport_unlock"), ("wait paths re-acquire the mutex", T + ": a0_transport_timedwait, a0_transport_shutdown")],
     ["a0_transport_{empty,seq_high,jump_tail,frame} in the next lock holder"])

prop("C05", "Allocation admits exactly what fits and predicts eviction exactly",
     "An allocation succeeds if and only if the message with its header fits in the arena when empty; otherwise it fails with the frame-too-large error and changes nothing visible. "
     "The eviction query answers true exactly when the allocation it describes would discard a message, and reports the same errors; a write discards nothing while there is room for it right after the newest message and that room does not belong to a live message.",
     ["inputs", "histories"],
     "every requested size from 0 to the largest size_t, every arena size, every ring state with a bounded number of messages",
     "sizes near the end of the arena and near the end of the integer range are not in any test; a wrapped sum is accepted silently",
     [T],
     [("arena_size", "usable bytes", T + ":50")],
     [("size and offset arithmetic", T + ": a0_transport_find_slot, a0_transport_slot_evicts, a0_transport_alloc_evicts")],
     ["return values of a0_transport_alloc and a0_transport_alloc_evicts; live messages afterwards"])

prop("C06", "Space accounting covers live data and resize never cuts it",
     "The reported used space is always at least the end of the furthest live message and never exceeds the arena, and for an empty transport it is the fixed header overhead. "
     "Resizing to less than the used space is refused without effect; an accepted resize keeps every live message intact and later writes stay within the new size.",
     ["histories", "inputs"],
     "every ring state (wrapped or not) with a bounded number of messages, every resize argument, followed by any write or eviction",
     "the high-water mark must be recomputed when the frame that set it is evicted; only one or two such sequences are tested",
     [T], [("high_water_mark", "end of furthest live frame", T + ":30")],
     [("high-water mark maintenance", T + ": a0_transport_remove_head, a0_transport_update_high_water_mark"), ("resize", T + ": a0_transport_resize")],
     ["a0_transport_used_space, a0_transport_resize and subsequent iteration"])

prop("C07", "Jumping to an arbitrary offset never reaches outside the arena",
     "Jumping a cursor to any offset either fails with a range error leaving the cursor where it was, or succeeds on an aligned offset whose whole message, as recorded there, lies inside the arena. "
     "Jumping to the offset of any live message always succeeds and yields that message.",
     ["inputs", "histories"],
     "every 64-bit offset, every stored size value, every arena size",
     "tests try a few offsets; sums that wrap past the end of the integer range are never tried",
     [T, "src/reader.c"], [("frame header at the target", "size is trusted from memory", T + ":246")],
     [("range checks", T + ": a0_transport_jump")],
     ["a0_transport_jump, a0_transport_frame, a0_read_random_access"])

prop("C08", "Opening an arena keeps an existing transport and makes a blank one empty",
     "Opening an all-zero arena yields an empty transport usable at its full size; opening an already initialised one changes no live message, number or size, however many times and in whichever mode it is opened. "
     "An arena in the previous on-disk format is converted keeping its live messages, numbers and order. "
     "If the opener dies part way through initialising a blank arena, the next opener still gets an empty usable transport.",
     ["histories", "crash_points", "configurations"],
     "every ring state, every arena mode, every crash point inside first initialisation",
     "tests open fresh files or reopen clean ones; interrupted initialisation is never exercised",
     [T], [("initialized flag", "set last", T + ":42")],
     [("init", T + ": a0_transport_init"), ("format conversion", T + ": a0_backward_compatiblility_update_from_0_2")],
     ["a0_transport_init then iteration"])

K = "src/packet.c"
prop("C09", "Packets survive serialisation and copying; allocator failure is reported",
     "Serialising any packet and reading it back, through the flat accessors or by deserialising, or deep-copying it, yields the same id, the same headers in the same order (duplicates included) and the same payload, using exactly the predicted number of bytes. "
     "Header iteration yields each header once, and key lookup yields exactly the headers with that key in order. "
     "If the supplied allocator fails, its error is returned and no memory is written.",
     ["inputs", "fault_sequences"],
     "every packet with a bounded number of header blocks, headers, header lengths and payload bytes; allocator success or failure",
     "tests use a few hand-written packets in a single block; empty strings, empty blocks and chains of blocks and failing allocators are not combined",
     [K, "include/a0/packet.h"], [("flat layout", "id, header count, offsets, payload offset, content", K + ":78")],
     [("serialize/deserialize/deep_copy/flat accessors/iterators", K)],
     ["a0_packet_{stats,serialize,deserialize,deep_copy}, a0_flat_packet_*, header iterators"])

W = "src/writer.c"
prop("C10", "A write publishes exactly one complete message, or fails without effect",
     "A successful write through any stack of middleware commits exactly one new message holding the caller's id, headers and payload plus each added standard header once. "
     "A failed write returns its error and leaves the live messages as they were apart from evictions. "
     "Either way the transport lock is released before the call returns, and concurrent writers' messages are never merged or lost.",
     ["inputs", "histories", "fault_sequences"],
     "every packet size relative to the arena, every composition of the shipped middleware up to a bounded depth, allocation failures",
     "tests only write packets that fit, and the middleware tests are not part of the suite that runs",
     [W, "src/middleware.c", T], [("middleware chain", "composition order and locked/unlocked phase", W + ":20")],
     [("write action", W + ": a0_write_action_process, a0_write_action_process_locked"), ("header middleware", "src/middleware.c")],
     ["a0_writer_write return value, transport contents and mutex state afterwards"])

R = "src/reader.c"
prop("C11", "Sync readers deliver each message once, in order, per start and step mode",
     "A reader stepping through all messages returns, on each read, the oldest live message newer than the last one it returned; a reader stepping to the newest returns the newest message, and never the same message twice. "
     "The first read follows the start mode: oldest available, most recent at creation, or only messages written after creation. "
     "Availability queries agree with what a read at that moment would do, and reading when nothing is available reports try-again without moving the cursor.",
     ["histories", "configurations"],
     "every start mode and step mode, every bounded history of writes, clears and reads, with evictions overtaking the reader",
     "tests cover each mode with one short history and no overtaking writer",
     [R, T], [("first-read flag, cursor", "whether the cursor message was already delivered", R)],
     [("align/step logic", R + ": a0_reader_sync_zc_read")],
     ["a0_reader_sync_{can_read,read}, a0_reader_sync_zc_*"])

prop("C12", "Threaded readers call back once per message in order and never after close",
     "A threaded reader invokes its callback at most once per message, in increasing order, without skipping a message that stayed live (in step-through-all mode), starting where its start mode says. "
     "Once closing returns, the callback is never invoked again and the thread has ended; closing from inside the callback is refused instead of hanging.",
     ["schedules", "histories", "configurations"],
     "every start/step mode, every bounded sequence of writes, clears and the close request placed at every point where the reader thread releases the lock",
     "the reader tests are not part of the suite that runs, and thread timing cannot be placed by a test",
     [R], [("started-empty, shutdown flags", "hand-off between creator and thread", R)],
     [("reader thread main loop", R + ": a0_reader_zc_thread_main"), ("close", R + ": a0_reader_zc_close")],
     ["callback invocations between a0_reader_zc_init and a0_reader_zc_close"])

prop("C13", "Blocking waits end only for data, deadline or shutdown",
     "A blocking wait or read succeeds only when its condition holds at return with the lock held, times out only at or after its deadline, and reports shutdown only when shutdown was requested. "
     "It does not keep waiting once its condition is true, its deadline has passed or shutdown was requested, and with an unusable deadline it returns an error rather than spinning while holding the lock.",
     ["schedules", "inputs", "fault_sequences"],
     "every deadline value, every non-decreasing clock, every bounded sequence of wakeups (spurious, after writes, after owner death) and shutdown requests",
     "tests wait on one writer with one deadline; spurious wakeups, owner death while waiting and malformed deadlines are not produced",
     [T, R], [("wait count, shutdown flag", "waiter bookkeeping", T + ":366")],
     [("timed wait loop", T + ": a0_transport_timedwait"), ("blocking read", R + ": a0_reader_sync_zc_read_blocking")],
     ["a0_transport_{wait,timedwait,shutdown}, a0_reader_sync_read_blocking*"])

M = "src/mtx.c"
prop("C14", "The shared mutex excludes, survives owner death, and only its owner unlocks it",
     "At most one live thread holds the mutex at any time under any interleaving of lock, try-lock, timed lock and unlock. "
     "If the holder dies, exactly one later locker acquires it and is told the previous owner died; once that locker unlocks, the next one is not told again. "
     "Unlocking by a non-owner fails with no effect, and re-locking by the owner fails instead of hanging.",
     ["schedules", "crash_points"],
     "every interleaving of a bounded number of threads at the granularity of single atomic accesses and kernel calls, with death of a holder at any such point",
     "stress tests sample schedules; the windows are a few instructions wide",
     [M, "src/ftx.h", "src/robust.c"], [("futex word", "owner id, waiters bit, owner-died bit", "include/a0/mtx.h")],
     [("lock/trylock/unlock", M)],
     ["return values of a0_mtx_{lock,trylock,timedlock,unlock}"])

prop("C15", "Every held lock is findable by the kernel at every instant",
     "At every instant of every thread, each mutex whose lock word names that thread is reachable from the thread's registered robust list or its pending slot, so the kernel can release it if the thread dies there. "
     "Locks may be taken and released in any order without corrupting the list, and a released lock is no longer on it.",
     ["crash_points", "histories"],
     "every store inside lock, try-lock, unlock and condition waits, over every bounded order of locking and unlocking several mutexes",
     "needs death between two adjacent stores, with several locks held",
     ["src/robust.c", M, "src/deadman_mtx.c"], [("robust list head and pending slot", "what the kernel walks on exit", "src/robust.c:33")],
     [("list add/delete and pending marking", "src/robust.c")],
     ["list reachable from the registered head versus lock words"])

prop("C16", "Condition waits re-acquire the lock and never miss a wakeup",
     "A condition wait releases the mutex, and whatever it returns other than an argument or ownership error the caller holds the mutex again. "
     "A signal sent after the waiter released the mutex wakes at least one waiter and a broadcast wakes all; a timed-out wait says so even if a previous owner died, and invalid deadlines are refused with the mutex still held.",
     ["schedules", "fault_sequences", "inputs"],
     "every interleaving of bounded waiters and wakers at single atomic-access granularity, every kernel result for the wait (woken, value changed, timed out, previous owner died), every deadline",
     "the lost-wakeup window is between reading the counter and sleeping",
     [M, "src/ftx.h"], [("condition counter", "generation of wakeups", M + ":148")],
     [("wait with requeue", M + ": a0_cnd_timedwait"), ("wake", M + ": a0_cnd_wake")],
     ["a0_cnd_{wait,timedwait,signal,broadcast} results and mutex ownership"])

prop("C17", "Events and latches release waiters exactly when set or counted down",
     "An event wait returns success only if the event is set and returns once it is set; a latch wait returns only when the count has reached zero and returns once it has. "
     "Setting an event or counting down wakes every waiter under every interleaving, and timed waits report a timeout only if the deadline passed.",
     ["schedules", "inputs"],
     "every interleaving of a bounded number of waiters and setters, every count and decrement order",
     "tests run two or three threads a few times",
     ["src/event.c", "src/latch.c"], [("set flag / count", "the condition", "include/a0/event.h, include/a0/latch.h")],
     [("wait loops", "src/event.c, src/latch.c")],
     ["a0_event_*, a0_latch_*"])

prop("C18", "Deadman locks have one owner and wake every waiter on release or death",
     "At most one live owner holds a deadman at a time, and every acquisition gets a token different from all earlier ones. "
     "When the owner releases or dies, every thread blocked waiting for that release proceeds and some thread blocked on taking it gets it; nobody sleeps forever while the condition they wait for is true. "
     "Waiting for release of a token does not return success while that owner still holds, and shutdown ends every pending wait.",
     ["schedules", "crash_points"],
     "every interleaving of a bounded number of takers, waiters and releasers at single atomic-access granularity, owner death at any point",
     "lost wakeups need an exact order of a few atomic accesses",
     ["src/deadman_mtx.c", "src/deadman.c"], [("lock word and token counter", "ownership and generation", "include/a0/deadman_mtx.h")],
     [("take/wait loops", "src/deadman_mtx.c")],
     ["a0_deadman_mtx_*, a0_deadman_*"])

prop("C19", "The hash map behaves like a dictionary",
     "After any sequence of insertions, overwrites, removals and lookups, the map contains exactly the keys a plain dictionary would, each with its latest value; its size is that count, and iteration yields each entry exactly once. "
     "Looking up or removing an absent key reports not-found and changes nothing.",
     ["histories", "inputs"],
     "every bounded operation sequence over every choice of keys and every hash function (all collision patterns)",
     "probe-chain bugs need particular collision, wrap-around and delete orders",
     ["src/map.c"], [("bucket distance-from-home", "probe bookkeeping", "src/map.c")],
     [("displacement insert, backward-shift delete, growth", "src/map.c")],
     ["a0_map_{put,get,has,del,pop,size,empty}, a0_map_iterator_*"])

prop("C20", "Comparators are consistent total orders and agree with the hashes",
     "For every pair of values the built-in comparators are antisymmetric and transitive, and report equality exactly when the values are equal. "
     "Values that compare equal hash equally, and hashing or comparing reads only the bytes of its arguments.",
     ["inputs"],
     "all 32-bit, 64-bit and pointer-sized values; all buffers and strings up to a bounded length; all id byte values",
     "subtraction-style comparators are wrong only for values far apart",
     ["src/cmp.c"], [], [("comparators and hashes", "src/cmp.c")], ["A0_CMP_*, A0_HASH_*, a0_cmp_eval, a0_hash_eval"])

prop("C21", "Path patterns match exactly the paths their wildcards describe",
     "A path matches a pattern exactly when they agree component by component, where * stands for any run of characters within a component and a ** component stands for any number of whole directory components. "
     "The answer depends only on the two strings, and every pattern or path string is either accepted or refused with an error without memory being corrupted.",
     ["inputs"],
     "every pattern and path up to a bounded length over separators, wildcards and ordinary characters; depth up to and past the supported maximum",
     "backtracking errors show only for particular combinations of wildcards",
     ["src/pathglob.c"], [("component table", "at most a fixed number of components", "include/a0/pathglob.h")],
     [("split and match", "src/pathglob.c")], ["a0_pathglob_init, a0_pathglob_match"])

prop("C22", "Topic names map to one file path under the root and back",
     "A topic name is placed verbatim into its path template, so distinct topics give distinct paths; empty or absolute topic names are refused with an error. "
     "Relative paths resolve under the configured root and absolute paths are unchanged.",
     ["inputs", "configurations"],
     "all topic, template and root strings up to a bounded length",
     "tests use a few ordinary names",
     ["src/topic.c", "src/file.c", "src/env.c"], [("template", "environment or default", "src/env.c")],
     [("path building", "src/topic.c, src/file.c: a0_abspath")], ["path returned/opened for a topic"])

prop("C23", "Numbers and timestamps survive conversion to text and back",
     "Writing any unsigned integer or timestamp as text and parsing it gives back the same value, and the text has the documented fixed width and form. "
     "Text containing anything but the documented form is rejected with an error rather than parsed to some value.",
     ["inputs"],
     "all 64-bit integers; all timestamps in the documented range; all strings up to the text length",
     "a two-digit table or a digit position error affects few values",
     ["src/strconv.c", "src/time.c"], [("two-digit table", "formatting", "src/strconv.c")],
     [("format and parse", "src/strconv.c, src/time.c")],
     ["a0_time_mono_str/parse, a0_time_wall_str/parse, a0_u64_to_str/a0_str_to_u64"])

prop("C24", "Time addition is exact; deadlines convert between clocks without drift",
     "Adding a nanosecond duration to a timestamp gives a normalised timestamp exactly that far away, for positive and negative durations. "
     "A deadline converted to another clock is as far from that clock's now as the original is from its own now, or has already passed if that clock had not started then.",
     ["inputs"],
     "all normalised timestamps and durations that do not overflow",
     "carry and borrow at second boundaries, negative durations",
     ["src/clock.h", "src/time.c"], [], [("clock add/convert", "src/clock.h"), ("time add", "src/time.c")],
     ["a0_time_mono_add, a0_time_wall_add, deadlines handed to kernel waits"])

prop("C25", "Generated ids are always well-formed random UUIDs",
     "Every generated id is a 36-character version-4 UUID text with terminator, whatever the random source returns, and every random bit not fixed by the format reaches the text.",
     ["inputs"],
     "all outputs of the random source",
     "tests look at a few thousand samples and cannot show that each bit matters",
     ["src/uuid.c", "src/rand.c"], [], [("formatting", "src/uuid.c")], ["a0_uuidv4, a0_packet_init"])

prop("C26", "An RPC response reaches exactly the request it answers, at most once",
     "Each response is delivered to the callback of the request whose id it carries and to no other, at most once, and never after that request was cancelled; unrelated or malformed packets are ignored. "
     "The server invokes its request handler exactly once per request packet and its cancel handler only for cancel packets, and replies carry the request's id.",
     ["histories", "inputs"],
     "every bounded sequence of sends, cancels and incoming packets with arbitrary headers and ids",
     "the RPC tests are not part of the suite that runs; duplicates, late and foreign responses are not generated",
     ["src/rpc.c"], [("outstanding-request map", "id to callback", "src/rpc.c")],
     [("client dispatch, server dispatch", "src/rpc.c")], ["callbacks invoked by the RPC client and server"])

prop("C27", "Progressive RPC delivers progress in order and stops at completion or cancel",
     "Progress packets go to the callback of the connection whose id they carry, in order, with the done flag set exactly on the completing packet; after completion or cancel nothing more is delivered for it. "
     "The server invokes its connection handler once per connect packet, and progress it sends carries the connection's id.",
     ["histories", "inputs"],
     "every bounded sequence of connects, cancels and incoming packets with arbitrary headers and ids",
     "the tests are not part of the suite that runs; interleaved connections and late packets are not generated",
     ["src/prpc.c"], [("outstanding-connection map", "id to callback", "src/prpc.c")],
     [("client dispatch, server dispatch", "src/prpc.c")], ["callbacks invoked by the progressive RPC client and server"])

prop("C28", "Log listeners receive exactly the messages at or above their level",
     "A log listener's callback runs for exactly the packets whose recorded level is at least as severe as the listener's, in order; packets without a recognised level are not delivered. "
     "Each logging call records the level of the function that was called and leaves the payload unchanged.",
     ["inputs", "configurations"],
     "every listener level and every level text, header arrangement and logging function",
     "the log tests are not part of the suite that runs, and cover a few level pairs",
     ["src/log.c"], [], [("level filter and header", "src/log.c")], ["callback of a0_log_listener, packets written by a0_log_*"])

prop("C29", "Config reads return the latest write; write-if-empty only when empty",
     "Reading a configuration returns the most recently written value, or try-again when there is none. "
     "Write-if-empty stores its value and reports success exactly when nothing was there, atomically with respect to other writers, and otherwise changes nothing; the lock is free afterwards in every case. "
     "A watcher is told the value present when it starts and, after any writes, the newest one.",
     ["histories", "fault_sequences"],
     "every bounded history of writes, conditional writes and reads, including writers that run just before the lock is taken",
     "the configuration tests are not part of the suite that runs",
     ["src/cfg.c", "src/middleware.c", R], [], [("write-if-empty middleware", "src/middleware.c"), ("read newest", "src/cfg.c")],
     ["a0_cfg_{read,read_blocking,write,write_if_empty}", "a0_cfg_watcher_init callback"])

F = "src/file.c"
prop("C30", "Files appear complete or not at all, and failed opens leave nothing behind",
     "Opening a file either succeeds with the whole requested size mapped and its name referring to a fully sized file, or fails with the error of the step that failed. "
     "Whatever step fails and however often another process wins the creation race, no temporary file, descriptor or mapping is left behind, and an existing file is never truncated or replaced.",
     ["fault_sequences", "schedules"],
     "every failure of every system call made, and a competing creator appearing at any point",
     "system-call failures and lost races cannot be produced by the tests",
     [F], [("temporary file then link", "atomic publication", F)],
     [("open/create protocol", F + ": a0_file_open and helpers")], ["system calls made by a0_file_open/a0_file_close"])

prop("C31", "File operations act only on the named path under the root",
     "A relative path given to any file operation acts on that path under the configured root. "
     "Recursive removal and recursive listing touch exactly the named tree: nothing outside it, never through a symbolic link, every entry once and children before their directory when removing; names of any length are handled or refused without memory corruption.",
     ["inputs", "fault_sequences", "configurations"],
     "every bounded directory tree shape, entry kind and name, relative or absolute starting path, any root",
     "tests remove one small absolute tree",
     [F], [("path buffer", "fixed-size path while walking", F)],
     [("iteration and removal", F + ": a0_file_iter_*, a0_file_remove_all")], ["paths handed to the operating system"])

prop("C32", "Discovery announces each matching file exactly once",
     "Every file matching the watched pattern, whether it existed before or appears later, including inside new directories, is announced exactly once; files that do not match are never announced. "
     "Directories vanishing or being unreadable while they are scanned do not stop the watch or corrupt memory.",
     ["histories", "schedules", "fault_sequences"],
     "every bounded directory content and order of creation events relative to scanning, with failures of directory reads",
     "the race between registering a watch and scanning is timing dependent",
     ["src/discovery.c"], [("watch map, announced map", "what is watched and already told", "src/discovery.c")],
     [("scan and event loop", "src/discovery.c")], ["discovery callback invocations"])

prop("C33", "C++ objects keep what they depend on alive and release it exactly once",
     "A C++ wrapper object keeps every object it was built from alive, releases the underlying resource exactly once when the last copy goes, and turns every error result into an exception without leaking.",
     ["histories", "programs"],
     "every order of copies, moves and destruction of wrapper objects",
     "lifetime orders are a property of programs, not of a call",
     ["src/c_wrap.hpp", "src/transport.cpp", "src/reader.cpp", "src/file.cpp"], [],
     [("shared ownership wrapper", "src/c_wrap.hpp")], ["C++ API"])

out = os.path.join(os.path.dirname(__file__), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p) + "\n")
