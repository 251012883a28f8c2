#!/usr/bin/env python3
# Generates /verif/properties.jsonl.  Kept so the list can be edited in one readable place.
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, state, mech, obs, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=obs, hook_needed=hook)))

L = 'libipt/src/'
prop('C01', 'The instruction flow decoder reports exactly what the processor executed',
 'For a complete trace of an execution and an image holding the executed code, the instruction flow decoder reports every executed instruction exactly once and in execution order, with its correct address, size, bytes, class, execution mode, speculation state and address space, up to the last instruction whose execution the trace determines. It holds wherever interrupts, transactions, power, paging and mode changes, filtering, trace enable/disable and synchronisation points fall in the execution. Nothing that was not executed is reported and no error is reported.',
 ['programs','histories','configurations'],
 'every program, every branch outcome and target history, every placement of asynchronous events between two instructions, and every trace configuration (return compression, IP compression, TNT packet sizes, PTWRITE/power/event trace, filters)',
 'The unit tests check single helper functions and single packets; the instruction flow decoder itself has no unit test that runs here (the ptxed tests are not built), and no test runs a whole execution.',
 [L+'pt_insn_decoder.c', L+'pt_event_decoder.c', L+'pt_insn.c', L+'pt_ild.c', L+'pt_retstack.c', L+'pt_tnt_cache.c', L+'pt_last_ip.c'],
 [('decoder ip','address of the next instruction to report',L+'pt_insn_decoder.c'),
  ('return stack','call return addresses for compressed returns',L+'pt_retstack.c'),
  ('tnt cache','unconsumed conditional branch outcomes',L+'pt_tnt_cache.c')],
 [('pt_insn_next',L+'pt_insn_decoder.c'),('pt_insn_proceed',L+'pt_insn_decoder.c'),('pt_insn_check_insn_event',L+'pt_insn_decoder.c'),('pt_evt_next',L+'pt_event_decoder.c')],
 ['pt_insn_sync_forward','pt_insn_next','pt_insn_event'])
prop('C02', 'The block decoder reports exactly what the processor executed',
 'For a complete trace and a matching image, the blocks reported by the block decoder, expanded to their instructions, are exactly the executed instructions in order, with correct addresses, counts, last instruction, execution mode, section, speculation state and address space. A block never continues past a branch that needs the trace, nor past a call or jump when the user asked for blocks to end there, nor from one section into another. The result does not depend on whether code was decoded before, i.e. on the contents of the decoder\'s internal caches.',
 ['programs','histories','configurations'],
 'every program and execution history as in C01, every block-ending option, and every order in which code gets decoded for the first time or again, within and across sections',
 'The block decoder has no unit test that runs here; the block cache is only tested as a container.',
 [L+'pt_block_decoder.c', L+'pt_block_cache.c', L+'pt_msec_cache.c', L+'pt_insn.c'],
 [('block cache','per-section memo of straight-line code',L+'pt_block_cache.c'),('msec cache','most recently used section',L+'pt_msec_cache.c')],
 [('pt_blk_next',L+'pt_block_decoder.c'),('pt_blk_proceed_no_event_cached',L+'pt_block_decoder.c'),('pt_blk_proceed_no_event_fill_cache',L+'pt_block_decoder.c')],
 ['pt_blk_next','pt_blk_event'])
prop('C03', 'Every trace event is reported once, in order, at the right instruction',
 'In instruction flow and block flow decode, every event the processor recorded in the trace is reported exactly once, in trace order, with its recorded payload, between the instructions between which it took effect. Status information repeated at a synchronisation point is always marked as status and never reported as a new event. Where tracing is enabled again, it is marked as resumed exactly if that is where it was left asynchronously or behind the call it was left at.',
 ['programs','histories','configurations'],
 'every execution history and every mix and adjacency of events (enable, disable, asynchronous branch, paging, VMCS, transaction, execution mode, interrupt flag, interrupt/exception, PTWRITE, power, maintenance, frequency) including several events at one instruction',
 'Existing tests decode one event packet sequence at a time at the packet or event layer and never bind events to instructions.',
 [L+'pt_insn_decoder.c', L+'pt_block_decoder.c', L+'pt_event_decoder.c', L+'pt_event_queue.c'],
 [('event queue','events waiting for the packet or instruction they bind to',L+'pt_event_queue.c')],
 [('pt_insn_check_ip_event',L+'pt_insn_decoder.c'),('pt_blk_proceed_event',L+'pt_block_decoder.c'),('pt_evt_decode_*',L+'pt_event_decoder.c')],
 ['pt_insn_event','pt_blk_event','pt_evt_next','pt_qry_event'])
prop('C04', 'The query and event layers return exactly the recorded branches and events',
 'The event layer returns every recorded branch outcome, branch target and event exactly once, in order and with its recorded payload. The query layer, asked along the executed path, answers every conditional branch with the direction taken, every indirect branch with its target (or that the target was suppressed), and signals every pending event before the branch that follows it.',
 ['histories','configurations'],
 'every execution history and trace configuration, every batching of branch outcomes into short and long packets, every IP compression',
 'Unit tests feed one to three packets to a fresh decoder; multi-packet histories with interleaved partial branch packets, events and synchronisation points are not reached.',
 [L+'pt_event_decoder.c', L+'pt_query_decoder.c', L+'pt_packet_decoder.c', L+'pt_last_ip.c', L+'pt_tnt_cache.c'],
 [('last ip','base for IP decompression',L+'pt_last_ip.c'),('tnt cache','pending branch outcomes',L+'pt_tnt_cache.c')],
 [('pt_evt_next',L+'pt_event_decoder.c'),('pt_qry_cond_branch',L+'pt_query_decoder.c'),('pt_qry_indirect_branch',L+'pt_query_decoder.c')],
 ['pt_evt_next','pt_qry_cond_branch','pt_qry_indirect_branch','pt_qry_event'])
prop('C05', 'After internal buffer overflow, decode resumes exactly where tracing resumed',
 'When the processor loses trace data to a buffer overflow, decode reports one overflow event at the address at which tracing resumed, or without an address if it resumed while tracing was disabled, and from there on reports exactly the executed instructions and events. Instructions executed while data was lost are never reported, and no state from before the overflow (pending branch outcomes, events, return addresses, transaction state) influences what is reported after it.',
 ['histories','fault_sequences'],
 'every placement and number of overflows relative to the execution: between instructions, while disabled, inside transactions, around synchronisation points, and directly after each other',
 'Tests contain a handful of single overflow packets on an otherwise empty trace and do not decode instructions across them.',
 [L+'pt_event_decoder.c', L+'pt_insn_decoder.c', L+'pt_block_decoder.c', L+'pt_time.c'],
 [('decoder state reset at overflow','return stack, tnt cache, event queue, speculation, last ip',L+'pt_event_decoder.c')],
 [('pt_evt_decode_ovf',L+'pt_event_decoder.c'),('pt_insn_check_ip_event',L+'pt_insn_decoder.c'),('pt_blk_proceed_event',L+'pt_block_decoder.c')],
 ['pt_insn_next','pt_blk_next','pt_insn_event','pt_blk_event'])
prop('C06', 'Damaged trace or code never makes a decoder crash, run away or read outside',
 'Whatever bytes the trace buffer and the image contain, every decoder stays within the trace buffer and within its own memory, every call returns, and decode of a finite buffer reaches the end of the trace or an error in a number of steps bounded by the amount of trace and code, except while the code itself loops on direct branches, which needs no trace. A reported error leaves the decoder usable: it can be synchronised again, queried and freed.',
 ['inputs','fault_sequences'],
 'every sequence of bit flips, byte overwrites, dropped, duplicated, swapped and inserted trace ranges and code bytes, at every layer, followed by any sequence of API calls',
 'Tests cover a few hand-made malformed packets in isolation.',
 [L+'pt_packet_decoder.c', L+'pt_packet.c', L+'pt_event_decoder.c', L+'pt_insn_decoder.c', L+'pt_block_decoder.c', L+'pt_sync.c', L+'pt_ild.c', L+'pt_encoder.c'],
 [('decoder position','current position in the trace buffer',L+'pt_packet_decoder.c')],
 [('bounds checks','libipt/src/pt_packet.c'),('event loop',L+'pt_event_decoder.c')],
 ['pt_pkt_*','pt_evt_*','pt_qry_*','pt_insn_*','pt_blk_*'])
prop('C07', 'After damage, decode recovers exactly at the next intact synchronisation point',
 'If part of a trace is damaged, synchronising forward past the damage lands on the next intact synchronisation point, and decode from there yields exactly what it yields on the undamaged trace from that point. No state from before the damage influences the result.',
 ['histories','fault_sequences'],
 'every damage (flip, overwrite, drop, insert) of any range of any trace, every decoder layer, every history of earlier synchronisations and errors on the same decoder object',
 'No test damages a whole trace and resumes.',
 [L+'pt_sync.c', L+'pt_insn_decoder.c', L+'pt_block_decoder.c', L+'pt_query_decoder.c', L+'pt_event_decoder.c'],
 [('decoder state reset at synchronisation','everything but configuration, image and caches',L+'pt_insn_decoder.c')],
 [('pt_insn_sync_forward',L+'pt_insn_decoder.c'),('pt_blk_sync_forward',L+'pt_block_decoder.c'),('pt_sync_forward',L+'pt_sync.c')],
 ['pt_*_sync_forward','pt_*_sync_set'])
prop('C08', 'A trace cut short at any byte decodes to a prefix, then ends cleanly',
 'Cutting a trace at an arbitrary byte makes decode report a prefix of what the full trace gives, followed by end of stream; apart from what is derived from an incomplete last packet sequence, no error and no different instruction, branch or event is reported. At least everything determined by the packets before the last one kept is still reported.',
 ['crash_points','histories'],
 'every cut position in every trace, at every decoder layer',
 'Tests cut single packets only.',
 [L+'pt_packet.c', L+'pt_packet_decoder.c', L+'pt_event_decoder.c', L+'pt_insn_decoder.c', L+'pt_block_decoder.c'],
 [('end of buffer','configured trace end',L+'pt_packet_decoder.c')],
 [('eos handling',L+'pt_event_decoder.c'),('eos handling',L+'pt_insn_decoder.c')],
 ['pt_pkt_next','pt_evt_next','pt_qry_*','pt_insn_next','pt_blk_next'])
prop('C09', 'Forward and backward synchronisation visit the same points and terminate',
 'Repeated forward synchronisation visits every synchronisation point of a trace exactly once in ascending order, repeated backward synchronisation visits the same points in descending order, and synchronising at a given offset succeeds exactly at those points (padding in front of one is tolerated, and synchronisation patterns directly following each other count as one). This holds for every layer, from any current position, and each walk terminates with end of stream. Reported sync offsets and positions always lie in the buffer.',
 ['inputs','histories'],
 'every buffer content (adjacent, truncated, misaligned or partial synchronisation patterns, padding, garbage) and every interleaving of forward, backward, set and decode calls',
 'Tests check up to two or three synchronisation points laid out by hand.',
 [L+'pt_sync.c', L+'pt_packet_decoder.c', L+'pt_event_decoder.c', L+'pt_query_decoder.c', L+'pt_insn_decoder.c', L+'pt_block_decoder.c'],
 [('sync position','last synchronisation point',L+'pt_packet_decoder.c')],
 [('pt_sync_forward',L+'pt_sync.c'),('pt_sync_backward',L+'pt_sync.c'),('pt_sync_set',L+'pt_sync.c')],
 ['pt_*_sync_forward','pt_*_sync_backward','pt_*_sync_set','pt_*_get_sync_offset'])
prop('C10', 'Segments between synchronisation points decode independently to the whole',
 'Splitting a trace at its synchronisation points and decoding each segment with its own decoder yields, concatenated, the same instructions as decoding the whole trace with one decoder. The result is independent of the number and order of the decoders and of how their calls interleave.',
 ['schedules','histories','programs'],
 'every trace, every choice of segment boundaries, every interleaving of the decoders over one shared image',
 'No test decodes more than one segment or more than one decoder at a time.',
 [L+'pt_insn_decoder.c', L+'pt_block_decoder.c', L+'pt_event_decoder.c', L+'pt_sync.c', L+'pt_image.c'],
 [('PSB+ status','state the decoder picks up when synchronising',L+'pt_event_decoder.c')],
 [('pt_insn_start',L+'pt_insn_decoder.c'),('pt_evt_decode_psb',L+'pt_event_decoder.c')],
 ['pt_insn_sync_set','pt_insn_next','pt_blk_sync_set','pt_blk_next'])
prop('C11', 'Reported time follows the trace clock',
 'For an undamaged trace with consistent timing packets, the reported time equals the recorded time at every full time stamp (less the fraction a resolution step may lose) and follows the coarse and cycle timing packets in between with an error bounded by their resolution and the cycle calibration; without cycle packets it does not run backwards. A missing full time or ratio is reported as missing, never as zero. The number of timing packets dropped for lack of calibration or configuration is reported, the core:bus ratio is the last one recorded, all decoder layers report the same time for the same event, and requested tick events appear exactly when the time at a branch differs from the time reported last, near that branch.',
 ['histories','configurations','fault_sequences'],
 'every simulated clock history (frequency changes, idle gaps, wrap of the coarse counter, overflow and lost timing packets) and timing configuration (time stamps, coarse, cycle-accurate, or any combination)',
 'Tests check arithmetic of single updates; they do not run a clock.',
 [L+'pt_time.c', L+'pt_event_decoder.c', L+'pt_query_decoder.c', L+'pt_insn_decoder.c', L+'pt_block_decoder.c'],
 [('time','last estimated time and its base',L+'pt_time.c'),('time calibration','cycles to time ratio',L+'pt_time.c')],
 [('pt_time_update_*',L+'pt_time.c'),('pt_tcal_update_*',L+'pt_time.c')],
 ['pt_insn_time','pt_blk_time','pt_qry_time','event tsc','pt_*_core_bus_ratio'])
prop('C12', 'Packet encode is atomic and round-trips at every buffer size',
 'Every packet the encoder accepts is written completely and read back by the packet decoder with the same meaning and size, or it is rejected leaving the buffer outside the written area and the position unchanged. This holds for every packet sequence and for every amount of space left in the buffer.',
 ['inputs','fault_sequences'],
 'every sequence of packets with arbitrary payloads and every buffer capacity (buffer exhausted at any point of any packet)',
 'Tests encode each packet with one or two payloads in an ample buffer.',
 [L+'pt_encoder.c', L+'pt_packet.c', L+'pt_packet_decoder.c'],
 [('encoder position','next byte to write',L+'pt_encoder.c')],
 [('pt_enc_next',L+'pt_encoder.c'),('pt_pkt_next',L+'pt_packet_decoder.c')],
 ['pt_enc_next','pt_enc_get_offset','pt_pkt_next'])
prop('C13', 'An image always shows the file contents most recently added for an address',
 'After any sequence of adding, overlaying, removing and copying, each address of each address space in an image reads as the file byte of the most recent addition covering it that was not removed since, or as unmapped if there is none; a copy reads like its source. Reading via a decoder and via the section cache agree with this.',
 ['histories','inputs'],
 'every sequence of image and section cache operations over overlapping, nested, adjacent and identical ranges, with wildcard and specific address spaces',
 'Image tests use fixed three-section layouts on stub sections; splitting, copying and removal are not combined.',
 [L+'pt_image.c', L+'pt_asid.c', L+'pt_section.c', L+'pt_image_section_cache.c', L+'pt_msec_cache.c'],
 [('section list','mapped sections ordered by recent use',L+'pt_image.c')],
 [('pt_image_add',L+'pt_image.c'),('pt_image_copy',L+'pt_image.c'),('pt_image_remove*',L+'pt_image.c')],
 ['pt_image_*','pt_insn_next raw bytes','pt_iscache_read'])
prop('C14', 'An image operation that fails changes nothing',
 'When adding, copying or removing code fails for lack of memory, a file error or a bad argument, the image and the section cache read exactly as before the call (a copy may have copied some of the source), stay usable, and nothing is leaked. When the fault is gone the same operation succeeds.',
 ['fault_sequences','histories'],
 'every image and section cache operation sequence with a failing allocation or file operation at any point inside any operation',
 'No test injects an allocation or I/O failure into these operations.',
 [L+'pt_image.c', L+'pt_image_section_cache.c', L+'pt_section.c', L+'posix/pt_section_posix.c', L+'pt_section_file.c'],
 [('section list','mapped sections',L+'pt_image.c'),('cache entries','section cache contents',L+'pt_image_section_cache.c')],
 [('error unwinding',L+'pt_image.c'),('error unwinding',L+'pt_image_section_cache.c')],
 ['pt_image_add_file','pt_image_add_cached','pt_image_copy','pt_iscache_add_file'])
prop('C15', 'A file that changes or fails is reported, never read as wrong code',
 'If a file backing a section is modified so that its size or modification time changes after the section was created and while it is not mapped, or opening, mapping or reading it fails, reading code from that section fails with an error or, where reading comes up short, gives fewer bytes; bytes that are not the file\'s contents at the time the section was created are never returned. The choice between mapping the file and reading it is invisible in what is read.',
 ['fault_sequences','histories'],
 'every placement of file modification, replacement, truncation and of open/stat/map/seek/read failures or short reads relative to section creation, mapping, reading and unmapping',
 'Tests use stable files on a healthy file system.',
 [L+'posix/pt_section_posix.c', L+'pt_section_file.c', L+'pt_section.c'],
 [('file status','size and modification time at creation',L+'posix/pt_section_posix.c'),('map count','users of a mapping',L+'pt_section.c')],
 [('pt_section_map',L+'posix/pt_section_posix.c'),('pt_sec_file_read',L+'pt_section_file.c')],
 ['pt_image_add_file','pt_iscache_read','pt_insn_next'])
prop('C16', 'Decode uses the code the image holds now',
 'When the image of a running decoder is changed between two calls (code removed, replaced, overlaid, or the image switched), all instructions reported afterwards are decoded from the new contents for the address space (page table and virtual machine) current at that point, never from contents that were removed. Code that is missing is reported as missing at the first instruction affected.',
 ['histories','programs'],
 'every program and every placement of image changes and address space switches between two decoder calls',
 'No running test changes the image under a decoder.',
 [L+'pt_image.c', L+'pt_msec_cache.c', L+'pt_block_cache.c', L+'pt_insn_decoder.c', L+'pt_block_decoder.c'],
 [('msec cache','most recently used section',L+'pt_msec_cache.c'),('block cache','decoded code',L+'pt_block_cache.c')],
 [('pt_msec_cache_read',L+'pt_msec_cache.c'),('pt_msec_cache_fill',L+'pt_msec_cache.c'),('pt_image_validate',L+'pt_image.c')],
 ['pt_insn_next','pt_blk_next'])
prop('C17', 'The memory callback is the fallback for missing code and is obeyed',
 'Code found in no section is read through the user\'s memory callback with the current address space and the address needed, code that is in a section never is, and decode through the callback gives the same result as decode from sections. A callback that fails or returns less than needed makes decode fail or report the instruction as missing at that address, never decode other bytes.',
 ['programs','fault_sequences'],
 'every split of the executed code between sections and callback, and every sequence of callback failures and short reads, including instructions straddling the boundary',
 'The unit tests call the callback once with a fixed result.',
 [L+'pt_image.c', L+'pt_insn_decoder.c', L+'pt_block_decoder.c', L+'pt_insn.c'],
 [('callback','user memory callback and context',L+'pt_image.c')],
 [('pt_image_read',L+'pt_image.c'),('pt_insn_decode_retry',L+'pt_insn.c')],
 ['pt_image_set_callback','pt_insn_next','pt_blk_next'])
prop('C18', 'The section cache is linearizable',
 'Concurrent additions, lookups, reads, limit changes and clears on one section cache behave as if executed one at a time: equal sections get the same identifier, different sections different ones, identifiers are positive and never change meaning, and a read returns exactly the bytes of its section or an error for an unknown identifier. This holds for every interleaving of the callers.',
 ['schedules','histories'],
 'every interleaving, at memory-access granularity, of the operations of concurrent threads sharing a section cache',
 'The threaded tests run real threads a few times under whatever schedule the kernel chooses and check return codes only.',
 [L+'pt_image_section_cache.c', L+'pt_section.c', L+'posix/pt_section_posix.c'],
 [('cache entries','identifier to section map',L+'pt_image_section_cache.c')],
 [('pt_iscache_add',L+'pt_image_section_cache.c'),('pt_iscache_lookup',L+'pt_image_section_cache.c'),('pt_iscache_read',L+'pt_image_section_cache.c')],
 ['pt_iscache_add_file','pt_iscache_read','pt_image_add_cached'])
prop('C19', 'Cached sections stay within the limit and are fully released in the end',
 'The section cache keeps mapped no more unused section memory than its limit allows, a section in use is never unmapped under its user, and when all caches, images and decoders sharing sections have been freed, in any order and from any thread, every mapping, file and allocation made on their behalf has been released exactly once.',
 ['schedules','histories','fault_sequences'],
 'every interleaving and order of use, eviction, limit change, clear and free of caches, images and decoders sharing sections',
 'Tests check the eviction list data structure and reference counts in fixed sequences.',
 [L+'pt_image_section_cache.c', L+'pt_section.c', L+'posix/pt_section_posix.c', L+'pt_section_file.c', L+'pt_msec_cache.c'],
 [('lru','mapped but unused sections',L+'pt_image_section_cache.c'),('use/map/attach counts','who uses a section',L+'pt_section.c')],
 [('pt_iscache_notify_map',L+'pt_image_section_cache.c'),('pt_section_put',L+'pt_section.c'),('pt_section_unmap',L+'pt_section.c'),('pt_iscache_clear',L+'pt_image_section_cache.c')],
 ['mmap/munmap, fopen/fclose, malloc/free balance','pt_iscache_set_limit'])
prop('C20', 'No call deadlocks or leaves a lock behind',
 'For every interleaving of concurrent callers sharing sections and section caches, and on every success and error path, every call returns, acquires locks in an order that cannot deadlock, and returns with every lock it took released.',
 ['schedules','fault_sequences'],
 'every interleaving of concurrent cache, image and decoder operations, and every injected failure inside a locked region',
 'A deadlock needs a specific interleaving that the stress tests do not force; error paths inside locked regions are not reached.',
 [L+'pt_section.c', L+'pt_image_section_cache.c', L+'posix/pt_section_posix.c', L+'pt_section_file.c'],
 [('section lock, attach lock, cache lock, file lock','lock hierarchy',L+'pt_section.c')],
 [('pt_section_lock',L+'pt_section.c'),('pt_section_lock_attach',L+'pt_section.c'),('pt_iscache_lock',L+'pt_image_section_cache.c'),('fmap_lock',L+'pt_section_file.c')],
 ['mtx_lock/mtx_unlock','return of every call'])
prop('C21', 'Decoders sharing cached sections in parallel decode as if alone',
 'Threads that each use their own decoder and image over sections shared through a section cache get exactly the results they would get alone, for every interleaving with each other and with threads that add to, limit or clear the cache. No access to freed or unmapped memory and no data race on shared decoded code occurs.',
 ['schedules','programs'],
 'every interleaving, at memory-access granularity, of parallel decoders (instruction and block), including concurrent filling of the shared block cache and concurrent eviction',
 'No test decodes in parallel.',
 [L+'pt_block_cache.c', L+'pt_section.c', L+'pt_image_section_cache.c', L+'pt_block_decoder.c', L+'pt_msec_cache.c'],
 [('block cache','shared between decoders',L+'pt_block_cache.c'),('section mapping','shared between images',L+'pt_section.c')],
 [('pt_bcache_add/lookup',L+'pt_block_cache.c'),('pt_section_map_share',L+'pt_section.c'),('pt_section_read',L+'pt_section.c')],
 ['pt_insn_next','pt_blk_next','pt_iscache_clear','pt_iscache_set_limit'])
prop('C22', 'Running out of memory is reported and survivable everywhere',
 'If an allocation fails inside any library call, that call reports the failure (a null object or a negative error), nothing leaks or is used uninitialised or after being freed, objects that existed before remain usable and freeable, and with memory available again decode still gives exact results.',
 ['fault_sequences'],
 'every library, sideband and event-record call with any one or more of its allocations failing, in any history',
 'No test fails an allocation.',
 [L+'pt_image.c', L+'pt_image_section_cache.c', L+'pt_section.c', L+'pt_block_cache.c', L+'pt_config.c', L+'pt_block_decoder.c', 'sideband/src/pt_sb_session.c', 'sideband/src/pt_sb_context.c', 'sideband/src/pt_sb_pevent.c'],
 [('every allocating object','','libipt, sideband')],
 [('error unwinding','all allocators')],
 ['return values','heap balance'])
prop('C23', 'Sideband decode selects the image of the process that was running',
 'Driven along a trace with its sideband records, the sideband session provides, at every instruction of every processor, an image that shows exactly the code mapped at that time by the process then running: after context switches, forks, execs and file mappings in any order. Kernel code is visible in every process.',
 ['histories','schedules'],
 'every multi-process, multi-processor history of context switches, forks, execs and mappings, and every configuration of sideband record fields',
 'The sideband library has no tests here beyond its build.',
 ['sideband/src/pt_sb_session.c', 'sideband/src/pt_sb_context.c', 'sideband/src/pt_sb_pevent.c', L+'pt_image.c'],
 [('contexts','per-process image',"sideband/src/pt_sb_context.c"),('pending context switch','switch not yet effective in user code','sideband/src/pt_sb_pevent.c')],
 [('pt_sb_event',"sideband/src/pt_sb_session.c"),('pt_sb_pevent_apply','sideband/src/pt_sb_pevent.c'),('pt_sb_ctx_mmap','sideband/src/pt_sb_context.c')],
 ['pt_sb_event image out-parameter','pt_sb_notify_switch callback'])
prop('C24', 'Sideband records apply exactly once, in time order across all streams',
 'Records of all sideband streams of a session are applied exactly once each and in ascending time order (records of equal time in any order across streams, each stream in its own order), never before the decoder reached their time and no later than the first event at or after it. Records of secondary streams affect only what they are about (mappings and process life), not which process runs on this processor.',
 ['schedules','histories'],
 'every split of records over primary and secondary streams with arbitrary relative clocks, equal time stamps, missing time stamps and offsets',
 'No test merges streams.',
 ['sideband/src/pt_sb_session.c', 'sideband/src/pt_sb_pevent.c'],
 [('decoder lists','streams waiting, ready, retired by next time','sideband/src/pt_sb_session.c')],
 [('pt_sb_fetch','sideband/src/pt_sb_session.c'),('pt_sb_apply','sideband/src/pt_sb_session.c'),('pt_sb_add_decoder','sideband/src/pt_sb_session.c')],
 ['pt_sb_event','pt_sb_dump'])
prop('C25', 'Damaged or missing sideband data is reported and contained',
 'Truncated, corrupted or unreadable sideband data, unknown records, lost-record markers and unmappable files are reported through the error notification or an error return, never crash, hang or read outside the data, and never stop or alter the application of the intact streams and of the intact records before the damage. Data that ends inside a record counts as the end of that stream.',
 ['fault_sequences','inputs'],
 'every truncation, corruption, file error and missing file at any point of any stream, in any multi-stream history',
 'No test runs the sideband library on any data.',
 ['sideband/src/pt_sb_pevent.c', 'sideband/src/pt_sb_session.c', 'sideband/src/pt_sb_file.c', 'pevent/src/pevent.c'],
 [('stream position','next record','sideband/src/pt_sb_pevent.c')],
 [('pt_sb_error','sideband/src/pt_sb_session.c'),('pt_sb_pevent_error','sideband/src/pt_sb_pevent.c'),('pt_sb_file_load','sideband/src/pt_sb_file.c')],
 ['error notification callback','pt_sb_event return value'])
prop('C26', 'Sideband records survive write and read, and reading stays in bounds',
 'Every record written with a given set of sample fields reads back equal and consumes exactly the bytes written, sequences of records keep their boundaries, and neither reading nor writing touches memory outside the given buffer, whatever its size or contents. Insufficient space or data is reported as such.',
 ['inputs','fault_sequences'],
 'every record kind, field configuration, payload and buffer capacity, and every truncation or corruption of a written sequence',
 'The unit tests write and read single records in ample buffers.',
 ['pevent/src/pevent.c'],
 [('record layout','header, payload, sample fields','pevent/src/pevent.c')],
 [('pev_read','pevent/src/pevent.c'),('pev_write','pevent/src/pevent.c')],
 ['pev_read','pev_write'])
prop('C27', 'The trace dump tool reports every packet and every I/O failure',
 'The packet dump tool prints every packet of a readable trace exactly once at its offset, with its payload and, as the options ask, its bytes, the last IP it stands for and the estimated time or calibration, and the records of the sideband files it was given in time order between them; it reports damage and resynchronises behind it, and ends with success. If its command line is wrong, memory runs out, or the trace or a sideband file cannot be opened or read completely, it says so and exits with failure rather than presenting partial output as complete.',
 ['fault_sequences','inputs'],
 'every trace, intact or damaged, option mix, set of sideband streams, and placement of open, seek, allocation and read failures or short reads',
 'The ptt tests run the tool on healthy files only.',
 ['ptdump/src/ptdump.c', L+'pt_packet_decoder.c'],
 [('trace buffer','loaded file contents','ptdump/src/ptdump.c')],
 [('load_file','ptdump/src/ptdump.c'),('dump_packets','ptdump/src/ptdump.c')],
 ['stdout','stderr','exit status'])
prop('C28', 'Traces with documented processor errata decode to what the program did',
 'When the decoder is configured for a processor with documented trace errata, a trace showing them decodes to exactly the executed instructions and the events that took place, wherever the erratum showed and however it combines with other events, and a trace not showing them decodes as on any other processor. This covers a spurious FUP in PSB+ before tracing is enabled (BDM70), a wrong branch target before a transaction abort (BDM64), a bogus cycle packet before an overflow (SKD007), a spurious FUP at a VM entry that disables tracing (SKD022), a missing FUP after an overflow (SKD010), a missing address when a direct branch leaves the filter range (SKL014), a spurious FUP or TIP.PGD after an overflow while disabled (APL12, APL11), and corrupted timing packets (SKZ84).',
 ['histories','fault_sequences'],
 'every program, placement and combination of errata that occur together on a processor, with and without the user asking for blocks to end at calls and jumps',
 'Tests hold one or two hand-made traces per erratum, on which nothing else happens.',
 [L+'pt_event_decoder.c', L+'pt_insn_decoder.c', L+'pt_block_decoder.c', L+'pt_packet_decoder.c', L+'pt_config.c'],
 [('errata configuration','decoder state after an overflow',L+'pt_event_decoder.c')],
 [('pt_evt_check_bdm70',L+'pt_event_decoder.c'),('pt_evt_handle_skd010',L+'pt_event_decoder.c'),('pt_evt_handle_apl12',L+'pt_event_decoder.c'),('handle_erratum_bdm64',L+'pt_insn_decoder.c'),('pt_blk_proceed_skl014',L+'pt_block_decoder.c'),('pt_pkt_handle_skd007',L+'pt_packet_decoder.c')],
 ['pt_insn_next','pt_blk_next','pt_insn_event','pt_blk_event','pt_evt_next','pt_qry_event'])
prop('C29', 'Packets the library does not know are given to the user and skipped',
 'When the user provides a decode callback, every packet libipt does not know is handed to it exactly where it is, with the user\'s configuration and context; the packet decoder reports it with the size and data the callback provided, and all other decoders skip it: whatever they report is the same as if it were not in the trace, wherever it is, including inside PSB+ and between a packet and the one it binds to. An error of the callback is reported as is, at that place, without having lost or changed anything before it, and a size that reaches beyond the trace is not followed.',
 ['histories','inputs','fault_sequences'],
 'every trace and every number, place, size and content of unknown packets in it, and every point at which the callback fails',
 'Tests hold one unknown packet in an otherwise empty buffer and only look at the packet layer.',
 [L+'pt_packet.c', L+'pt_packet_decoder.c', L+'pt_event_decoder.c'],
 [('packet decoder position','current packet',L+'pt_packet_decoder.c')],
 [('pt_pkt_read_unknown',L+'pt_packet.c'),('pt_pkt_decode_unknown',L+'pt_packet_decoder.c'),('pt_evt_decode_unknown',L+'pt_event_decoder.c')],
 ['config.decode.callback','pt_pkt_next','pt_evt_next','pt_qry_event','pt_insn_next','pt_blk_next'])
prop('C30', 'Structures of any size the caller knows are honoured',
 'Callers built against older or newer headers, whose structures are shorter or longer, get the same results: every call that takes a structure together with its size returns the same status and leaves the same decoder state, writes exactly the part of the result that fits, never reads or writes beyond the size given, clears what it does not know of packets, events of the event layer, instructions and blocks, and treats fields the caller does not know in its configuration or address space as not given. An event or address space structure too small to be used is refused (pt_qry_event, pt_insn_event, pt_blk_event, pt_insn_asid, pt_blk_asid) without losing anything.',
 ['histories','configurations','inputs'],
 'every trace, damaged or not, every layer, and every sequence of structure sizes',
 'Tests use one bigger and one smaller size on a single call of a fresh decoder.',
 [L+'pt_config.c', L+'pt_asid.c', L+'pt_packet_decoder.c', L+'pt_event_decoder.c', L+'pt_query_decoder.c', L+'pt_insn_decoder.c', L+'pt_block_decoder.c'],
 [('decoder event','event to be reported next',L+'pt_insn_decoder.c')],
 [('pt_config_from_user',L+'pt_config.c'),('pt_asid_from_user',L+'pt_asid.c'),('pt_asid_to_user',L+'pt_asid.c'),('pkt_to_user',L+'pt_packet_decoder.c'),('pt_evt_to_user',L+'pt_event_decoder.c'),('insn_to_user',L+'pt_insn_decoder.c'),('block_to_user',L+'pt_block_decoder.c')],
 ['pt_pkt_next','pt_evt_next','pt_qry_event','pt_insn_next','pt_insn_event','pt_insn_asid','pt_blk_next','pt_blk_event','pt_blk_asid','pt_image_add_file','pt_image_add_cached'])
prop('N01', 'Instruction length and class decode matches the x86 architecture',
 'For every byte sequence and execution mode, the decoded instruction length and branch class equal those of the x86 architecture, or the bytes are rejected.',
 ['inputs'],
 'every byte sequence of up to 15 bytes in every execution mode',
 'Tests sample a few hundred encodings.',
 [L+'pt_ild.c', L+'pt_insn.c'], [], [('pt_ild_decode',L+'pt_ild.c')], ['pt_insn_next'])
prop('N02', 'Error and version queries and processor errata selection are total and fixed',
 'Every error code has a distinct message, the reported version matches the build, and errata are selected exactly for the documented processor models.',
 ['inputs'],
 'every code, every processor identification',
 'Tests sample the table.',
 [L+'pt_error.c', L+'pt_version.c', L+'pt_cpu.c'], [], [('pt_cpu_errata',L+'pt_cpu.c')], ['pt_errstr','pt_library_version','pt_cpu_errata'])
prop('N03', 'The test compiler assembles annotated tests into the traces they describe',
 'For every annotated assembly file, the test compiler emits exactly the packets its directives describe and the expected-output files its annotations describe, or reports an error with its line.',
 ['inputs'],
 'every annotated assembly source file',
 'Its unit tests cover the parser only.',
 ['pttc/src/main.c','pttc/src/parse.c','pttc/src/yasm.c'], [], [('parse',"pttc/src/parse.c")], ['output files'])
with open(os.path.join(os.path.dirname(__file__), '..', 'properties.jsonl'), 'w') as f:
    for p in P: f.write(json.dumps(p) + '\n')
