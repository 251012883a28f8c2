# What each check runs: parts = (scenario, flavour, runs quick, runs thorough)
DEC = ['libipt packet, event, query, instruction flow and block decoders', 'libipt image, section, section cache, block cache']
SIMOS = 'operating system file and memory interface (simulated files, no real I/O)'
CPU = 'the processor and its trace hardware (seeded machine simulator with its own packet encoder)'
SB = ['libipt sideband session, contexts, pevent decoder and file loader', 'libpevent record reader', 'libipt image, section, section cache']
OS = 'the operating system and its perf records (seeded simulator with its own record writer)'
SIM = 'a run generates a program, executes it on the simulated machine with a random subset of features and events, '
PROPS = {
 'C01': dict(parts=[('C01', 'asan', 160000, 4000000)], rule=SIM + 'and decodes the whole trace with the instruction flow decoder against the execution history; non-trivial: more than 3 instructions were executed under trace', real=DEC, stub=[CPU, SIMOS]),
 'C02': dict(parts=[('C02', 'asan', 120000, 4000000)], rule='as C01 with the block decoder, with and without ending blocks on calls and jumps, one to three decoders in turn so that later ones find the block cache filled', real=DEC, stub=[CPU, SIMOS]),
 'C03': dict(parts=[('C03', 'asan', 120000, 4000000)], rule=SIM + 'with everything that makes events turned up, and decodes from a random synchronisation point with the instruction flow or block decoder; every event must match the recorded one in kind, payload, order and place; non-trivial: more than 6 events', real=DEC, stub=[CPU, SIMOS]),
 'C04': dict(parts=[('C04', 'asan', 160000, 4000000)], rule='as C01 with the event decoder and with the query decoder asked along the executed path; non-trivial: more than 3 branches and events', real=DEC, stub=[CPU, SIMOS]),
 'C05': dict(parts=[('C05', 'asan', 120000, 4000000)], rule=SIM + 'losing trace to buffer overflows often, and decodes with one of the four layers; non-trivial: at least one overflow and more than 3 instructions', real=DEC, stub=[CPU, SIMOS]),
 'C06': dict(parts=[('C06', 'asan', 200000, 6000000)], rule=SIM + 'then damages its trace (or replaces it with random packets) and its code, and calls one of the five decoder layers in a documented loop or in any order; address sanitizer, step budgets, position and progress checks; non-trivial: more than 8 calls', real=DEC, stub=[CPU, SIMOS]),
 'C07': dict(parts=[('C07', 'asan', 100000, 3000000)], rule=SIM + 'damages a random range of trace bytes, and synchronises forward until past the damage with one of four layers; from the first intact point on everything must equal the truth; non-trivial: decode was checked after the damage', real=DEC, stub=[CPU, SIMOS]),
 'C08': dict(parts=[('C08', 'asan', 80000, 3000000)], rule=SIM + 'cuts the trace at one to four arbitrary bytes and decodes each with a random layer; non-trivial: more than 3 branches and events', real=DEC, stub=[CPU, SIMOS]),
 'C09': dict(parts=[('C09', 'asan', 80000, 3000000)], rule=SIM + 'walks over the synchronisation points forward, backward, by offset and from positions in between with one of five layers, then decodes from where it arrived; non-trivial: more than two points', real=DEC, stub=[CPU, SIMOS]),
 'C10': dict(parts=[('C10', 'asan', 80000, 3000000)], rule=SIM + 'splits the trace at its synchronisation points and decodes every segment with a decoder of its own, calls interleaved by the seeded scheduler; non-trivial: more than one segment', real=DEC, stub=[CPU, SIMOS]),
 'C11': dict(parts=[('C11', 'asan', 180000, 4000000)], rule=SIM + 'on a simulated clock with a random timing setup (time stamps, coarse counter of any rate, cycle packets with and without threshold, ratio changes, idle gaps beyond the coarse counter wrap, overflow, missing nominal frequency or counter ratio in the configuration); bounds on the time computed from the clock are checked at every event of the event layer, the query, instruction and block layers must agree with it event by event and tick by tick; non-trivial: more than 3 timing packets', real=DEC, stub=[CPU, SIMOS]),
 'C12': dict(parts=[('C12', 'asan', 160000, 6000000)], rule='a run writes 4 to 64 random packets, with values that fit their fields and values that do not, into a buffer of random capacity, comparing every byte with a reference encoder, moves back now and then, and reads everything back with the packet decoder from an exactly sized buffer and from one cut inside the last packet; one run in six reads and rewrites the trace of a simulated execution; non-trivial: more than 3 packets accepted', real=['libipt packet encoder and packet decoder'], stub=['the processor and its trace hardware (reference encoder written from the SDM)', SIMOS]),
 'C13': dict(parts=[('C13', 'asan', 40000, 1200000)], rule='a run performs 4 to 44 random operations on one or two images and a section cache over a small address range with overlapping file ranges and specific and wildcard address spaces, next to a reference model; sampled addresses are read through a decoder and through the cache after every operation and all of them at the end; non-trivial: more than one section left', real=DEC, stub=[SIMOS], assumptions=['no section reaches the end of the 64 bit address space']),
 'C14': dict(parts=[('C14', 'asan', 30000, 1000000)], rule='as C13 with one allocation, file or mutex operation failing inside about half of the operations, and null arguments; after a failing operation everything must read as before and the operation must succeed when repeated; non-trivial: a fault hit', real=DEC, stub=[SIMOS], assumptions=['no section reaches the end of the 64 bit address space']),
 'C15': dict(parts=[('C15', 'asan', 40000, 1200000)], rule='as C13 with files being removed, replaced, truncated, extended and overwritten between operations, files read instead of mapped, and opening, status, mapping, seeking and reading failing or coming up short while code is read; non-trivial: all', real=DEC, stub=[SIMOS], assumptions=['a modification changes the size or the modification time of the file and does not happen while the file is mapped (the library has no other way to see it)']),
 'C16': dict(parts=[('C16', 'asan', 90000, 3000000)], rule=SIM + 'decodes it with the instruction flow or block decoder, and changes the image between decoder calls, sometimes after other decoders warmed the block caches: parts overlaid with changed code, modules replaced, removed or handed to the callback, other images set, other address spaces and cache limits changed; every instruction must be the one in memory now; non-trivial: the image changed', real=DEC, stub=[CPU, SIMOS], assumptions=['changes keep what the program does, so that the recorded flow stays valid', 'no section reaches the end of the 64 bit address space']),
 'C17': dict(parts=[('C17', 'asan', 100000, 3000000)], rule=SIM + 'puts most of its code behind the memory callback, some of it next to sections, and decodes it with one to three decoders while the callback fails at an address or at some call with any error, or returns fewer bytes than asked for; non-trivial: more than three callback reads', real=DEC, stub=[CPU, SIMOS]),
 'C18': dict(parts=[('C18', 'thr', 800000, 20000000)], rule='a run gives two to four simulated threads up to four operations each on one section cache (add files, read, fill images from it, read and empty the images, change the limit) over three small files, some added before; threads may be switched at every access to shared memory, atomic and lock operation; the recorded history must be linearizable against a reference model of the cache; every access is checked for data races and for memory that is not alive; non-trivial: all', real=['libipt section cache, section and image code, compiled with thread instrumentation'], stub=['threads and locks (fibers under a seeded scheduler)', SIMOS]),
 'C19': dict(parts=[('C19', 'thr', 600000, 12000000), ('C19b', 'thr', 40000, 1000000)], rule='as C18, or, one thread in two kinds, one or two decoders over shared sections whose block caches count against the limit; at rest the mapped bytes and the bytes that go away when the limit drops to zero must respect the limit; images and cache are then freed in any order from any thread, some while other threads read their image (the content must not change), and nothing may be left; non-trivial: a section was mapped', real=['libipt section cache, section and image code, compiled with thread instrumentation'], stub=['threads and locks (fibers under a seeded scheduler)', SIMOS]),
 'C20': dict(parts=[('C20', 'thr', 300000, 8000000)], rule='as C18 with one or two kinds of system call or allocation failing, or two or three decoders over shared sections with failing calls; no call may return with a lock held, block for ever, or fail without a reason, and everything works again afterwards; non-trivial: a fault hit', real=DEC, stub=['threads and locks (fibers under a seeded scheduler)', SIMOS]),
 'C21': dict(parts=[('C21', 'thr', 60000, 1500000)], rule=SIM + 'and decodes it in two or three simulated threads with decoders of their own over shared sections and a shared cache, while another thread may change the cache limit, add files and read; every decoder must report exactly the execution history; non-trivial: more than 3 instructions were executed under trace', real=DEC, stub=[CPU, 'threads and locks (fibers under a seeded scheduler)', SIMOS], assumptions=['every access of the library to its heap and to mapped files is instrumented; the simulated memory is sequentially consistent, and accesses that are not ordered by locks or atomics are reported as races']),
 'C23': dict(parts=[('C23', 'asan', 90000, 3000000)], rule='a run simulates an operating system with one to four processors, processes that fork, exec, map files, exit, and reuse process ids, and the sideband records it writes to one stream per processor and one for the initial mappings (all record types, every set of sample fields, clocks with skew, offset and conversion parameters, cpu-wide and plain switch records, missing time); then it drives the session with the trace events of one processor and compares the image given at every event with the code mapped by the process that runs then, and every notification with the records; non-trivial: more than 3 events in user code and a context switch', real=SB, stub=[OS, SIMOS], assumptions=['the time between two dependent records is larger than the rounding of the clock conversion and the configured delay', 'kernel code maps above the configured kernel start']),
 'C26': dict(parts=[('C26', 'asan', 240000, 8000000)], rule='a run writes up to 40 records with random types, payloads and sample fields with the library or with a reference writer, compares the bytes, reads them back (also by the reference reader) from an exactly sized buffer, then truncates or damages the bytes and reads them again, comparing acceptance, boundaries and every field with the reference reader; address sanitizer checks the bounds of the heap buffers; non-trivial: records written and read', real=['libpevent record reader and writer'], stub=['the kernel writing perf records (reference writer from linux/perf_event.h)']),
 'C24': dict(parts=[('C24a', 'asan', 800000, 20000000), ('C24', 'asan', 30000, 1200000)], rule='a run of the first kind puts one to eight simulated streams behind the public decoder interface (equal, backward and extreme time stamps, every callback failing at any of its calls with any error, missing callbacks, streams added later and from within callbacks, events of other structure sizes, dumps in between) and checks every callback against the state of the merge; a run of the second kind lets the simulated operating system write its records with close, equal and missing time stamps and clock offsets and compares every printed line, notification and process image with the records, event by event; non-trivial: more than 3 (5) records applied from several streams', real=SB, stub=[OS, SIMOS, 'sideband decoders (first kind)']),
 'C25': dict(parts=[('C25', 'asan', 70000, 2400000)], rule='as C24, second kind, with streams truncated, flipped, overwritten, zeroed, cut, inserted into or with damaged headers, mapped files and streams missing, opening, seeking, reading and allocating failing while a stream is loaded and any system call or allocation failing while records are applied, with a notifier that accepts, rejects or is absent, and contexts kept by the user; a reference reader tells which records are intact; printing, notifications, contexts and images must follow them exactly, address sanitizer and leak accounting check the rest; non-trivial: more than 5 records applied and a stream damaged or a fault injected', real=SB, stub=[OS, SIMOS], assumptions=['the library reports a stream that ends inside a record as ended']),
 'C22': dict(parts=[('C22', 'asan', 60000, 2000000)], rule='a run either decodes a simulated execution with the instruction flow or block decoder while allocations and mappings fail (one chosen allocation, or a share of them), or performs random image and section cache operations and reads while they fail, or replays sideband records while they fail; also every allocation of every object constructor fails in turn; what is reported up to a reported error must equal the truth, a failing constructor must leave nothing behind, a failing operation must change nothing, decode must work again once memory is back, and nothing may be left at the end; non-trivial: a fault hit', real=DEC + SB, stub=[CPU, SIMOS, OS]),
 'C27': dict(parts=[('C27', 'asan', 90000, 3000000)], rule=SIM + 'possibly damages its trace, writes it and possibly sideband streams to simulated files, runs the dump tool with a random command line, one in ten of them wrong, one in three with an allocation, open, seek or read failing, and compares every printed line with a reference listing made from the packet decoder, a last-ip model and a sideband record reader; non-trivial: more than five packets were listed, or a fault hit', real=['ptdump, its main function called in process', 'libipt packet decoder and time estimation', 'libipt sideband and libpevent'], stub=[CPU, SIMOS, OS], assumptions=['estimated times are computed with the time estimation code of libipt, which C11 checks']),
 'C28': dict(parts=[('C28', 'asan', 120000, 4000000)], rule=SIM + 'on a processor with one or several of nine trace errata, in the combinations in which they exist, shown by the simulated trace hardware at random opportunities while the decoder is configured for them; decodes with one of the four layers and compares with the execution as for C01 to C04; non-trivial: an erratum showed', real=DEC, stub=[CPU, SIMOS], assumptions=['the packet after one that the decoder must ignore carries a full IP (the erratum descriptions do not say whether an ignored packet updates the last IP)', 'erratum situations that cannot be told from correct trace are not generated (an asynchronous disable at a VM entry with SKD022, a spurious PSB+ directly after an overflow with SKD010, a TRIG after an overflow with SKD010)']),
 'C29': dict(parts=[('C29', 'asan', 120000, 4000000)], rule=SIM + 'and packets of formats libipt does not know are put between the packets of the trace at a drawn rate; a simulated user who knows them provides the decode callback; decode with one of the five layers is compared with the execution, and the callback may fail, return sizes beyond the trace or replace the packet; non-trivial: the trace holds an unknown packet', real=DEC, stub=[CPU, SIMOS, 'the user\'s decode callback'], assumptions=['unknown packets hold nothing that looks like a PSB', 'no errata: the erratum workarounds document that unknown packets end their search']),
 'C30': dict(parts=[('C30', 'asan', 120000, 4000000)], rule=SIM + 'two callers decode one trace (a third of them damaged) with one layer in lock step, one with the structures of the library\'s header, one with structures of drawn sizes in every call, its configuration and address spaces included; every result must agree in what both know, and nothing is read or written outside of the caller\'s structure; non-trivial: the trace is not empty', real=DEC, stub=[CPU, SIMOS], assumptions=['structures of the packet, event, instruction and block calls have at least one byte']),
}
