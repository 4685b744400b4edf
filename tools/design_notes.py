# id: (oracle, not claimed)
NOTES = {
'C01': ('the scalar definition in float64; bound of a few units in the last place of the operands\' scale; every operand and a guard behind the destination compared byte by byte.', 'unaligned or unpadded arrays, non-finite operands, the fused order of multiply-adds.'),
'C02': ('correlation in float64 of the raw samples with the taps of the selected filter, placed by its anchor; order, counts and status flags from a model of the pulse history.', 'the legacy watcher behind useOldCodes, the mode without semaphores, and a producer that overruns the engine.'),
'C03': ('the difference equation in float64 per gate and channel over the pulses that were compressed; untouched samples compared bit for bit.', 'the legacy watcher, changes of the filter while running.'),
'C05': ('a reference implementation of each estimator in float64 (lags, noise subtraction, moments), applied to the pulses of the ray; scratch space reused over a sequence of rays and poisoned in between.', 'specific differential phase, spectral width, rays of fewer than four pulses.'),
'C06': ('a gathering model over the whole pulse history gives ray boundaries, headers and markers; each processed ray must equal the same pulses processed alone; skipped rays carry nothing.', 'the legacy gatherer, pulses that change gate count or compression within a sweep, an engine that lags behind.'),
'C07': ('per-gate reference: the filter that owns the gate, its calibration, range correction; censoring from SNR and SQI of the gate and its neighbour.', 'gates that no filter covers; 8-bit display values (not compiled in).'),
'C09': ('a model of the ring: copy of the previous revision with the named values changed; all slots compared after every change; reader threads check that a revision is never a mixture.', ''),
'C10': ('a model of which pulse belongs to which file; files are read back with RadarKit\'s own reader and compared bit for bit, and with an independent parse of the layout; a full disk is injected at any byte.', ''),
'C11': ('the undamaged recording: every whole pulse in front of the damage must come back unchanged, then an end or an error; ASan for everything else.', 'what is read behind damaged bytes.'),
'C12': ('signal, anchors, gains and names from formulas of each waveform type in float64; operations (decimate, window, conjugate, repeat, concatenate, normalise) against a model of all groups; files read back; damaged files must be refused or read within bounds.', 'negative bandwidths, the subcarrier frequency of a conjugate, RKWaveformOnes, waveforms without energy.'),
'C13': ('what was put into the product comes back from the file through RadarKit\'s reader and through an independent netCDF classic parser; names and times of files from their definition.', 'bytes of netCDF files flipped at random (the netCDF library hangs), end angles (not stored), formats other than classic.'),
'C14': ('a model of sweeps and products from the generated rays: which rays belong to a sweep, which products it yields, which files and messages come of it, in what order; product slots against a model of registration.', 'archives made by the handling script, RKSweepEngineLatestSummary, the Overviewed flag of rays of sweeps with mixed lengths, contents of sweeps of more than 1500 rays.'),
'C15': ('interpolation along the shorter arc and marker rules in float64 over the whole history of positions.', 'antennas that move half a circle or more between positions.'),
'C16': ('a model of the three scan lists decides what each command means; a simulated pedestal (acceleration, delay, slew and point modes) closes the loop, and every position must carry the flags and set point of the scan the model is at; completions are checked against the geometry of the scan.', 'speed-down scans, values that are not finite, a full turn of the first PPI sweep, negative elevation widths without a negative rate, races between the command thread and the pedestal thread.'),
'C29': ('a closed-form model: pulses are sampled from a signal with known amplitude, phase and Doppler shift per gate, so the moments under each configuration, the rays, the recorded samples and the sweep files follow by formula; the process itself (tasks, descriptors, bytes in use) before and after each life cycle.', 'a producer more than 300 pulses ahead, jitter of time stamps, the values of the spectrum width, a waveform changed while its pulses are under way, stopping twice.'),
'C30': ('the real handlers of the command center serve socket pairs from a stand-in radar whose rays, pulses, health and sweeps have contents computed from their numbers, so that every byte a client receives is known; a model per client of what is due.', 'the A-scope composite (mode 2), text streams other than 2 and 6, DSP resets (d r), relays, clients so slow that a send times out.'),
'C31': ('a model of the settings and a log of what five stand-in devices hear, compared after every command; the answer compared with the model; rays made after moment methods were set by commands compared bit by bit with those of a radar that had the method from the start.', 'the texts of the help, answers of the v command (C14), commands at the same time from several clients, commands longer than RKMaximumCommandLength.'),
'C17': ('an independent parser of the file text: entries in order, values split as described.', 'values with #, lines longer than 4094 characters, more than 128 entries or 1000 lines.'),
'C18': ('Python\'s json module on generated documents; lists and enumerations from a model; any text under ASan.', 'health texts with quotes, brackets, commas or colons inside values.'),
'C19': ('a model of the nodes\' texts and of the consolidated document (parsed as JSON); log files compared line by line; the overview and the relays\' enumerations from tables.', 'headings and positions outside of status objects, the short event of a Tweeta, enumeration values that grow a text near 4 kB, a buffer not deeper than the nodes are many.'),
'C20': ('an independent RFC 6455 codec at the other end of a real connection; digests recomputed.', 'fragmented messages, TLS, the digest for another secret than the default.'),
'C21': ('a model of lines and packets at both ends of loopback connections with generated cuts, partial sends and slow readers.', 'commands queued when a client leaves; the unused reconnect and ping flags; a stop while a packet is half read.'),
'C22': ('the log folder read back: each message once, whole, in order per thread, in the file of its day.', 'formats of more than 3840 characters.'),
'C23': ('exact tics and times from the generated reference; the bound follows from the jitter that was generated; the difference is held for whole histories.', 'system time that goes back, strides of more than 1e9 tics, references that restart without a gap.'),
'C24': ('a model of which files may and must be left after each step, from names, sizes and limits; removals are contained to the scratch folder and recorded.', 'files that are added faster than every 0.2 s postpone removal; order within a day when a list is full; a folder that becomes empty while someone writes to it.'),
'C25': ('closed formulas and numpy/scipy in float64.', 'RKSGFit (unfinished), transforms of other types.'),
'C26': ('a model of the bits, lists and descriptions; round trips.', 'the mapping of Sh, Sv and Q to letters.'),
'C27': ('Python\'s own formatting, parsing and calendar; buffers of exactly the documented size under ASan.', 'reserved values that mark errors, the text of RKLastLine.'),
'C28': ('rays with known noise in the gates without echo; the estimate must be within a bound derived from the number of samples; any ray, with weak and extended echoes, must give the value of a reference model of the estimator in double precision, whose smallest margin to a threshold tells when single precision may decide otherwise; degenerate rays must give a finite value or an error.', 'accuracy with fewer than eight pulses or with windows that fit fewer than four times; more than 65535 gates.'),
}
