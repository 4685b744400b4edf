"""The listed properties. tools/gen.py writes properties.jsonl and MANIFEST.json from this file."""
P = []


def prop(id, title, statement, over, domain, why, files, mechanism, technique, note, state=(), observe=(), thorough=True):
    P.append(dict(id=id, title=title, statement=statement, over=over, domain=domain, why=why, files=files, mechanism=mechanism,
                  technique=technique, note=note, state=state, observe=observe, thorough=thorough))


prop('C01', 'Vectorised array arithmetic equals its scalar definition',
     'For every array length, including lengths that are no multiple of the vector width, each vectorised real or complex array operation '
     '(copy, add, subtract, multiply, conjugate multiply, multiply-accumulate, scale, absolute value, format conversion, sum) returns what the '
     'scalar definition of that operation gives, to single-precision rounding. It changes no source operand and nothing beyond the padded destination.',
     ['inputs'], 'operations x lengths 0..4200 x operand data of several scales',
     'T3/T30/T31/T60 compare each operation on one fixed short array (length 32) only; tails, other lengths, other magnitudes and writes past the end are never looked at.',
     ['source/RKSIMD.c', 'headers/RadarKit/RKSIMD.h', 'source/RKFoundation.c'],
     [('vector loops over the padded length', 'source/RKSIMD.c'), ('scalar complex arrays', 'source/RKFoundation.c RKComplexArray*')],
     'property-based testing: differential against a float64 scalar reference, guard words, ASan',
     'Random search over length, operation and data; assumes aligned, padded, finite operands.',
     observe=['the RKSIMD_* and RKComplexArray* functions'])

prop('C02', 'Pulse compression is the matched-filter correlation of the received samples',
     'Every pulse handed to the pulse engine comes out once, in order, with each gate whose filter window lies inside the received samples equal to the '
     'correlation of the raw samples with the filter that the pulse number selects from the waveform most recently set, placed at that filter\'s output '
     'origin, in both the interleaved and the split result. The reported gate counts are the input gates less the filter length plus one, and that number '
     'divided by the down-sampling ratio and rounded up, with every ratio-th gate kept. Neither the number of processing cores nor the length of the run changes the result.',
     ['inputs', 'configurations', 'histories'], 'gate counts, raw data, waveforms of 1..22 groups x 1..3 filters with any origins, earlier waveforms, core counts 1..8, down-sampling ratios, runs longer than the buffer',
     'T51 compares a few samples of one fixed pulse with one filter; no test looks at other filter placements, waveform groups, waveform changes, down-sampling or several cores.',
     ['source/RKPulseEngine.c', 'source/RKScratch.c', 'source/RKDSP.c', 'source/RKWaveform.c'],
     [('FFT correlation', 'source/RKPulseEngine.c RKBuiltInCompressor'), ('round-robin cores', 'source/RKPulseEngine.c pulseWatcher, pulseEngineCore'),
      ('filter selection', 'source/RKPulseEngine.c RKPulseEngineSetFilterByWaveform')],
     'property-based testing: stateful pulse histories through the threaded engine, differential against float64 correlation',
     'Random search; thread interleavings are those the scheduler produces. The producer stays within a quarter of the buffer, so overload skipping is outside.',
     observe=['RKPulseEngineGetProcessedPulse', 'RKBuiltInCompressor'])

prop('C03', 'The ring filter is its difference equation, whatever the number of cores',
     'For every history of pulses, when the ring filter is enabled every pulse that was compressed leaves the ring filter engine with each gate of the filter region equal to '
     'the output of the configured IIR/FIR difference equation applied, gate by gate and channel by channel, to the sequence of compressed pulses so far; pulses that '
     'the compressor skipped neither change nor enter the filter history. Gates beyond the region, skipped pulses and all pulses of a run with the filter disabled keep their samples. '
     'Every pulse finishes with the status flags of what happened to it, and the number of cores never changes the result.',
     ['inputs', 'configurations', 'histories'], 'gate counts, region limits, cores 1..8, FIR and IIR coefficients, skipped pulses, buffer depths, run lengths',
     'No test compares the engine\'s output with anything; the demonstrations run one filter on one fixed set of pulses.',
     ['source/RKPulseRingFilter.c'],
     [('per-core gate regions', 'source/RKPulseRingFilter.c ringFilterCore, RKPulseRingFilterUpdate'), ('scheduling', 'source/RKPulseRingFilter.c pulseRingWatcher')],
     'property-based testing: stateful pulse histories through the threaded engine, differential against a float64 difference equation',
     'Random search; gate count and filter are constant within a run, and the producer stays within a quarter of the buffer.',
     observe=['pulse header status and samples after RKPulseStatusRingProcessed'])

prop('C05', 'Radar moments are the published estimators of the pulses of their ray',
     'For every set of pulses and every gate, the moment processors (pulse pair, pulse-pair hop, ATSR, multi-lag, spectral) produce the power, reflectivity, velocity, '
     'width, coherency, differential reflectivity, differential phase and correlation coefficient of their defining estimators, computed from that ray\'s pulses alone: '
     'noise is subtracted once, calibration and phase offsets are applied to their own gate, and nothing from an earlier ray, another gate, another channel or beyond the ray enters.',
     ['inputs', 'configurations', 'histories'], 'sequences of rays with differing pulse and gate counts, signal statistics, noise levels, calibrations, processors and lag choices',
     'T5x/T6x tests compare one fixed ray of a few gates or only measure speed; reuse of the scratch space, other gate counts, offsets and pulse counts are never examined.',
     ['source/RKPulsePair.c', 'source/RKPulsePairHop.c', 'source/RKPulsePairATSR.c', 'source/RKMultiLag.c', 'source/RKSpectralMoment.c', 'source/RKScratch.c'],
     [('lag products', 'source/RKPulsePair.c RKPulsePair'), ('hop lags', 'source/RKPulsePairHop.c RKPulsePairHop'), ('alternating lags', 'source/RKPulsePairATSR.c RKPulsePairATSR'),
      ('multi-lag fit', 'source/RKMultiLag.c RKMultiLag'), ('spectral', 'source/RKSpectralMoment.c RKSpectralMoment')],
     'property-based testing: differential against a float64 reference implementation, scratch space reused over a sequence of rays',
     'Random search; specific differential phase and spectral width are not compared; at least four pulses per ray.',
     observe=['RKMomentScratch fields after a processor returns'])

prop('C06', 'Every pulse reaches the ray its position and sweep marks say',
     'For every history of pulses, the moment engine cuts rays exactly where the position bin changes, a sweep begins or ends, or the pulse limit is reached, sharing boundary pulses unless told otherwise. '
     'The rays come out once and in order; each has the start and end times and angles, marker, pulse count, gate count, gate size and configuration of its own pulses. A ray of at least four compressed pulses within three degrees '
     'is processed with the noise, thresholds, velocity scale and calibration of its own configuration and equals what those pulses give when processed alone; any other ray is marked skipped and carries no values. '
     'The number of cores, buffer laps and earlier configurations change nothing.',
     ['inputs', 'configurations', 'histories'], 'sweeps of several scan types with differing configurations, strays, stares beyond the pulse limit, cores 1..8, boundary modes, buffer depths, down-sampling ratios',
     'The existing tests of the moment engine only time it; grouping, ray headers, configuration changes and buffer laps are never compared with anything.',
     ['source/RKMomentEngine.c', 'source/RKScratch.c', 'source/RKCalibrator.c', 'source/RKPulsePair.c'],
     [('gathering', 'source/RKMomentEngine.c pulseGatherer'), ('ray workers', 'source/RKMomentEngine.c momentEngineCore'), ('delivery', 'source/RKMomentEngine.c RKMomentEngineGetProcessedRay')],
     'property-based testing: stateful pulse histories through the threaded engine against a gathering model and a ray-alone metamorphic relation',
     'Random search; the producer waits so that the engine never falls half a buffer behind; gate count and compression state are constant within a sweep.',
     observe=['RKMomentEngineGetProcessedRay', 'the arguments of the configured moment processor'])

prop('C07', 'Gate values are calibrated by their own filter and censored by their own signal',
     'For every waveform layout, each gate of a ray gets the reflectivity, differential reflectivity and phase calibration of the filter that produced it, with the range correction of its own range. '
     'For every ray, a gate keeps its H (V) value only when its own signal-to-noise ratio and quality exceed the thresholds in that channel and the next gate is kept too; '
     'dual-polarisation products need both channels; every other value is NaN, signal power and quality are always reported, and neither earlier rays, neighbouring rays nor the gate count disturb this.',
     ['inputs', 'configurations', 'histories'], 'filter layouts of 1..8 filters in any order, groups 1..22, gate counts up to the capacity, thresholds, signal levels, non-finite product values, sequences of rays',
     'No test looks at calibration arrays or at censored rays.',
     ['source/RKCalibrator.c', 'source/RKScratch.c'],
     [('calibration', 'source/RKCalibrator.c RKCalibratorSimple'), ('censoring', 'source/RKScratch.c makeRayFromScratch')],
     'property-based testing: differential against a per-gate reference model', 'Random search; gates that no filter covers are outside.',
     observe=['scratch S2Z, dcal, pcal', 'float products of the ray'])

prop('C10', 'Recorded I/Q files hold exactly the recorded pulses and read back unchanged',
     'While recording is on, every pulse goes, in order and once, into the file its configuration, the record requests and the length limit call for: a new file begins when the configuration changes, when recording is switched, '
     'or when the limit is reached, and is named after the time of its first pulse; nothing is recorded while recording is off. Reading a finished file gives back the radar description, the configuration, the complete waveform with all '
     'groups and filters, and each pulse with its header and both channels bit for bit - for raw and for compressed data, any cache size, any gate counts, and whenever the recorder is stopped. '
     'A disk that fills up never stops the recorder, and what is on it is a prefix of the files.',
     ['inputs', 'histories', 'fault_sequences'], 'pulse histories, configuration changes, record on/off at any moment, length limits, cache sizes 64 B .. 1 MB, waveforms of 1..22 groups, disk-full points',
     'The suite never runs the recorder; file contents, cache flushes, switching and reading back are untested.',
     ['source/RKRawDataRecorder.c', 'source/RKFileHeader.c', 'source/RKFoundation.c', 'source/RKWaveform.c'],
     [('file switching', 'source/RKRawDataRecorder.c pulseRecorder'), ('write cache', 'source/RKRawDataRecorder.c RKRawDataRecorderCacheWrite, CacheFlush'),
      ('header', 'source/RKFileHeader.c RKFileHeaderRead, source/RKWaveform.c RKWaveformReadFromReference'), ('pulses', 'source/RKFoundation.c RKReadPulseFromFileReference')],
     'property-based testing: stateful recording histories through the threaded recorder, file model and read-back round trip, injected write faults',
     'Random search; files begin in different milliseconds and the pulse buffer is not lapped. Filter gains are worked out by the reader and not compared.',
     observe=['files under <dataPath>/iq', 'RKFileHeaderRead, RKReadPulseFromFileReference'])

prop('C11', 'Damaged, short or old raw data and waveform files are read safely',
     'Reading a raw I/Q file that is cut anywhere, has damaged bytes, or holds more gates than the pulse has room for returns every whole pulse in front of the damage unchanged and then reports the end or an error; '
     'a header or waveform that is cut short or whose filters reach outside its samples is refused. Files in the version 5 and 6 layouts give the same pulses, calibrations and filters as they hold. Nothing outside the buffers is read or written.',
     ['inputs', 'fault_sequences'], 'recordings x cut positions x pulse capacities x damaged bytes in every part of the file x layout versions',
     'The suite reads well-formed version 7 waveform files only.',
     ['source/RKFileHeader.c', 'source/RKFoundation.c', 'source/RKWaveform.c'],
     [('header', 'source/RKFileHeader.c RKFileHeaderRead'), ('pulses', 'source/RKFoundation.c RKReadPulseFromFileReference'), ('waveform', 'source/RKWaveform.c RKWaveformReadFromReference, RKWaveformInitFromFile')],
     'property-based fuzzing: structured damage of generated files, prefix oracle, ASan',
     'Random search; a refused header ends in exit(), which the harness turns into a result.',
     observe=['RKFileHeaderRead', 'RKReadPulseFromFileReference', 'RKWaveformInitFromFile'])

prop('C09', 'Every configuration change makes one complete new revision of the ring',
     'For every history of configuration changes, from any number of threads, each change makes exactly one new revision: a copy of the one before it in which only the values named by the change differ, '
     'with the next identifier, in the next slot of the ring. A change with a bad value leaves that value as it was and holds up no later change. Earlier revisions stay as they were until the ring comes '
     'round to their slot, a revision is found by its identifier as long as the ring holds it, and whoever reads the latest revision while another is being made never sees a mixture of two.',
     ['inputs', 'histories', 'schedules'], 'ring depths, sequences of changes with any keys and values, several keys at a time, bad waveforms, long texts; concurrent writers and readers',
     'The tests add a few configurations with good values from one thread and print them.',
     ['source/RKConfig.c'],
     [('copy, change, publish under one lock', 'source/RKConfig.c RKConfigAdvance'), ('search by identifier', 'source/RKConfig.c RKConfigWithId')],
     'property-based testing: stateful model comparison of the whole ring after every change; concurrent writers and readers with a consistency invariant',
     'Random search; interleavings are those the scheduler produces.',
     observe=['the configuration ring and its index'])

prop('C15', 'Every pulse carries the antenna position of its time and its sweep marks',
     'For every history of antenna positions and pulse times, however they interleave, every pulse gets the azimuth and elevation interpolated along the shorter arc between the last position at or before '
     'its time and the first one after, with azimuths in [0, 360), and the velocities, raw readings and scan type of the former. The first pulse of an active scan, or after the end of a sweep, or of another '
     'scan type begins a sweep; the pulse at which a completed position has been passed, or the scan is no longer active, ends it. Each beginning makes one configuration revision with the elevation and azimuth '
     'of that sweep, and each pulse refers to the revision in force.',
     ['inputs', 'histories', 'schedules'], 'position and pulse histories at rates from 0.1 to 12 pulses a position, turns through north, scan modes, active and completion flags, buffer depths, interleavings of the two producers',
     'The test replays one simulated pedestal and prints; ties, several positions between pulses, turns through north and buffer reuse are never looked at.',
     ['source/RKPositionEngine.c', 'source/RKDSP.c', 'source/RKConfig.c'],
     [('search, interpolation and markers', 'source/RKPositionEngine.c pulseTagger'), ('interpolation of angles', 'source/RKDSP.c RKInterpolatePositiveAngles')],
     'property-based testing: stateful histories through the threaded engine, differential against interpolation and marker rules over the whole history',
     'Random search; interleavings are those the scheduler produces from generated producer schedules; the antenna moves less than half a circle between positions.',
     observe=['pulse header and configuration after RKPulseStatusHasPosition'])

prop('C20', 'WebSocket messages arrive whole, once and in order in both directions',
     'However TCP splits or joins the byte stream, each message of the server reaches the message handler once, whole, terminated and in order, each payload queued by the client reaches the server as one '
     'masked binary frame, in order, and each ping is answered with a pong of the same payload. Nothing is exchanged unless the handshake response upgrades the connection and carries the right digest. '
     'A frame that does not fit ends the connection and nothing received makes the client access memory outside its buffers. A close from the peer is reported once, and the client can be stopped at any time.',
     ['inputs', 'histories', 'fault_sequences'], 'scripts of frames of 0 bytes to 1 MB in both directions, places where the stream is cut, handshake responses in any header order and case, bad handshakes, endings',
     'The test connects to a server on the Internet and prints what comes; it is not among the stable tests.',
     ['source/RKWebSocket.c', 'headers/RadarKit/_rfc_6455.h', 'headers/RadarKit/RKWebSocket.h'],
     [('frames', 'source/RKWebSocket.c RKWebSocketFrameEncode, RKWebSocketFrameDecode, RKWebSocketFrameGetTargetSize'), ('handshake', 'source/RKWebSocket.c RKWebSocketConnect'),
      ('run loop', 'source/RKWebSocket.c transporter'), ('queue', 'source/RKWebSocket.c RKWebSocketSend')],
     'property-based testing: scripted peer over real loopback connections with generated cuts, differential against an independent RFC 6455 codec, ASan',
     'Random search; plain connections, messages in single frames as the client documents, payload buffers left alone until sent.',
     observe=['message, open and close handlers; bytes at the peer'])
prop('C21', 'Commands and packets cross the socket server and client whole and in order',
     'Every line a client sends to a server reaches the command handler once, in order, and every packet the server sends, from the command and stream threads at the same time, arrives unbroken with its own delimiter and in the order of its thread, '
     'however the socket splits, joins or partly accepts the bytes; a send reports the bytes it sent or a failure. A client hands every complete line, fixed size or delimited packet up to 16 MB to its receive handler once and in order, never an '
     'incomplete packet, and goes on with the next connection when one ends. The terminate handler runs once per client that leaves, its slot becomes vacant, clients beyond the limit are told the server is busy, and stopping closes the connections.',
     ['inputs', 'histories', 'schedules', 'fault_sequences'], '1-3 clients with up to 24 lines of 0 to 1600 characters, five kinds of packet pieces, streams of up to 10 packets per connection over up to 3 connections cut anywhere, refused and partial sends',
     'The tests start a server and wait for a user to connect.',
     ['source/RKServer.c', 'source/RKClient.c', 'source/RKNetwork.c', 'headers/RadarKit/RKServer.h', 'headers/RadarKit/RKClient.h'],
     [('command lines', 'source/RKServer.c RKOperatorRoutine, RKOperatorReadLine'), ('commands in order', 'source/RKServer.c RKOperatorCommandRoutine'), ('packets', 'source/RKServer.c RKOperatorSendPackets; source/RKNetwork.c RKNetworkSendPackets'),
      ('clients', 'source/RKServer.c RKServerRoutine'), ('receiving', 'source/RKClient.c theClient; source/RKServer.c RKServerReceiveUserPayload')],
     'property-based testing: scripted peers over real loopback connections with generated cuts, send() with generated partial results and errors, stateful comparison of both logs, ASan',
     'Random search; clients stay connected until their commands were answered (commands still queued when a client leaves may be dropped), packets arrive within the timeout.',
     observe=['command, stream, terminate and receive handlers; bytes at the peer'])
prop('C13', 'A product file holds its product, and reading gives the product back',
     'Every product written to a file makes a netCDF file with the documented dimensions, attributes and variables whose values are those of the product (missing for values that are not finite), and reading that file gives back its description, '
     'calibrations, times, angles and values. A write that fails, for any reason and at any byte, is reported. Listing the files of a sweep finds exactly those of the same prefix and time; reading them gives every product and a sweep of the same '
     'rays, and a product filled from a sweep holds the rays of its moment. A file of any other structure is refused or read without touching memory outside the product.',
     ['inputs', 'fault_sequences'], 'products of 1-361 rays and 1-250 gates of every moment and scan type with any texts and values, full disks and bad paths, folders of files of several sweeps, files of other dimensions, types and attributes',
     'The tests write one product and look at it by eye; reading back, failures and foreign files are not looked at.',
     ['source/RKProductFile.c', 'source/RKProduct.c', 'source/RKSweepFile.c'],
     [('writer', 'source/RKProductFile.c RKProductFileWriterNC'), ('reader', 'source/RKProductFile.c RKProductFileReaderNC, RKProductReadFileIntoBuffer'),
      ('sweep files', 'source/RKSweepFile.c RKSweepFileRead; source/RKProductFile.c RKProductCollectionInitWithFilename'), ('products of a sweep', 'source/RKProduct.c RKProductInitFromSweep')],
     'property-based testing: round trip and differential against an independent netCDF reader; generated foreign files; injected write failures; ASan',
     'Random search; classic netCDF format, files whose bytes are damaged at random are left out as the netCDF library itself does not end on some.',
     observe=['product files; products and sweeps read back'])
prop('C27', 'Numbers, times, paths and texts are converted as specified for every input',
     'Every number is shown with its digits in groups of three, its sign and three decimals where it has them, every time in the requested format and number of decimals; the parts, folder, extension, symbol, prefix and home of any path are those '
     'of the path, and the folders of a path are made; texts are stripped, unquoted, indented, centered, freed of escape sequences, put in columns or shown as bytes as documented; the difference of two angles takes the shorter way. '
     'Results stay until as many later ones as there are buffers were made, also when threads convert at the same time, and nothing is read or written outside the texts.',
     ['inputs', 'schedules'], 'values of 34 types, times up to the year 9999 in every format, paths of up to 6 parts and 1500 characters, texts of quotes, escapes, white space and long lines, pairs of angles, 2-7 threads',
     'The tests print a few of these.',
     ['source/RKMisc.c', 'source/RKFoundation.c'],
     [('digits', 'source/RKMisc.c RKIntegerToCommaStyleString, RKFloatToCommaStyleString'), ('values', 'source/RKFoundation.c RKStringFromValue, RKVariableInString'), ('times', 'source/RKMisc.c RKTimevalToString'),
      ('paths', 'source/RKMisc.c RKLastNPartsOfPath, RKFolderOfFilename, RKPreparePath; source/RKFoundation.c RKGetSymbolFromFilename'), ('angles', 'source/RKMisc.c RKMinDiff, RKAngularCrossOver')],
     'property-based testing: differential against independent formatting in Python, buffers of exact size under ASan, threads in lockstep',
     'Random search; two reserved values that end the use of a function are left out.', observe=['returned texts'])
prop('C26', 'Stream selections, product lists and product descriptions keep what they say',
     'A text of stream selections selects exactly the streams it names, the last status page winning, and the text made from a selection selects the same again. Taking the products of a list one by one gives each product of the list once, in order, '
     'with its name, unit, symbol and a mapping to a byte that covers its range. A user product description gives back every value it names, with defaults for what it leaves out, and is refused without its mandatory keys.',
     ['inputs'], 'selections of up to 40 characters, all 64-bit stream words, all lists of products, descriptions with keys in any order, spacing, quotes and up to two keys missing',
     'The tests print a few descriptions.', ['source/RKFoundation.c'],
     [('streams', 'source/RKFoundation.c RKStreamFromString, RKStringFromStream'), ('products', 'source/RKFoundation.c RKGetNextProductDescription'), ('descriptions', 'source/RKFoundation.c RKParseProductDescription')],
     'property-based testing: differential against a table of selections, round trip of texts and words, rendering of generated descriptions',
     'Random search.', observe=['returned words, texts and descriptions'])
prop('C18', 'JSON texts are read and changed as JSON says, and damaged ones are safe',
     'In every health document, a key of any case gives its value, the members come in order, a state is found exactly if a member is in it, and setting states or logical values changes these and nothing else. Elements, keys and values taken from '
     'any JSON document are those of the document, whatever its texts hold. Lists of numbers, quoted texts and controls give what they list, no more than there is room for. A value is in the state of the zone it is in. '
     'A text that is cut anywhere or is no JSON at all is scanned to its end without reading or writing outside it.',
     ['inputs'], 'health documents of up to 8 members with any spaces and states, JSON documents of up to 12 leaves of any text in four layouts, lists of six types, cut documents and arbitrary texts',
     'The tests print what is found in a few documents.', ['source/RKMisc.c', 'source/RKFoundation.c'],
     [('health', 'source/RKMisc.c RKGetValueOfKey, RKGetNextKeyValue, RKReplaceAllValuesOfKey, RKReplaceEnumOfKey, RKReviseLogicalValues'), ('conditions', 'source/RKFoundation.c RKFindCondition'),
      ('scanner', 'source/RKMisc.c RKJSONScanPassed'), ('lists', 'source/RKFoundation.c RKParseNumericArray, RKParseQuotedStrings'), ('states', 'source/RKFoundation.c RKValueToEnum')],
     'property-based testing: differential against a JSON parser and rendered documents; fuzzing of cut and arbitrary texts in buffers of exact size under ASan',
     'Random search; health texts without quotes, brackets, commas or colons in values, as the functions document.', observe=['returned texts and states'])

prop('C19', 'Health of all nodes is consolidated, logged and shown complete and unmixed',
     'Each consolidated health is one JSON object with the members of one finished report of every node that has reported, in node order, each no older than the one before; a report comes again, or after the node fell silent, only with its states '
     'marked old, and when all nodes report again their new reports soon appear together. Readings of position and heading that are not used are marked not wired and replaced by those of the radar; the radar moves only after five healths in a row with a significant change, '
     'to the last of them. The latest health, also of a node, is the last one finished. What does not fit into a health is left out whole. The logger writes every health to the file of its minute while recording is on, and closes it when the minute is over. The overview shows every state.',
     ['inputs', 'configurations', 'histories', 'schedules'], 'histories of reports of 1..12 nodes with pauses, slow reports, silent and returning nodes, GPS readings and flags, reports of up to 4 kB; healths over minutes to days with the record switched; up to 150 states',
     'The tests print the overview of one document; no test runs the health engine or the logger against a history.', ['source/RKHealthEngine.c', 'source/RKHealthLogger.c', 'source/RKRadar.c', 'source/RKMisc.c'],
     [('combination', 'source/RKHealthEngine.c healthConsolidator'), ('slots', 'source/RKRadar.c RKGetVacantHealth, RKGetLatestHealth, RKGetLatestHealthOfNode'), ('log files', 'source/RKHealthLogger.c healthLogger'), ('overview', 'source/RKRadar.c RKHealthOverview')],
     'property-based testing: stateful histories, the engine threads stepped from poll to poll, against a reference model of reports, location and files',
     'Random search; threads are interleaved at their polls, a node fills a report within four polls, the buffer is deeper than the number of nodes.', observe=['consolidated healths, location of the radar, log files, overview text'])

prop('C14', 'Each sweep becomes its products and files once, complete and in order',
     'Every run of rays from a sweep beginning (or the previous end) to a sweep end becomes one sweep with those rays in order, reduced to one turn of 360 rays when it has a few more, and no ray of it is taken from elsewhere. For each base product that the engine is to make and '
     'the sweep has, its buffer holds every gate and angle of these rays and the radar, configuration, scan type and times of the sweep; while recording is on, and only then, and only for sweeps of at least three rays that are mostly mid-sweep, each product is written exactly once, '
     'under the name made of data path, day, prefix, start time and elevation or azimuth, and the handling script gets the list of these files. Rays are given back when their sweep is no longer in use, never those of the latest sweeps or of one in progress. '
     'A flush ends the sweep in progress. Products are described, found and released by their identity, no more than there are slots.',
     ['inputs', 'configurations', 'histories', 'schedules'], 'histories of up to 14 runs of rays of 1..400 with begins, ends, joins, gaps, gate and product changes, four configurations, record switches, flushes, slow recorders, ring depths that wrap; product operations of up to 60 steps; sweeps of up to 1700 rays',
     'The tests run one simulated scan and look at no product; wrap-around, joined and partial sweeps, a slow recorder or a full product buffer never occur.', ['source/RKSweepEngine.c', 'source/RKProduct.c', 'source/RKFoundation.c'],
     [('gathering', 'source/RKSweepEngine.c rayGatherer, RKSweepCollect'), ('products and files', 'source/RKSweepEngine.c sweepManager, RKProductInitFromSweep'), ('release', 'source/RKSweepEngine.c rayReleaser'),
      ('product slots', 'source/RKSweepEngine.c RKSweepEngineDescribeProduct, RKSweepEngineUndescribeProduct, RKSweepEngineGetVacantProduct')],
     'property-based testing: stateful ray histories through the threaded engine against a reference model of sweeps, products, files and ray states',
     'Random search; the ray producer is at most four rays ahead, a sweep takes at most half of the ray buffer; conversion to degrees and archives of the handling script are not covered.', observe=['arguments of the product recorder, product buffer, system() commands, ray states'])

prop('C12', 'Waveforms hold the signal, filters and gains asked for, in memory and in files',
     'A tone, chirp, hopped, hopping-chirp, multiplexed or given waveform has the samples of its description: each frequency where it was asked for, hops evenly spaced around the carrier, in pairs, each visited once; phase zero in the middle; unit energy in each filter; 16-bit '
     'samples at full scale. Its filters lie within its samples and its noise gain, sensitivity gain and full scale are those of the samples, also after it is conjugated, decimated, windowed, appended to, normalised, or down-converted, each of which does to every sample and filter what it says. '
     'A copy is equal and stands alone. A wave file gives back the same waveform; a file that cannot be written is reported; a file that is cut or damaged is refused or read as a waveform whose filters lie within its samples.',
     ['inputs', 'histories', 'fault_sequences'], 'waveforms of 1..400 samples (thorough: 20,000), 1..11 hops, any carrier and bandwidth, 10 rates; up to 6 operations in any order; files cut anywhere or with up to 4 bytes changed; a full disk',
     'The tests print waveforms and compare nothing with them.', ['source/RKWaveform.c', 'source/RKWindow.c', 'source/RKDSP.c'],
     [('waveforms', 'source/RKWaveform.c RKWaveformLinearFrequencyModulation, RKWaveformFrequencyHops, RKWaveformFrequencyHoppingChirp, RKWaveformInitAsTimeFrequencyMultiplexing'),
      ('operations', 'source/RKWaveform.c RKWaveformDecimate, RKWaveformApplyWindow, RKWaveformAppendWaveform, RKWaveformDownConvert, RKWaveformConjugate'), ('gains', 'source/RKWaveform.c RKWaveformCalculateGain, RKWaveformNormalizeNoiseGain'),
      ('files', 'source/RKWaveform.c RKWaveformWriteFile, RKWaveformReadFromReference')],
     'property-based testing: stateful sequences of waveform operations, each against a double-precision model of the one before; file round trips; fuzzing of wave files under ASan',
     'Random search; sub-carrier frequencies of a conjugate, down-chirps and waveforms without energy are not covered.', observe=['samples, filter anchors, gains, wave files'])

prop('C25', 'Windows, ramps, strides, transforms and conversions are as defined',
     'A window or ramp of any length, one sample included, is the one of its definition, its parameter and blend being zero when not given; tapers are symmetric. A stride of hops visits each hop once. The analytic signal keeps its real part and has no negative frequencies; each plan of the transform '
     'module, for any capacity, is the discrete Fourier transform of its size, either way, in place or not. The shortest way between two angles, and angles between them, stay on that way and within a turn. Fast sines and cosines are within their error. '
     'Built-in ground clutter filters are stable, stop the slow and pass the fast. Noise of a pulse is the mean power of its gates, and refused when there are none. Bits are reversed, and numbers of half and single precision become the same number, whatever their bits.',
     ['inputs'], 'lengths 1..3000, all windows with any parameter and blend, capacities 1..3000, strides of 1..260 hops, angles within a turn, all bit patterns',
     'The tests compare a few values of few functions; the rest are printed or timed.', ['source/RKWindow.c', 'source/RKRamp.c', 'source/RKDSP.c'],
     [('windows and ramps', 'source/RKWindow.c RKWindowMake, source/RKRamp.c RKRampMake'), ('hops', 'source/RKDSP.c RKBestStrideOfHops'), ('transforms', 'source/RKDSP.c RKHilbertTransform, RKFFTModuleInit'),
      ('angles and numbers', 'source/RKDSP.c RKGetSignedMinorSectorInDegrees, RKInterpolateAngles, RKHalf2Single, RKBitReverse32'), ('filters and noise', 'source/RKDSP.c RKGetFilterCoefficients, RKMeasureNoiseFromPulse')],
     'property-based testing: differential against definitions in double precision (numpy), invariants, exact-size buffers under ASan',
     'Random search; the unfinished fit of spectra (RKSGFit) is not covered.', observe=['returned samples and numbers'])

prop('C28', 'Noise estimates are those of the echo-free gates',
     'From the pulses of a ray that is white noise of any power, with echoes over up to 30% of its gates, the noise found in each channel is that power within the accuracy the number of samples allows; it follows the scale of its channel exactly, is the same for swapped channels, '
     'and does not depend on the gates within the pulse width. In each step, point clutter, flat stretches, signal, gaps and running sums are told from noise by the published thresholds for that number of pulses. Other rays, however few pulses and gates they have, yield a noise between the weakest and the strongest gate, or that of the configuration together with a failure. '
     'A noise measurement of the radar is the mean over the latest 200 pulses that are compressed and long enough, or 0.001 without any, and becomes part of the configuration.',
     ['inputs', 'configurations'], 'rays of 1..220 pulses and up to 1200 gates, powers over 11 decades, echoes of 3..50 dB in three shapes, windows of 20..120 gates; ten kinds of other rays; pulse buffers of 2..260 with short and uncompressed pulses, up to three filters',
     'No test calls the estimator with data or compares a noise with anything.', ['source/RKNoiseEstimator.c', 'source/RKRadar.c', 'source/RKDSP.c'],
     [('ray estimator', 'source/RKNoiseEstimator.c RKRayNoiseEstimator'), ('radar measurement', 'source/RKRadar.c RKMeasureNoise'), ('from configuration', 'source/RKMomentEngine.c RKNoiseFromConfig')],
     'property-based testing: known-truth statistics with bounds from the number of samples, exact metamorphic relations (scale, channel, sign, leakage), a reference model of the estimator in double precision, a reference mean; ASan',
     'Random search; results within 1e-5 of a threshold are not compared with the model; the accuracy is claimed for eight pulses or more and windows that fit the echo-free gates.', observe=['estimated noise, added configuration'])


prop('C17', 'Preferences are found, in order, with the values their lines give them',
     'Every line of the preference file that begins with a keyword is one entry, in order; comments, blank lines, spacing, line ends and trailing comments make no difference. Looking for a keyword, in any case, gives its first entry, looking again the next, until there is none; '
     'another keyword, or an update, starts over, and counting comes to an end. Its value is read as number, logical value, text, control or calibration as its line says, as many as are asked for, texts cut to their room and terminated; a keyword without a value, or that is not there, '
     'leaves nothing of another one behind. An update reads the file as it is then; no file stays open; keywords and values of any length stay within their room.',
     ['inputs', 'histories'], 'files of up to 220 lines of all kinds, histories of look-ups, conversions into 0..8 values and updates, values up to 4000 characters',
     'The tests print the values of one file.', ['source/RKPreference.c', 'source/RKFoundation.c'],
     [('reading', 'source/RKPreference.c RKPreferenceUpdate, RKPreferenceInitWithFile'), ('look-ups', 'source/RKPreference.c RKPreferenceFindKeyword, RKPreferenceGetKeywordCount'),
      ('conversions', 'source/RKPreference.c RKPreferenceGetValueOfKeyword, RKParseQuotedStrings')],
     'property-based testing: stateful histories against a reference parser, exact-size buffers under ASan',
     'Random search; lines begin with their keyword, have fewer than 4095 characters and values without #; up to 128 entries.', observe=['entries, returned values, open files'])

prop('C22', 'Each message is logged once, whole and in order, with its time',
     'A message of any length goes once, whole, to the screen and to the log of its kind, with the date and time at which it was logged (or the time only, or the indent of a continued message) and the end of its line; one that is too long is cut at the end of its line. '
     'A daily log is that of the day of the message, in the log folder or the log folder of the root, whatever the length of their names; a named log is in its folder, the default one in the root. Messages of any number of threads are never mixed nor lost, and '
     'those of each thread are in order; a refused message stops no other.',
     ['inputs', 'configurations', 'schedules'], 'messages of 0..100,000 characters in 25 formats, over any days, eight kinds of logs with folder names up to 250 characters, up to 8 threads',
     'The tests print to the screen only; nothing reads a log.', ['source/RKFoundation.c', 'source/RKMisc.c'],
     [('messages', 'source/RKFoundation.c RKLog'), ('folders', 'source/RKFoundation.c RKSetRootDataFolder, RKSetLogfile, RKSetLogfileToDefault')],
     'property-based testing: message histories under a set clock against a reference rendering; threads that log at the same time',
     'Random search; a format has at most 3840 characters; the threads run freely, not in all schedules.', observe=['screen and log files'])

prop('C23', 'The clock gives each reading the time its reference says it happened',
     'From system times that come late by any latency and a reference that counts at a constant rate, each reading is given the time at which it happened, within the latency, and successive readings the time between them to a fraction of it, the latency being averaged over a stride. That also holds for readings at irregular times, '
     'after gaps, after a reset, for a reference that starts anew with it, from a known rate, and, at a steady rate, when the reference makes no progress. The offset is added, whole, to each; neither the unit of the reference nor the day make a difference; after a reset nothing of the time before remains; system times come back as they were.',
     ['inputs', 'histories'], 'strides of 2..1000, rates of 100..5000 per second, reference units over six decades, latencies of 0..3 periods, gaps of up to a day, stops, restarts and resets',
     'The tests print the times of one history.', ['source/RKClock.c', 'source/RKDSP.c'],
     [('time', 'source/RKClock.c RKClockGetTime'), ('reset', 'source/RKClock.c RKClockReset, RKClockInitWithSize'), ('known rate', 'source/RKClock.c RKClockSetDxDu, RKClockSetDuDx')],
     'property-based testing: simulated histories with known truth against error bounds, exact metamorphic relations (unit, day, offset, reset)',
     'Random search; system time does not go back, up to 1e9 tics in a stride; a reference that restarts is claimed from when it made no progress over a stride.', observe=['times returned'])


prop('C24', 'Disk usage stays within its limits by removing the oldest files only',
     'Files of each kind in the data folder take no more room than the limit set for that kind, or its share of the overall limit, at the start, after any history of new files and after a restart; without limits nothing is removed. Files are removed oldest first by the time of their names, in any time zone, no more of them than needed, and nothing else: no other files, folders that are not empty, '
     'links or siblings, whatever the names of the folders; folders of days that became empty are removed. That holds however many files and days there are, also when they are more than its lists take. A file that is missing or elsewhere is refused; files are added from several threads, and the manager stops at any time. Logs are removed when they are older than their maximum age, not before.',
     ['inputs', 'configurations', 'histories', 'schedules'], 'trees of up to 300 files in up to 80 days, 3 kinds, limits from nothing to all, lists of 4 to 1000 files, histories of up to 10 groups of new files, pauses and restarts; up to 6 threads; logs of -3..+3 days around any maximum age',
     'The tests run it once on one folder and look at no file.', ['source/RKFileManager.c'],
     [('list', 'source/RKFileManager.c refreshFileList, listElementsInFolder, timeFromFilename'), ('removal', 'source/RKFileManager.c fileRemover, isFolderEmpty'), ('new files', 'source/RKFileManager.c RKFileManagerAddFile'),
      ('logs and limits', 'source/RKFileManager.c folderWatcher, RKFileManagerStart, RKFileManagerStop')],
     'property-based testing: stateful histories on real trees in a scratch folder, the threaded manager against a model of what must be kept; removals contained and commands recorded',
     'Random search; names as RadarKit makes them, new files come in the order of their times, one that is added while a full list is made again may count twice.', observe=['files and folders on disk'])

prop('C16', 'Volume commands make the pedestal do those sweeps, in order',
     'A volume command (pp, rr, vol and their i and o variants, point, home, start, stop, next) sets exactly the scans that its text describes, at bat, on deck and in the hole, and says ACK; a text that is not understood, incomplete or too long returns an error, says NAK and leaves the scans as they were. Answers and summaries fit the response buffer and never overflow whatever the text. '
     'With a pedestal that follows the actions, each sweep of the volume is done in order at its elevation or azimuth, is flagged with its mode and set point, collects from its start to its end, is marked complete once at its end, and then the next one follows, repeating the line-up; o commands run once, i commands and point at once, next goes to the next volume. '
     'After stop, a point or the end of a volume with nothing to follow both axes come to rest, no further action is taken and no position is flagged.',
     ['inputs', 'histories', 'configurations'], 'up to 12 commands of up to 262 sweeps, malformed and random texts; histories of up to 8 commands at any time with 20-200 positions a second, accelerations of 60-300 degrees per second squared, any start, slew and point modes',
     'The tests run no pedestal and compare no volume.', ['source/RKSteerEngine.c'],
     [('commands', 'source/RKSteerEngine.c RKSteerEngineExecuteString, RKSteerEngineAddPPISet, RKSteerEngineAddRHISet'), ('sweeps', 'source/RKSteerEngine.c RKSteerEngineGetAction, RKSteerEngineNextHitter'), ('flags', 'source/RKSteerEngine.c RKSteerEngineUpdatePositionFlags'),
      ('summary', 'source/RKSteerEngine.c RKSteerEngineScanSummary, makeSweepMessage')],
     'property-based testing: stateful histories of commands against a model of the line-up in closed loop with a simulated pedestal, generated and random texts under ASan',
     'Random search; speed-down scans, values that are not finite and a full turn of the first PPI sweep are not claimed; a command never comes in the middle of an action.', observe=['position flags, actions and responses'])

prop('C30', 'Clients of a command center receive what they asked for, whole and true',
     'All that a client of the command center receives is whole packets, also while commands are answered in the middle of a stream. A client of a ray stream, of display or full values, receives every complete ray from the one at hand when it subscribed, once, in order, no more than two rounds of the workers late, with the header of that ray and exactly the products that the packet lists, every n-th gate. '
     'The same holds for health, processor status and ray status lines; each sweep comes once with all its rays and those products asked for that it has; A-scope pulses are recent, paced, go through the waveforms in turn and carry the samples of that pulse. Streams and clients do not disturb each other. Commands, one or more in a line, are answered in order; controls come only after authentication, with all of them listed; '
     'a client that polls is never left without any packet for a second. A text display has a line for each ray. A client that registers a completely described product gets it stored for each sweep as it sent it, with the size of that sweep, and whatever else it sends changes no product, overflows nothing and does not upset what follows; its products go with it. Radars can be added and removed at any time.',
     ['histories', 'schedules', 'inputs', 'configurations'], 'sessions of up to 60 steps with 3 clients, 31 stream letters, any ray buffers and down-sampling; command threads racing the stream; up to 4 products with 11 kinds of replies; up to 14 changes to the list of radars',
     'The tests connect no client and read no packet.', ['source/RKCommandCenter.c', 'source/RKServer.c', 'source/RKSweepEngine.c', 'source/RKRadar.c'],
     [('streams', 'source/RKCommandCenter.c socketStreamHandler, copyRayHeader'), ('commands', 'source/RKCommandCenter.c socketCommandHandler'), ('sessions', 'source/RKCommandCenter.c socketInitialHandler, socketTerminateHandler, RKCommandCenterAddRadar, RKCommandCenterRemoveRadar'),
      ('packets', 'source/RKServer.c RKOperatorSendPackets, RKServerReceiveUserPayload'), ('products', 'source/RKSweepEngine.c RKSweepEngineDescribeProduct, RKSweepEngineUndescribeProduct, RKSweepCollect')],
     'property-based testing: stateful sessions with a model of what each client must have received, every packet parsed and compared byte by byte; a race of the stream thread with commands; ASan',
     'Random search; the radar is a stand-in whose buffers the harness fills, and the clock is simulated; the A-scope composite and the text streams other than 2 and 6 are not compared; relays are not part of it.', observe=['bytes at the client end of the sockets, stored products'])

prop('C29', 'A whole radar makes its rays from its signal, and leaves nothing behind',
     'A live radar that is given positions and pulses makes one ray of each stretch of pulses between two positions of its grid (a new position, an end of a sweep or too many pulses end it), with the angles and times of its first and last pulse, and with the reflectivity, differential reflectivity, velocity, phase and correlation that the signal, the calibration, the PRF and the waveform of these pulses make, whatever the depths of its buffers, the number and timing of its workers, the pulse-to-ray ratio, and changes of the configuration on the way. '
     'The recordings at each level have exactly those pulses (raw, or after the filter) and those sweeps, with the samples, angles and moments that were in the buffers. A soft restart starts from zero with the settings kept and does the same again. Init, live, restart, stop and free can follow each other in any valid order, with any description (limits, defaults), any number of waveforms, calibrations and controls and devices that fail to start or are not there; afterwards no thread, no open file, no allocated memory and no device of the radar remains, and the next radar in the process works.',
     ['configurations', 'schedules', 'histories', 'inputs'], 'radars of 16 to 384 gates, ratio 1 to 4, 1 to 4 cores, up to 3000 pulses in up to 3 sweeps, levels 0 to 3, up to 4 changes and a restart; life cycles over all description fields, 11 devices with 4 ways to start, up to 140 waveforms',
     'The tests start a radar with fixed settings and look at its output by eye.', ['source/RKRadar.c', 'source/RKPulseEngine.c', 'source/RKPulseRingFilter.c', 'source/RKMomentEngine.c', 'source/RKPositionEngine.c', 'source/RKSweepEngine.c', 'source/RKRawDataRecorder.c', 'source/RKConfig.c', 'source/RKClock.c'],
     [('buffers and description', 'source/RKRadar.c RKInitWithDesc, RKFree'), ('life cycle', 'source/RKRadar.c RKGoLive, RKStop, RKSoftRestart'), ('pulses and positions', 'source/RKRadar.c RKGetVacantPulse, RKSetPulseHasData, RKGetVacantPosition, RKSetPositionReady'),
      ('configurations', 'source/RKConfig.c RKConfigAdvance, source/RKRadar.c RKSetWaveform, RKAddConfig'), ('recordings', 'source/RKRawDataRecorder.c, source/RKSweepEngine.c')],
     'property-based testing: generated whole-radar runs against a closed-form model of the signal, the rays, the recordings; life cycles with exact accounting of threads, files and memory; ASan',
     'Random search; the producer keeps within 300 pulses of the engines; time stamps carry no jitter (the clock is C23); a waveform is changed only when no pulse is on its way.', observe=['rays in the buffer, .rkr/.rkc and moment files, tasks and descriptors of the process, heap in use'])

prop('C31', 'Commands to a radar do what they say, once, and are answered truthfully',
     'A command string given to a live radar reaches exactly the device or setting it names: everything after t, p or h and any spaces goes to the transceiver, pedestal or health relay as it is, b, y and z to the master controller, in the foreground or in the background; dn, ds, dt, dq, df, dm and r, with or without a space before the parameter, change the noise, thresholds, ring filter, moment method and recording to the values given, and nothing else, and the rays from then on are made that way; without a parameter they report the value in force. d r restarts the engines and d c clears the buffers with all settings kept. '
     'If an answer is asked for there is exactly one, ACK or NAK and one line, that says what was done; commands that are unknown, empty, or for a device that is not there are refused with NAK and change nothing; if none is asked for the command is carried out all the same. No string of bytes crashes the radar or changes anything but the setting it names. '
     'Controls that are added are kept in order, whole up to the length of their fields, up to the room there is, cleared all at once, and concluding them gives each an identity that no other control ever had.',
     ['inputs', 'histories', 'configurations'], 'sequences of up to 25 commands of 15 kinds, arbitrary bytes among them, any subset of five devices; up to 12 steps on up to 1700 controls in 0 to 140 slots',
     'The tests execute no command.', ['source/RKRadar.c', 'source/RKPulseRingFilter.c', 'source/RKMomentEngine.c', 'source/RKRawDataRecorder.c'],
     [('commands', 'source/RKRadar.c RKExecuteCommand'), ('settings', 'source/RKRadar.c RKSetPulseRingFilterByType, RKSetMomentProcessorTo..., RKAddConfig'), ('background', 'source/RKRadar.c RKPerformMasterTaskInBackground'), ('controls', 'source/RKRadar.c RKAddControl, RKClearControls, RKConcludeControls')],
     'property-based testing: stateful command sequences against a model of the settings and of what each device hears; fuzzed command bytes; ASan',
     'Random search; the devices are stand-ins that record what they hear; answers of the v command are C14; one command at a time.', observe=['settings of the engines and the latest config, texts heard by devices, answers'])
