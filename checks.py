"""What each check runs: the harness entries of every property, their sharding, and the bounds they state."""
CHECKS = {}
def C(pid, bounds, entries, assumptions=()): CHECKS[pid] = dict(bounds=bounds, entries=entries, assumptions=list(assumptions) + COMMON)
def E(name, what, **k): return dict(name=name, what=what, **k)
COMMON = ["LLVM IR of the release profile (opt-level 1, overflow checks and debug assertions on) stands for the code users run",
  "the allocator never fails; fresh memory is filled with a fixed pattern; hash-map seeds are fixed by VERIF_SEED",
  "worker threads (the garbage collector) never run during a harness; a blocking wait is reported as a violation",
  "math library functions are evaluated by the host's libm when concrete and are uninterpreted functions refined with libm values otherwise"]

C("C01", "every history of 4 (thorough 6) start/stop/process calls, process calls of 1 or 3 frames with at most 2 frames per block, 2 channels, samples in [-8, 8]; two process calls of 2^4..2^36 (+0..15) and 0..63 frames at 44.1 and 48 (thorough also 8 and 96) kHz for the time",
  [E("h_transport", "every history of start, stop and process calls: silence or the input, and the time", reach=["end", "started", "stopped"], shards=4),
   E("h_time", "any number of frames: the time is frames / rate within 2^-31 s and increases")])
C("C04", "4 gain nodes of 2 channels, all 64 connection sets among them, 2 creation orders, 2 input and 2 (thorough all) output nodes; 3 nodes of 2-3 channels with up to 2 connections of any channel mapping; 4 nodes of every pair of channel counts from 1 to 3 with every channel mapping of one connection; two calls of 1-2 frames, any samples in [-1, 1]; equality to within 2^-12",
  [E("h_topology", "every set of connections among gain nodes, every input and output node, two creation orders", shards=4),
   E("h_channel_mapping", "every channel mapping of two connections into one node, with and without the system input", shards=2),
   E("h_channel_counts", "every pair of channel counts from 1 to 3 with every channel mapping, with or without a sibling reading the same source", shards=2)])
C("C05", "every history of 3 (thorough 4) edits out of 15 on a graph of 3 gain nodes with 2 channels, with and without process calls between the edits; any samples in [-1, 1]; equality to within 2^-12",
  [E("h_edits", "connect, disconnect, drop, create again, change of input/output node, in every order", shards=8)])
C("C09", "buffers of up to 3 channels and 4 frames with every offset and size of the operation and every (doubly nested) view; 2 channels of up to 40 frames for the vectorised loops; any sample values",
  [E("h_buffer_ops", "every operation at every location and size on a buffer and every view of it", shards=4),
   E("h_buffer_read", "reading and copying through every immutable view"),
   E("h_buffer_long", "mixing, scaled mixing, gain and copying of long runs at any alignment", shards=2),
   E("h_buffer_build", "buffers built from slices and other buffers")])
C("C10", "buffers of 1-3 (thorough 4) channels and frames against interleaved data of 1-3 (4) channels and 0-3 (4) frames; any bit patterns as samples",
  [E("h_interleave", "filling from and copying to interleaved data, and the way back", shards=4)])
C("C11", "any two times in +-10^6 s; 0..2^24 (thorough 2^32) samples at 44.1, 48, 96 (thorough also 8 and 192) kHz; any time up to 10^5 s incremented by 0..2^24 samples; any number of beats up to 10^5 at four or five tempi",
  [E("h_timestamp", "seconds to timestamp and back, order, addition and subtraction", reach=["end", "ordered"]), E("h_timestamp_samples", "samples and back"),
   E("h_timestamp_increment", "increments by samples, beats and seconds"), E("h_timestamp_beats", "beats and back")])
C("C23", "any linear level in [0, 1000] (10^6 for conversion to decibels), any decibel value in +-200; round trip on a grid of 80 (thorough 640) half decibels",
  [E("h_level_linear", "linear levels as they were put in, order, clamping, nought and unity"), E("h_level_from_db", "decibels to linear: monotone, silence at -128 dB, finite, never negative"),
   E("h_level_as_db", "linear to decibels: monotone, never below -128 dB"), E("h_level_round_trip", "both ways on a grid of levels")])
C("C07", "every history of 3 (thorough 4) operations out of set-now, set-at (6 times), cancel, cancel-after (4 times), process, then 4 more samples; two changes and a cancellation one of whose times is any time in [0, 3] samples; any values; at 32768 Hz, where sample times are exact, 40 (thorough 96) pending changes in 4 orders; and at 44.1/48 kHz for one change at any time not within 1 % of a sample",
  [E("h_param_set", "histories of set, cancel and process operations with any values", shards=8, reach=["end", "due", "cancelled"]),
   E("h_param_times", "two changes and a cancellation at any time, around block boundaries", shards=8, cost=5, reach=["end", "due", "cancelled"]),
   E("h_param_many", "very many pending changes", reach=["end", "due", "cancelled"]),
   E("h_param_clamp", "values outside the range of the parameter"), E("h_param_independent", "several parameters at once; reading the value back"),
   E("h_param_rounded_time", "rates at which sample times are rounded", shards=2)])
C("C08", "linear ramps between any values in [2, 100] with 4 starts x 7 durations x 8 block cuts on a 1/4-sample grid; any end time for given values; two ramps in a row with pauses and jumps; exponential ramps of any duration and on a 4x4 value grid; 7-12 samples",
  [E("h_ramp_values", "a linear ramp between any values, late or in time, whatever the blocks", shards=6, reach=["end", "ramping", "target"]),
   E("h_ramp_times", "a linear ramp with any end time", shards=4, reach=["end", "ramping", "target"]),
   E("h_ramp_chain", "two ramps, pauses and jumps", shards=4, reach=["end", "held", "second", "target"]),
   E("h_ramp_exponential", "an exponential ramp with any end time", shards=4, cost=4, reach=["end", "ramping", "target"]),
   E("h_ramp_exponential_curve", "the geometric curve on a grid of values", reach=["end", "ramping"])])
C("C12", "gain: 1-3 channels, any gain in [-4, 4], any sequence of four gains out of {0, 1, any in [2, 4]}, blocks of 1-4 and 16-40 frames; mixer: 1-3 (thorough 4) inputs and outputs with any one level, 8x8 with all levels set, blocks of 2-3 and 16-40 frames; any samples in [-8, 8]; equality to within 10^-4",
  [E("h_gain_basic", "any gain, any input"), E("h_gain_steps", "gains that change from sample to sample, through nought and one", shards=4), E("h_gain_long", "long blocks with a change inside"),
   E("h_mixer", "any matrix size, any level, levels set again between calls", shards=8, cost=5), E("h_mixer_long", "long blocks"), E("h_mixer_ready_made", "splitter, unity and unset matrices"),
   E("h_mixer_all_levels", "every level of the largest matrix set before the first call")])
C("C13", "any pan position in [-2, 2] and any input in [-8, 8]; any ordered pair of positions",
  [E("h_pan", "the gains of any position"), E("h_pan_order", "order, mirror images, extremes")])
C("C15", "any frequency in [20, 20000] Hz at 3 sample rates with 3-4 (thorough 5) table entries over 3 (thorough 4) samples; any table values in [-1, 1] for 8 pairs of rate and frequency that meet the end of the table, 12 samples; any table values after up to 20000 (thorough 160000) samples at 4 pairs; any gain in [2, 3] and any change of frequency at 5 times, 1-3 channels; the sine over its whole period at 20 Hz; 3 harmonics of any level in [0, 2]; equality to within 10^-4",
  [E("h_osc_any", "any frequency", shards=6, cost=5), E("h_osc_exact", "any waveform; the phase meets the end of the waveform exactly", shards=2),
   E("h_osc_long", "any waveform after a long time", shards=4),
   E("h_osc_parameters", "gain and frequency change while it plays", shards=6, cost=5), E("h_osc_sine", "one period of the sine", shards=4), E("h_osc_harmonics", "any levels of the harmonics")])
C("C16", "5 settings of attack, decay, sustain and release (0-5 samples each) with any time of the note-on in [0, 3] samples and of the note-off in [0, 12], 5 block cuts, 20 samples; 3 (thorough 4) note events at 6 times each made in any order, before or after processing began; any sustain level in [0.01, 0.99]; retriggering at 7x7 times, with and without a note-off in between; 4 sample rates at which sample times are rounded; any input in [-4, 4]",
  [E("h_adsr_note", "one note with any times of its events", shards=5, cost=5, reach=["end", "attack", "decay", "sustain", "release", "over", "top"]),
   E("h_adsr_order", "note events at any times in any order", shards=4), E("h_adsr_levels", "any sustain level, the note ends in any phase", shards=4, cost=9, reach=["end", "over"]),
   E("h_adsr_retrigger", "a note starts while another one sounds"), E("h_adsr_rounded_time", "rates at which sample times are rounded", shards=2)])
C("C19", "attack 0 or 3 ms, release 0, 2 or 5 ms; reports every 1, 3.3 and 4 frames; any samples in [-8, 8] of 12 (thorough 20) frames on 1-3 channels, processed in 3 blocks cut at every place; any samples in [-100, 100] of 4 or 8 frames with attack 0 and release 0, 4 ms and 1 s in blocks of 1-5 frames; up to 6 blocks of 32 reports that nobody collects",
  [E("h_meter", "any signal, block cut and channel count", shards=4, cost=3, reach=["end", "report"]), E("h_meter_notices", "attack 0: no sample goes unnoticed"), E("h_meter_uncollected", "reports that nobody collects")])
C("C20", "ratios 1.5, 8 and 1e30 (corners also 1 and 3), thresholds -24, -6 and 0 dB (corners also +-20, -40, -128), knees 0, 6 and 24 dB (corners 0 and 12): any level in [0.01, 4] of either sign with attack and release 0; attack 0 or 0.1 ms, release 0 or 0.2 ms, 2 channels, 3 frames in 2 blocks with one of them any sample in [0.01, 4]; any samples in [-0.15, 0.15] of 5 frames on 1-3 channels with any wet and dry gains in [0.5, 2]; one change of each of the seven settings at 3 times with one sample any in [0.5, 2] (release: [0.01, 0.3]); silence with any threshold in [-128, 24]",
  [E("h_comp_corners", "levels at the corners of the curve", validate=4), E("h_comp_curve", "any level on the static curve", shards=8, cost=9), E("h_comp_follow", "the gain follows the averaged envelope", shards=12, cost=9), E("h_comp_automation", "every setting changes on the way", shards=8, cost=8), E("h_comp_mix", "below the knee: the mix", shards=4), E("h_comp_silence", "silence")])
C("C21", "all six filter types; three settings of frequency, Q, shelf gain, gain and sample rate with any signal in [-4, 4] of 4 (thorough 6) frames on 1-2 channels, cut into 3 blocks; at 48 kHz any frequency in [20, 20000] Hz or any Q in [0.1, 10] or any shelf gain in [0.01, 1000], 4 samples of the impulse response to within 10^-3; one change of each setting at 5 times with any signal of 5 frames; the coefficients' poles for any frequency with 3 Q and 3 shelf gains",
  [E("h_biquad_signal", "any signal: the recursion of the filter, channel by channel", shards=2), E("h_biquad_settings", "any frequency, Q and shelf gain", shards=4), E("h_biquad_stable", "stability of the filters asked for"),
   E("h_biquad_automation", "settings change at their sample", shards=3), E("h_biquad_quiet", "silence and very quiet signals")])
C("C14", "tanh, hard clip (thresholds 0.5 and 2), soft saturator (0.5) and a curve of our own: any sample in [-1.25, 1.25], and any of size 1 to 8e37 with 3 mixes and 2 overdrives; any overdrive or any mix with 4 samples; 5 frames on 1-2 channels in 2 blocks with overdrive and mix changing, one sample any in [-1, -0.95]; to within 0.002, the resolution of the table",
  [E("h_shape_any", "any sample lies on the curve", shards=10), E("h_shape_beyond", "beyond the ends of the curve"), E("h_shape_settings", "any overdrive, any mix", shards=4), E("h_shape_alone", "no memory, channels independent", shards=8)])
C("C18", "every history of 4 (thorough 5) steps out of nothing, record, stop, stop and record, record and stop, before blocks of 1-3 frames of any samples on 1-2 channels; a stop at any time in [0, 9] samples against 6 block cuts, with and without a second stop; recordings that cross the 4096-frame buffers by up to 11 frames with 7 of the samples around the boundary any in [-8, 8]; 40 (thorough 80) recordings in a row",
  [E("h_record_history", "every history of starts and stops", shards=8, tshards=24), E("h_record_stop_at", "a stop at any time", shards=6, cost=3), E("h_record_long", "recordings longer than the recorder's buffers", shards=2, reach=["end", "recorded"]),
   E("h_record_many", "more recordings than there are buffers", reach=["end", "recorded"])],
  assumptions=["the notifications are collected before the recorder has used up its 32 buffers and 32 notifications; at most 32 requests wait between two process calls"])
C("C22", "impulse responses of 1-5 (thorough 9) samples with largest blocks of 1-4 (thorough 5) frames on 1-2 channels, any signal in [-8, 8] of 7 (thorough 12) frames cut into three calls shorter and longer than the largest block; any impulse response in [-4, 4] of 1-4 (thorough 7) samples heard through a known signal; one sample of each any; 8 pairs of sizes up to 33 and 32 frames with any three samples at 3 (thorough 5) places; any wet and dry in [0, 1] changing at 5 times; equality to within 10^-3",
  [E("h_conv_signal", "any signal", shards=2, tshards=8), E("h_conv_impulse", "any impulse response"), E("h_conv_both", "a sample of both unknown", shards=2),
   E("h_conv_long", "impulse responses and calls longer than a block", shards=2), E("h_conv_mix", "wet and dry, any of them and changing")],
  assumptions=["the node has as many inputs as the impulse response has channels", "the FFT library is executed on its portable path (no processor features); the replay uses the one the processor selects"])
C("C17", "a sample of 9 frames of any values (and a second channel): every sequence of 3 operations out of start, start from a position, stop, 4 settings of the loop (two of them empty), cancel loop and cancel all, between blocks of 2-4 frames; start and 3 (thorough 4) more with blocks of 3-5 frames; starts ahead and gone by, loops enabled and cancelled and a stop at times ahead with 5 block cuts; a start at any time in [0, 5] or from any position in [0, 6] and loops from any point in [0, 2] or to any in [4, 8], on a grid of 1/64 sample (thorough: both at once); 4 (thorough 5) starts and stops within fades of 5 samples at any level; fades of 1, 2 and 5 samples",
  [E("h_sampler_history", "every sequence of immediate operations", shards=4, reach=["end", "playing"]), E("h_sampler_long", "longer sequences of starts and loops", shards=4, tshards=8, reach=["end", "playing"]),
   E("h_sampler_times", "operations at times ahead and gone by", shards=6, reach=["end", "playing"]), E("h_sampler_cancel_all", "cancelling everything", reach=["end", "playing"]),
   E("h_sampler_any_time", "starting at any time from any position", shards=4), E("h_sampler_any_loop", "loops between any two points", shards=4), E("h_sampler_dense", "starts and stops within fades", shards=4)],
  assumptions=["the sample has the sample rate of the engine; at most 32 requests wait between two process calls"])
C("C06", "14 kinds of nodes that hear nothing or a silent node, made before or after the noise, while three other nodes carry any samples in [-8, 8], are cut off or dropped, blocks of 1-4 frames; nodes of 1 and 3 channels with 6 changes of routing after a loud block, inputs and outputs of 1-4 channels and calls of 1-4 frames; histories of 4 (thorough 5) calls of 1-7 frames with any samples or silence, stopped and started in between",
  [E("h_stale_kinds", "every kind of node, amid noise", shards=2), E("h_stale_channels", "channels without a source after changes of routing", shards=2), E("h_stale_calls", "earlier calls, long calls, stopping and starting", shards=3, tshards=16)])
C("C03", "an engine with two gain nodes: every sequence of 3 (thorough 4) out of 12 operations (set now, set later, cancel, connect, disconnect, output of either node, start, stop, process, drop and create again, several changes) made before or after processing began; every sequence of 4 (thorough 6) of 7 of them with calls in between; 900 (thorough 3000) operations between two calls; 24 (thorough 40) changes of one parameter pending at once; any gains in [0.5, 2]",
  [E("h_order_together", "every sequence of operations made together", shards=4, tshards=16, reach=["end", "playing"]), E("h_order_between", "sequences with calls in between", shards=6, tshards=24, reach=["end", "playing"]),
   E("h_order_many", "very many operations between two calls", reach=["end", "playing"]), E("h_order_changes", "many pending changes", reach=["end", "playing"])])
C("C02", "16 scenes (every kind of node with events on the way, a graph with branches, an instrument): all ways to cut 6 (thorough 8) frames of any samples in [-4, 4] (compressor, waveshaper and envelope follower: one sample of any value in a range, the others given) against one call, events at 4 times; calls up to 9 times longer than the largest block of 1-4 frames; 40 frames at 44.1 and 48 kHz cut in 4 (thorough 5) ways, largest block 16 or 64; equality to within 10^-4 (convolution 10^-3) of outputs, reports and recordings",
  [E("h_blocks_cuts", "all ways to cut a short stream", shards=8, tshards=24), E("h_blocks_long_calls", "calls longer than the largest block", shards=3), E("h_blocks_longer", "longer blocks at rates where sample times are rounded", shards=4)],
  assumptions=["events that fall on a sample do so exactly (32768 Hz) or lie clearly between samples"])
C("C24", "sources of 1-3 (thorough 5) and destinations of 1-6 (9) frames on 2 channels with 11 pairs of rates, every channel selection and 2 first frames each, any samples in [-1000, 1000], to within 0.01; factors 1-4 up and down again, 12 (thorough 20) frames through views, any samples in [-1, 1], exactly",
  [E("h_resample", "every destination frame is the interpolated source"), E("h_resample_there_and_back", "up by a whole factor and down again")])
C("C25", "16 scenes (every kind of node) with events at any of 24 times, 3 ways of cutting 8-12 frames, running and stopped; sequences of 2-4 requests to sampler, ADSR, recorder and mixer; up to 16 changes of a parameter and 32 note events pending; recordings over several buffers, uncollected reports, impulse responses of up to 1025 samples and graphs of 12 (thorough 24) nodes over up to 70 calls",
  [E("h_calm_kinds", "every kind of node with everything falling due", shards=8), E("h_calm_requests", "requests to nodes", shards=4), E("h_calm_many", "many requests and changes at once"), E("h_calm_long", "long recordings, uncollected reports, large graphs")],
  assumptions=["memory counted is that of the global allocator, by the thread that processes"])
C("C26", "12 kinds of nodes beside a gain node of any gain in [0.5, 2], joined to it or not; every sequence of 4 (thorough 5) steps out of dropping the context, the audio process or either node, using the node, using the context and processing 3 frames of any samples; every sequence of 4 (thorough 6) steps of creating and dropping envelope meters and recorders and processing",
  [E("h_life_orders", "every order of dropping and using", shards=8), E("h_life_notifiers", "notifications reach the nodes that are left", reach=["end", "report", "gone"])])
WIP = []
