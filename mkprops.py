#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so the list stays reviewable)."""
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe)))
OUT=["the output buffer after AudioProcess::process"]
p("C01","Transport: silence unless started, time counts processed frames",
 "Whatever the output buffer held before and whatever the input, processing while the engine is not started (never started, or stopped again) leaves every output sample zero and does not advance the engine time. While it is started, each process call advances the engine time by exactly the number of frames processed, so the time always equals frames-processed / sample-rate to the resolution of a timestamp and never decreases.",
 ["histories","inputs"],"every history of start/stop/process calls, every block length and every input/previous output content",
 "the tests run one started engine with a fixed block length and never look at the time or the output of a stopped engine",
 ["src/realtime/processor.rs","src/engine/root.rs","src/engine/context.rs"],
 [("output cleared before the started test; position update after the graph ran","src/realtime/processor.rs")],OUT+["Context::current_time"])
p("C02","The output does not depend on how the stream is cut into blocks",
 "For a fixed graph, fixed scheduled events and a fixed input stream, cutting the stream into process calls of different lengths (including calls longer than the configured maximum frame count) yields the same output samples (to within rounding), the same level reports and the same recordings. (An event placed so close to a sample that rounding decides on which side of it it lies may act one sample earlier or later.)",
 ["histories","inputs","configurations"],"every partition of the stream into process calls, every input stream and every node state reached before it",
 "tests always process with a single block length, chosen below the maximum frame count",
 ["src/realtime/processor.rs","src/realtime/dsp_graph.rs","src/parameter/realtime_parameter.rs","src/effects"],
 [("blocks are limited to the maximum frame count and start at current time + offset","src/realtime/processor.rs"),("nodes keep their state between blocks","src/effects/*/*_processor.rs")],OUT)
p("C03","Control operations take effect at the next process call, in order",
 "Every operation made through the context or a node (creating and connecting nodes, start, stop, parameter changes, cancellation, event requests) is in force from the first frame of the next process call, and operations have the effect of being performed one after another in the order they were made. No operation is lost, repeated or reordered. (Changes of a parameter act in the order of their times; those made for now come before those for later, see C07.)",
 ["histories"],"every sequence of control operations between process calls (the lengths given per check)",
 "each test issues one short fixed sequence of operations",
 ["src/engine/root.rs","src/realtime/processor.rs","src/graph/graph_node.rs"],
 [("one FIFO command queue drained at the start of process","src/realtime/processor.rs")],OUT)
p("C04","Each node hears exactly the sum of what is connected to it",
 "In any acyclic graph of connected nodes, the input of a node is, channel by channel, the sum of the mapped output channels of the nodes connected to it in the current call, plus the system input on the one node connected to the system input, and silence where nothing is connected; the system output is the output of the one node connected to it. This holds whatever the order in which nodes and connections were made.",
 ["programs","inputs","histories"],"every acyclic graph within the node/connection/channel bounds, every creation order and every input",
 "the tests build a handful of fixed graphs (chain, one fan-in) with constant signals",
 ["src/realtime/dsp_graph.rs","src/realtime/graph.rs","src/realtime/topological_sort.rs","src/graph/graph_node.rs"],
 [("topological order","src/realtime/topological_sort.rs"),("mixing of incoming edges with channel mapping","src/realtime/dsp_graph.rs")],OUT)
p("C05","Graph edits take effect exactly and never bring processing down",
 "After any history of connecting, disconnecting and dropping nodes the engine processes exactly the graph that remains: disconnected or dropped nodes contribute nothing, everything else is unaffected. No such history of a graph that stays acyclic makes processing panic or block.",
 ["histories","programs"],"every edit history within the bounds, including dropping nodes that are still connected and connecting the same pair more than once",
 "the tests never drop a connected node, never connect a pair twice and remove connections only from the internal graph type",
 ["src/realtime/dsp_graph.rs","src/realtime/graph.rs","src/graph/graph_node.rs"],
 [("intrusive edge lists relinked on removal","src/realtime/graph.rs"),("removal of a node","src/realtime/dsp_graph.rs")],OUT)
p("C06","A node never hears stale audio",
 "Samples that a node or the system output is given never contain leftovers of earlier calls, of other nodes, or of connections that no longer exist: a channel to which nothing is routed is silent in every call.",
 ["histories","inputs"],"every sequence of process calls and edits within the bounds, with arbitrary audio in earlier calls",
 "tests use a single process call per graph or feed constant signals, for which stale data looks right",
 ["src/realtime/dsp_graph.rs","src/buffer/buffer_pool.rs","src/graph/assigned_buffer_pool.rs"],
 [("pooled buffers are cleared when returned","src/buffer/buffer_pool.rs")],OUT)
p("C07","Scheduled parameter values are applied at the right sample",
 "A parameter that has only set-value changes scheduled applies them in the order of their times (equal times: in the order they were made; a change made for now, or for a time already past, counts as due at once), each one at the first sample at or after its time and clamped to the parameter's range, and otherwise keeps its value, wherever the block boundaries fall. Cancelling removes exactly the pending changes that the cancellation names.",
 ["inputs","histories"],"every set of up to a few changes with arbitrary values and times, every block partition, every cancellation time",
 "tests schedule one or two changes with round times and compare approximately",
 ["src/parameter/realtime_parameter.rs","src/parameter/audio_parameter.rs","src/parameter/parameter_range.rs"],
 [("changes sorted by time and consumed while processing frames","src/parameter/realtime_parameter.rs"),("clamping","src/parameter/parameter_range.rs")],OUT)
p("C08","Parameter ramps go from the current value to the target and stay",
 "A linear (exponential) ramp that overlaps no other ramp starts from the value the parameter has when the ramp starts, moves monotonically along the straight line (geometric curve) between the two values over the ramp's time window, to within one sample's step, never leaves the interval between start and target by more than rounding, and holds the target value from the end time on, wherever the block boundaries fall.",
 ["inputs","histories"],"every start value, target, window and block partition within the bounds",
 "tests check two ramps with fixed values approximately",
 ["src/parameter/realtime_parameter.rs"],[("increment and coefficient computed when the ramp starts","src/parameter/realtime_parameter.rs")],OUT)
p("C09","Audio buffer operations touch exactly the samples they name",
 "Copying, mixing, scaled mixing, duplicating, clearing, filling and setting samples on an owned buffer or on any (nested) view of it changes exactly the addressed channels and frames, to exactly the values of the corresponding single-sample arithmetic, and leaves every other sample as it was. Views report the channel and frame counts they were made with.",
 ["inputs","configurations"],"every buffer content, gain, offset, channel and frame count within the size bounds, for owned buffers and views",
 "tests use fixed offsets and constant data and check a few samples",
 ["src/buffer/audio_buffer.rs","src/buffer/owned_audio_buffer.rs","src/buffer/borrowed_audio_buffer.rs","src/buffer/mutable_borrowed_audio_buffer.rs","src/dsp/mod.rs"],
 [("offset arithmetic of buffers and views","src/buffer"),("vectorised kernels with scalar remainders","src/dsp/mod.rs")],["AudioBuffer::get_sample on every sample"])
p("C10","Interleaving is lossless and layout-correct",
 "Filling a buffer from interleaved data and copying a buffer to interleaved data put sample (channel, frame) at index frame * channel_count + channel for the channel count the caller passes, also when the buffer has fewer or more channels or frames than that; a round trip gives the samples back unchanged, and building a buffer from a slice or from interleaved data gives a buffer holding exactly that data.",
 ["inputs","configurations"],"every channel/frame count combination within the size bounds and every sample value",
 "tests only use matching channel counts",
 ["src/buffer/audio_buffer.rs","src/buffer/owned_audio_buffer.rs"],[("index arithmetic of the interleaving loops","src/buffer/audio_buffer.rs")],["AudioBuffer::get_sample","the interleaved slice"])
p("C11","Timestamp conversions are accurate and order-preserving",
 "Converting seconds, samples or beats to a timestamp and back is exact to within one timestamp tick (2^-32 s) plus floating-point rounding, conversion is monotone, addition and subtraction are inverse to each other, and ordering agrees with the represented time.",
 ["inputs"],"every time value in the supported range",
 "tests convert a few round numbers and compare approximately",
 ["src/utility/timestamp.rs"],[("I32F32 fixed point","src/utility/timestamp.rs")],["Timestamp accessors"])
p("C12","Gain and mixer nodes apply exactly their factors",
 "A gain node outputs, on every channel and sample, its input multiplied by the gain in force at that sample, to within rounding. A mixer outputs on each output channel the sum over the input channels of input times matrix level, including for the ready-made matrices, and a level set before a process call is in force from that call on.",
 ["inputs","configurations"],"every input sample and every level, for the channel counts and block lengths within the bounds",
 "tests use constant inputs and a few levels",
 ["src/effects/gain/gain_processor.rs","src/effects/mixer/mixer_processor.rs","src/effects/mixer/mixer_matrix.rs","src/effects/mixer/mixer_node.rs"],
 [("matrix loop","src/effects/mixer/mixer_processor.rs")],OUT)
p("C13","Pan law",
 "The pan node scales the two channels by the gains of the pan position in force at each sample: hard left and hard right leave one side and silence the other, the gains are mirror images of each other under negating the position, lie in [0, 1] and move monotonically with the position.",
 ["inputs"],"every pan position and every input sample",
 "tests check three positions with one constant signal",
 ["src/effects/pan/pan_processor.rs","src/effects/pan/pan_node.rs"],[("pan gain computation per sample","src/effects/pan/pan_processor.rs")],OUT)
p("C14","Waveshaper: bounded shaping of every input",
 "The waveshaper maps each sample through its shape on its own (no memory, channels independent): the curve of the shaping function over [-1, 1] read by linear interpolation, its end values beyond, after the overdrive gain (0 to 12 dB), which is reversed afterwards, and mixed with the input as the mix parameter says. The output is finite for every finite input, and that of the hard clip stays within its threshold.",
 ["inputs"],"every input sample (any float) and overdrive/mix setting within the bounds",
 "tests process one sine wave",
 ["src/effects/waveshaper/waveshaper_processor.rs","src/effects/waveshaper/shape.rs"],[("table interpolation","src/effects/waveshaper/waveshaper_processor.rs")],OUT)
p("C15","Oscillator: bounded, continuous, every frequency and block",
 "An oscillator never panics and produces samples within the bounds of its waveform, reading its waveform by linear interpolation (wrapping round at the end) at a phase that starts at zero and advances by frequency / sample rate per sample, modulo one; the same on every channel.",
 ["inputs","histories","configurations"],"every frequency in the accepted range, sample rate and number of samples within the bounds",
 "tests use one frequency for which the phase never hits the end of the table",
 ["src/effects/oscillator/oscillator_processor.rs","src/effects/oscillator/oscillator_node.rs"],[("phase accumulator and table interpolation","src/effects/oscillator/oscillator_processor.rs")],OUT)
p("C16","ADSR: phases, bounds and exact event times",
 "The gain of an ADSR node stays in [0, 1]; it is zero until a note-on and again from the end of a release, rises monotonically to 1 during the attack, falls monotonically to the sustain level during the decay, holds it, and falls monotonically to 0 during the release, taking the configured times. A note-on starts an attack from the level the envelope has then, whatever phase it is in. Note events act at the sample they are scheduled for (to within one sample), in the order of their times, wherever block boundaries fall.",
 ["inputs","histories"],"every attack/decay/release time, sustain level, event time sequence and block partition within the bounds",
 "tests use one fixed set of times and one note",
 ["src/effects/adsr/adsr_envelope.rs","src/effects/adsr/adsr_processor.rs","src/effects/utility/event_processor.rs"],
 [("envelope state machine","src/effects/adsr/adsr_envelope.rs"),("event positions inside a block","src/effects/utility/event_processor.rs")],OUT)
p("C17","Sampler plays the right sample positions",
 "A started sampler plays its sample from the requested position, sample by sample and channel by channel, from the scheduled time (to within one sample; a start in the past is where it would be by now) until it is stopped or the sample ends, and is silent before and after. While a loop of at least one sample is enabled and it is playing, the position goes back by the length of the loop whenever it reaches the loop's end, whenever the loop points were set; an empty loop is no loop, and a loop never makes a sampler play that isn't. Where the position jumps or playing stops, the old position fades out over 50 ms and the new one fades in unless it is the beginning; the last start is always heard and stopping makes it no louder (by more than a step of the fade). Immediate requests come before pending ones at later times; cancelling everything stops it and drops what is pending. No request sequence makes it panic, hang or read outside the sample.",
 ["inputs","histories"],"every sample content, start/stop/loop request sequence and block partition within the bounds",
 "tests cover single requests with round times",
 ["src/effects/sampler/sampler_processor.rs","src/effects/sampler/sampler_voice.rs","src/effects/sampler/sampler_fade.rs","src/effects/utility/event_processor.rs"],
 [("voice/fade bookkeeping","src/effects/sampler/sampler_voice.rs")],OUT)
p("C18","Recorder captures exactly the input between start and stop",
 "The audio a recorder hands back once the recording has stopped is, sample for sample and in order, the audio that entered the node from the process call after the start was asked for to the stop (a stop at a time: to within one sample of it); nothing is lost, duplicated or reordered at block or internal buffer boundaries, and nothing is handed back twice. It says whether it is recording. (The recorder's notifications are taken to be processed before its 32 buffers are used up.)",
 ["inputs","histories"],"every input, block partition and start/stop history within the bounds",
 "the test records one constant block",
 ["src/effects/recorder/recorder_processor.rs","src/effects/recorder/recorder_node.rs"],[("recorded audio is queued to the node in buffers","src/effects/recorder/recorder_processor.rs")],["Recorder::take_recording"])
p("C19","Envelope meter reports every part of the signal",
 "An envelope node reports, for each of its channels and once per notification interval (to within one sample), the highest level that an envelope follower with the configured attack and release reached on that channel since the previous report, computed from every sample, wherever the block boundaries fall. Reports are never NaN or negative, silence reports zero, with no attack time no sample goes unnoticed, and reports nobody collects never block processing.",
 ["inputs","configurations"],"every input, notification frequency and block length within the bounds",
 "the tests use constant signals and blocks that end at the notification boundary",
 ["src/effects/envelope/envelope_processor.rs","src/effects/utility/envelope_follower.rs","src/effects/utility/periodic_notification.rs"],
 [("per-channel followers advanced between notifications","src/effects/envelope/envelope_processor.rs")],["Envelope notifications"])
p("C20","Compressor follows its static curve, never boosts and is finite",
 "The compressor applies one gain to all channels at each sample: the static soft-knee curve of the threshold, ratio and knee, at the level of the channels' envelopes (attack and release followers) averaged over the channels, mixed with the input as wet and dry say; every setting is the one in force at that sample. The fully wet gain never exceeds 1 and is never negative or NaN, and a signal whose level stays below the threshold minus half the knee is not compressed.",
 ["inputs"],"every input level, threshold, ratio, knee and mix in the accepted ranges",
 "tests check a few operating points",
 ["src/effects/compressor/compressor_processor.rs","src/effects/utility/envelope_follower.rs"],[("gain computer","src/effects/compressor/compressor_processor.rs")],OUT)
p("C21","Biquad filters are linear, stable and per channel",
 "A biquad's output on each channel is, at every sample, the second-order recursion of the filter type with the frequency, Q, shelf gain and output gain in force at that sample (the audio EQ cookbook coefficients), applied to that channel's input alone, starting from rest; settings that change keep the filter's history. For every accepted setting with the frequency below half the sample rate the filter is stable, silence gives silence and channels do not influence each other.",
 ["inputs","configurations"],"every parameter setting and input within the bounds",
 "tests measure frequency responses at fixed settings",
 ["src/effects/biquad/biquad_processor.rs","src/effects/biquad/biquad_coefficients.rs"],[("direct form recursion and cookbook coefficients","src/effects/biquad")],OUT)
p("C22","Convolution equals the direct convolution sum",
 "The output of the convolution node is, at every sample and on each channel, the discrete convolution of everything that channel has heard so far with the impulse response of that channel, without latency, times the wet setting of that sample, plus the input times the dry setting, to within floating-point rounding, for every input and however the stream is cut into calls (longer than the maximum frame count included).",
 ["inputs","histories"],"every input and impulse response within the length bounds",
 "tests convolve with a unit impulse and fixed blocks",
 ["src/effects/convolution/convolution_processor.rs"],[("partitioned FFT convolution","src/effects/convolution/convolution_processor.rs")],OUT)
p("C23","Level conversions",
 "Converting a level between decibels and linear gain is monotone, maps 0 dB to unity, never yields NaN or a negative gain for a non-NaN decibel value, treats everything at or below -128 dB as silence and round-trips to within rounding above it.",
 ["inputs"],"every decibel and gain value",
 "tests convert three values approximately",
 ["src/utility/level.rs"],[("power / logarithm with a floor","src/utility/level.rs")],["Level accessors"])
p("C24","Sample rate conversion interpolates between the right samples",
 "Converting part of a buffer to another buffer of any sample rate gives each destination frame i the linear interpolation of the source at position i * source rate / destination rate (the last sample is held beyond the end), to within rounding, on exactly the addressed channels and from the addressed frame on; everything else, and the source, stays as it was. Results lie within the range of the source; at equal rates the conversion copies, and up by a whole factor and down again gives the samples back unchanged.",
 ["inputs","configurations"],"every signal, pair of rates, size and location within the bounds",
 "the tests convert two short signals by factors of two",
 ["src/buffer/audio_buffer.rs"],[("linear interpolation at index * ratio","src/buffer/audio_buffer.rs")],["samples of the destination buffer"])
p("C25","Processing leaves the heap alone and never waits",
 "A process call during which no control operation on the graph, the transport or a parameter arrives neither allocates nor frees memory, and never waits for a lock, a full queue or another thread, whatever node types the graph has, whatever requests nodes are sent and whatever parameter changes, note events and other requests (up to 16 pending per parameter or node) fall due in it.",
 ["histories","inputs"],"every node type, request sequence, event time and block partition within the bounds",
 "the tests look at samples only; an allocation or a wait on the audio thread shows up as a rare drop-out",
 ["src/realtime/processor.rs","src/realtime/dsp_graph.rs","src/parameter/realtime_parameter.rs","src/effects"],
 [("buffers, event queues and channels preallocated; dropped nodes handed to another thread","src/realtime/dsp_graph.rs")],["calls of the global allocator and blocking waits during AudioProcess::process"])
p("C26","The context, the audio process and nodes may outlive each other",
 "Dropping the context, the audio process and nodes in any order, and going on using whatever is left (nodes after the audio process or the context is gone, processing after the context is gone), never panics or blocks; the nodes that are left are processed as before, and dropped ones are no longer heard from the next call on. Notifications reach every node that is left, whatever other nodes have come and gone.",
 ["histories"],"every order of dropping and using within the bounds",
 "the tests drop everything at the end, in one order",
 ["src/engine/root.rs","src/graph/graph_node.rs","src/realtime/dsp_graph.rs","src/realtime/garbage_collector.rs"],
 [("handles hold queues, not the objects; notifiers hold weak references","src/engine/root.rs")],OUT+["notifications of nodes"])
with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
ids=[x["id"] for x in P]; assert len(ids)==len(set(ids))
for x in P: assert len(x["title"])<=80,(x["id"],len(x["title"]))
print(len(P))
