NOTE = ("Exhaustive within the bounds listed per suite in the evidence file, nothing beyond them; every execution is one of the real code "
        "built from /repo; trusted are the reference model, the channel/thread stand-in and the compiler.")
NOT_APPLICABLE = []
ENUM = "stateless model checking of the real code: exhaustive enumeration of {} with a reference model run in lock step"
SCHED = "stateless model checking of the real code: every interleaving of {} up to a preemption bound"

def P(id, title, statement, over, quant, why, files, mech, tech, note, **kw):
    return dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech, tech=tech, note=note, **kw)

PROPS = [
P("C01", "The output is the sum over the connection graph, whatever its shape and order",
  "For every acyclic graph, each block of output is what the node connected to the output produces when every node's input is the sum, over all connections made into it, of the connected source channels added to the connected destination channels (a connection made twice counts twice), plus the system input if the node is the one connected to the system input. Output channels the output node does not have are silent, and a connection only carries the channels that were asked for. The result does not depend on the order in which nodes and connections were made, on the internal order of hash tables, or on the number of nodes.",
  ["configurations", "inputs"], "every acyclic graph of a few nodes with every multiplicity of connections, every input and output endpoint, channel selections, creation and connection orders, hash orders; and long chains, stars and ladders",
  "The tests build a handful of fixed graphs in one creation order; which buffer is reused, and in which order nodes run, depends on the shape, on creation order and on hash iteration order.",
  ["src/realtime/dsp_graph.rs", "src/realtime/topological_sort.rs", "src/realtime/graph.rs", "src/graph/assigned_buffer_pool.rs", "src/buffer/buffer_pool.rs", "src/graph/connect_nodes.rs"],
  [("topological order", "src/realtime/topological_sort.rs"), ("mixing of incoming connections into a node's input", "src/realtime/dsp_graph.rs prepare_input"), ("buffer reuse", "src/graph/assigned_buffer_pool.rs, src/buffer/buffer_pool.rs")],
  ENUM.format("connection graphs, construction orders and hash orders"), "Every small graph in every order is executed and compared sample by sample."),
P("C02", "After any history of graph changes the output is that of the graph then in force",
  "After any sequence of creating and dropping nodes, connecting, disconnecting, and choosing the input and output node, interleaved in any way with processing, every further block of output is what the graph then in force gives. Disconnecting one node from another removes every connection between them in that direction and no other; dropping a node removes it and all of its connections, and nothing else. Nodes that stay keep their playing position and settings across changes made around them.",
  ["histories"], "every sequence of graph operations up to a depth over three and four nodes, processed at any point, from several starting graphs and hash orders",
  "The tests do one change to a fixed graph; stale edges, reused ids, missed re-sorts and leaked buffers only show after particular sequences.",
  ["src/realtime/graph.rs", "src/realtime/dsp_graph.rs", "src/realtime/processor.rs", "src/graph/graph_node.rs", "src/graph/dsp.rs"],
  [("edge and node removal", "src/realtime/graph.rs"), ("re-sort after a change", "src/realtime/dsp_graph.rs mark_graph_needs_sort"), ("removal on drop", "src/graph/graph_node.rs Drop")],
  ENUM.format("operation histories"), "Every short history is executed and compared sample by sample with a graph model."),
P("C03", "How the audio is cut into blocks does not change the output",
  "For a fixed configuration and input, with all calls (timed events and parameter changes included) made before the first block, the output, the recording made and the meter readings delivered are the same however the frames are cut into calls of process() and whatever maximum frame count the engine was made with, up to floating point rounding. This holds for every node and for chains of them, with timed events and changes at power-of-two sample rates (where frame times are exact) and without them at all others.",
  ["inputs", "configurations"], "every composition of a number of frames into blocks, maximum frame counts from 1 up, long blocks at the SIMD boundaries, for each node and a chain of all of them",
  "Tests process one block size; state carried across block boundaries, internal sub-blocks and SIMD tails depend on where the cuts fall.",
  ["src/realtime/processor.rs", "src/graph/dsp.rs", "src/parameter/realtime_parameter.rs", "src/dsp/mod.rs", "src/effects"],
  [("splitting into passes of at most the maximum frame count", "src/realtime/processor.rs"), ("state carried between passes", "src/effects/*/*_processor.rs")],
  ENUM.format("block partitions and maximum frame counts") + " (the whole-block execution being the reference)", "Differential: every partition is compared with the execution in the fewest blocks."),
P("C04", "The clock counts exactly the frames processed while running",
  "The current time starts at zero, never decreases, and after every call of process() equals the number of frames processed while the engine was running divided by the sample rate, to within a microsecond, without drift over long runs. Starting and stopping take effect at the next call of process(); while stopped (and before the first start) the output is silence and time stands still. The sample rate and maximum frame count reported are those asked for.",
  ["histories", "configurations"], "every sequence of start, stop, process and node creation up to a depth, several rates and maximum frame counts; tens of thousands of blocks for drift",
  "Tests start once and process a few blocks; repeated or redundant starts and stops and rounding over long runs are not reached.",
  ["src/realtime/processor.rs", "src/engine/root.rs", "src/utility/timestamp.rs"],
  [("sample position to timestamp", "src/realtime/processor.rs"), ("shared clock", "src/engine/root.rs current_time")],
  ENUM.format("start/stop/process words"), "Every word is executed and the clock compared after each step."),
P("C05", "Calls made while the audio thread runs take effect in order, at block boundaries",
  "When the control thread makes calls while another thread is inside process(), every block of output is what some prefix of the calls, in the order they were made, gives: no call is lost, applied twice, or overtaken by a later one, none takes effect in the middle of a block, and every call made before process() was entered has taken effect in that block. Changes to the graph, changes to parameters, and starting and stopping the engine form one such order; the events of one sampler, ADSR, mixer or recorder form another, of their own, in blocks of at most the maximum frame count. The time read on the control side never goes back and is always that of a block boundary, and the value of a parameter read there is one it has had by then.",
  ["schedules"], "every interleaving, up to a preemption bound, of every short program of control calls with two or three calls of process()",
  "Tests run both sides on one thread, in one order.",
  ["src/realtime/processor.rs", "src/engine/root.rs", "src/commands/command.rs", "src/effects/utility/event_processor.rs"],
  [("command queue drained once per call of process()", "src/realtime/processor.rs"), ("atomic clock", "src/engine/root.rs")],
  SCHED.format("control calls with process()"), "Bounded schedules; sequentially consistent memory."),
P("C06", "Neither side ever blocks on the other",
  "No call of process() and no call on the control side ever waits for the other side: any number of control calls can be made while the audio thread is not processing, and any number of blocks processed while nobody collects recordings or meter readings or destroys removed nodes. Events sent to a sampler beyond the capacity it was made with, before a block has taken them in, are outside this. Under every interleaving of the audio thread, the control thread and the background thread all of them finish, and the background thread ends once the engine has been dropped.",
  ["schedules", "histories"], "hundreds of repetitions of each control call without processing and of blocks without collecting; every interleaving of short programs up to a preemption bound",
  "A bounded channel blocks only once it is full and nobody reads: tests neither fill one nor stop reading.",
  ["src/engine/root.rs", "src/realtime/dsp_graph.rs", "src/realtime/garbage_collector.rs", "src/effects/recorder", "src/effects/envelope", "src/effects/mixer/mixer_node.rs", "src/effects/adsr/adsr_node.rs", "src/effects/sampler/sampler_node.rs"],
  [("unbounded or dropping channels in both directions", "src/effects/*/*_node.rs, src/realtime/dsp_graph.rs")],
  SCHED.format("audio, control and background thread") + ", and exhaustive repetition counts", "A blocking operation, deadlock or lost thread in any explored execution is a violation."),
P("C07", "A parameter follows its automation timeline exactly",
  "At a power-of-two sample rate, where frame times are exact, a parameter has at each frame the value its scheduled changes give there: a set holds from the first frame at or after its time, a linear or exponential ramp runs from the value the parameter has when the ramp begins (at the first frame at or after its start) to its target at its end and reaches the target exactly from the first frame at or after its end, and the value holds otherwise. The order in which changes with different ends were submitted, and how many are pending, does not matter, and a change that arrives after it was due takes effect at once; the value read back on the control side is the one at the last frame processed. At other sample rates the same holds to within one frame.",
  ["inputs", "histories"], "every sequence of a few sets and ramps on a grid of half-frame times, in every submission order, arriving early or late, over block partitions and pass lengths; exponential ramps from or to zero or across zero and overlapping ramps are outside it",
  "Tests schedule one or two changes at whole frames in one block; boundary frames, ties, late arrival and queue capacity are not reached.",
  ["src/parameter/realtime_parameter.rs", "src/parameter/audio_parameter.rs", "src/parameter/parameter_change.rs", "src/graph/dsp_parameters.rs"],
  [("pending and active change", "src/parameter/realtime_parameter.rs"), ("frame times", "src/utility/timestamp.rs")],
  ENUM.format("automation sequences, submission orders and arrival times"), "Every sequence is executed and every frame compared with a timeline model."),
P("C08", "Cancelling removes exactly the scheduled changes it names",
  "Cancelling a parameter's scheduled changes removes all changes submitted before it and still pending, and cancelling those ending after a time removes exactly the pending ones whose end is later than that time; the value already reached is kept. Changes that remain, and those submitted after the cancellation, take effect as if the cancelled ones had never been made. A ramp that is in progress when the cancellation arrives is outside this property.",
  ["histories"], "every sequence of up to three changes and a cancellation, of either kind and once or twice, at every half-frame threshold and several arrival times",
  "One test cancels one change; order relative to other submissions and the boundary of the threshold are not reached.",
  ["src/parameter/realtime_parameter.rs", "src/parameter/audio_parameter.rs", "src/commands/parameter_change_request.rs"],
  [("cancellation of pending changes", "src/parameter/realtime_parameter.rs")],
  ENUM.format("change and cancellation histories"), "Every history is executed and every frame compared with a timeline model."),
P("C09", "A parameter never leaves its documented range",
  "Every parameter of every node has its documented default until changed, and whatever value is asked for, immediately, at a time or as the target of a ramp, the value it takes is that value limited to the parameter's documented range. No frame in between lies outside the range.",
  ["inputs"], "every parameter of every node, each way of changing it, and a grid of values inside, at, and outside the range including infinities",
  "Tests set a few ordinary values of a few parameters.",
  ["src/parameter/audio_parameter.rs", "src/parameter/parameter_range.rs", "src/effects/*/*_node.rs", "src/effects/compressor/compressor_parameters.rs"],
  [("clamping of requested values", "src/parameter/audio_parameter.rs"), ("ranges", "src/effects/*/*_node.rs")],
  ENUM.format("parameters, ways of changing them and values"), "Ranges and defaults are those in the node sources.", observe=["value read back from the parameter"]),
P("C10", "Timed events happen at their time and in order, however they were sent",
  "Sampler, ADSR and recorder events with different times take effect in order of time whatever order they were submitted in, and events with the same time in order of submission. At a power-of-two sample rate, where frame times are exact, an event takes effect at the first frame whose span contains its time, to the frame, wherever block boundaries fall; at other rates it is never late and at most one frame early. An event submitted after its time takes effect at the start of the next block, events in the far future do not disturb earlier ones, and the order is kept for any number of events within a node's capacity.",
  ["histories", "inputs"], "every submission order of up to five events over equal and different times for each of the three nodes; events at every frame of several rates and block sizes",
  "Tests send events in time order, at times away from block boundaries.",
  ["src/effects/utility/event_processor.rs", "src/effects/sampler", "src/effects/adsr", "src/effects/recorder"],
  [("event queue sorted by time, then submission", "src/effects/utility/event_processor.rs")],
  ENUM.format("event sets, submission orders and arrival times"), "Every order is executed and compared with an ordered-queue model."),
P("C11", "A sampler plays exactly the frames asked for, from its start to its stop",
  "From the frame a start takes effect the sampler outputs its sample frame by frame from the requested position until the sample ends or it is stopped; a stop fades the sound out over 50 ms and then silence follows, a start fades out what was playing while the new position plays (faded in over 50 ms unless it is the beginning), and a start at the position just being played changes nothing. A start that arrives late skips what should have been played by then, and cancelling everything stops and drops what was scheduled. At ordinary sample rates the same holds for long samples.",
  ["histories", "inputs"], "every word of starts, stops and cancellations up to a length, with every spacing on a grid, submitted early, on time or late, over pass lengths and rates",
  "Tests start and stop once; overlapping fades, restarts during fades and late events need particular sequences.",
  ["src/effects/sampler/sampler_processor.rs", "src/effects/sampler/sampler_voice.rs", "src/effects/sampler/sampler_fade.rs", "src/effects/sampler/sampler_node.rs"],
  [("two voices with fades", "src/effects/sampler/sampler_voice.rs"), ("event handling", "src/effects/sampler/sampler_processor.rs")],
  ENUM.format("event words and spacings"), "Every word is executed and every frame compared with a two-voice model."),
P("C12", "A looping sampler repeats exactly the frames between its loop points",
  "While a loop is enabled and the sampler plays, on reaching the loop end it continues from the loop start, cross-faded as any start is, for as long as the loop is enabled; cancelling the loop lets it play on to the end of the sample, and changing the loop points takes effect from the current position. Stopping ends it for good, and enabling or cancelling a loop never makes a stopped sampler sound or a playing one lose its position. Enabling a loop after the sample has played to its end, and a start that arrives late beyond the loop end, are outside this property.",
  ["histories", "inputs"], "every word of starts, stops and loop changes up to a length with every spacing on a grid, early, on time or late; long loops at ordinary rates",
  "Tests loop one sample with fixed points; changes while playing, very short loops and stops need particular sequences.",
  ["src/effects/sampler/sampler_processor.rs", "src/effects/sampler/sampler_voice.rs", "src/effects/sampler/sampler_node.rs"],
  [("loop points", "src/effects/sampler/sampler_processor.rs")],
  ENUM.format("event words and spacings"), "Every word is executed and every frame compared with a two-voice model."),
P("C13", "An ADSR envelope follows its phases and settings, frame by frame",
  "A note on starts the attack from the current level, which rises to one in the attack time, then falls to the sustain level in the decay time and stays there; a note off lets it fall from the level it has to zero in the release time and then stay at zero. Segments are exponential, aimed a tenth of full scale beyond their goal and cut off at it, and the durations and sustain level in force are those last set before each frame's block. The output is the input times the level, the same on every channel.",
  ["histories", "inputs"], "every sequence of notes on and off on a grid of gaps, for combinations of zero and non-zero times and levels; settings changed at several moments of a note",
  "Tests run one full note; notes off during attack or decay, retriggers, zero times and live setting changes need particular sequences.",
  ["src/effects/adsr/adsr_envelope.rs", "src/effects/adsr/adsr_processor.rs", "src/effects/adsr/adsr_node.rs"],
  [("phase machine", "src/effects/adsr/adsr_envelope.rs")],
  ENUM.format("note sequences and settings"), "Cases whose phase changes are a matter of rounding are left out."),
P("C14", "A recording contains every frame that went in, once, in order",
  "What the recorder delivers between a start and a stop is exactly the frames that passed through it from the block in which the start took effect to the frame at which the stop did, on every channel, in order, with nothing lost, repeated or inserted, however long the recording, however the blocks are cut, and however rarely it is collected. Recordings made one after another are joined until taken, taking one leaves nothing behind, and the recorder reports that it is recording exactly while it is, as of the last time notifications were processed.",
  ["histories", "inputs"], "every word of start, stop, timed stop, process, collect and take up to a depth; long recordings across internal buffer boundaries and beyond the number of internal buffers",
  "Tests record a few frames once; internal buffer boundaries, repeated recordings and late collection are not reached.",
  ["src/effects/recorder/recorder_processor.rs", "src/effects/recorder/recorder_node.rs", "src/buffer/buffer_pool.rs", "src/buffer/owned_audio_buffer.rs"],
  [("internal buffers", "src/effects/recorder/recorder_processor.rs next_buffer"), ("joining", "src/effects/recorder/recorder_node.rs append_buffer")],
  ENUM.format("recording histories and lengths"), "Every word is executed and the recording compared frame by frame.", observe=["recording taken"]),
P("C15", "The meter reports the peak envelope of each channel at its rate",
  "The envelope node delivers, at the first frame at or after each multiple of its notification interval, one reading per channel in channel order, whose level is the greatest value since the last reading of a one-pole follower of that channel's absolute signal with the given attack and release times. Readings are delivered once, in order, whenever they are collected, up to 64 uncollected ones; when more are uncollected the later ones are dropped.",
  ["inputs", "configurations"], "every word of samples over a small alphabet, attack and release times including zero, notification intervals in fractions of frames, channel counts, block partitions",
  "Tests use a constant signal on one channel and one block.",
  ["src/effects/envelope/envelope_processor.rs", "src/effects/envelope/envelope_node.rs", "src/effects/utility/envelope_follower.rs", "src/effects/utility/periodic_notification.rs"],
  [("follower", "src/effects/utility/envelope_follower.rs"), ("notification clock", "src/effects/utility/periodic_notification.rs")],
  ENUM.format("input words, intervals and block partitions"), "Every word is executed and the readings compared.", observe=["readings delivered"]),
P("C16", "Audio buffer operations touch exactly the samples they name",
  "Copying, mixing with or without gain, filling, clearing, duplicating a channel, moving frames within a buffer, clearing or applying a gain to a range of channels and frames, applying a gain table and reading through or writing through a slice of frames or channels give, for every combination of offsets, lengths, channel counts and alignments, exactly the sample values that the definition on single samples gives, and leave every other sample unchanged. Building a buffer from a slice or another buffer, padding it, joining two, and making a step or a sine give the samples they describe. Converting between sample rates interpolates linearly, holding the last sample.",
  ["inputs"], "every offset, length and channel combination of small buffers, nested slices, and all lengths and offsets around the SIMD block sizes",
  "Tests use whole buffers or one offset; SIMD prefixes and tails depend on length and alignment.",
  ["src/buffer/audio_buffer.rs", "src/buffer/owned_audio_buffer.rs", "src/buffer/borrowed_audio_buffer.rs", "src/buffer/mutable_borrowed_audio_buffer.rs", "src/dsp/mod.rs"],
  [("SIMD kernels", "src/dsp/mod.rs"), ("slices", "src/buffer/*borrowed_audio_buffer.rs")],
  ENUM.format("operation arguments"), "Every combination is executed and the whole buffer compared.", observe=["buffer contents"]),
P("C17", "Interleaving and de-interleaving are inverse and lose nothing",
  "Writing a buffer to an interleaved slice puts sample f of channel c at position f * channels + c, and filling a buffer from an interleaved slice is the inverse, for every channel and frame count asked for. When more or fewer channels or frames are asked for than the buffer has, the ones they have in common are transferred at those same positions and every other sample on the receiving side is left as it was.",
  ["inputs"], "every buffer shape, requested channel count and frame count on a grid, slices longer than needed, owned and sliced buffers",
  "Tests use one shape with matching counts.",
  ["src/buffer/audio_buffer.rs"], [("interleaving loops", "src/buffer/audio_buffer.rs fill_from_interleaved, copy_to_interleaved")],
  ENUM.format("shapes and counts"), "Every combination is executed and both sides compared completely.", observe=["buffer and slice contents"]),
P("C18", "An oscillator's phase is continuous and its waveform exact",
  "An oscillator outputs, at each frame, its wave at a phase that has advanced by frequency divided by sample rate since the frame before (starting from zero before the first frame), linearly interpolated and wrapping around, times its gain, the same on every channel. Frequency changes never make the phase jump, the phase neither drifts over long runs nor depends on block boundaries, and the built-in sine and harmonic waves are the sums of sines they describe.",
  ["inputs", "histories"], "every word of frequencies including extreme and aliased ones over several wave tables, gain changes, block partitions; built-in waves at ordinary rates",
  "Tests render a fixed frequency.",
  ["src/effects/oscillator/oscillator_processor.rs", "src/effects/oscillator/oscillator_node.rs"],
  [("phase accumulator and interpolation", "src/effects/oscillator/oscillator_processor.rs")],
  ENUM.format("frequency histories"), "Every history is executed and every frame compared."),
P("C19", "Convolution is the exact convolution, for every impulse and block length",
  "The convolution node outputs, on each channel, the sum over the impulse response of that channel of each tap times the input that many frames earlier, times the wet level, plus the input times the dry level. This holds whatever the impulse length (including shorter or longer than a block, one tap, and lengths that are not powers of two), the block lengths, and the channel count, from the first frame to the last tap of the tail.",
  ["inputs", "configurations"], "every short impulse and input over small alphabets, block partitions and maximum frame counts; impulse lengths around powers of two and beyond the block length",
  "Tests use a few impulses with a fixed block length; partition boundaries and overlap depend on the lengths.",
  ["src/effects/convolution/convolution_processor.rs", "src/effects/convolution/convolution_node.rs"],
  [("partitioned convolution", "src/effects/convolution/convolution_processor.rs")],
  ENUM.format("impulses, inputs and block partitions"), "Compared with direct convolution within 1e-4 relative."),
P("C20", "A biquad follows its difference equation for the settings in force",
  "A biquad outputs, on each channel separately, the second-order difference equation whose coefficients are those of its filter type, frequency, Q and shelf gain, times its gain. A change of a setting takes effect from the frame it is due and leaves the filter's memory intact, and the result does not depend on block boundaries.",
  ["inputs", "histories"], "every filter type and corner of the settings, every short input word, every combination of setting changes at three moments, block partitions, ordinary rates",
  "Tests measure the response of a few settings to sines.",
  ["src/effects/biquad/biquad_processor.rs", "src/effects/biquad/biquad_coefficients.rs", "src/effects/biquad/biquad_node.rs"],
  [("state per channel", "src/effects/biquad/biquad_processor.rs"), ("coefficients", "src/effects/biquad/biquad_coefficients.rs")],
  ENUM.format("settings, inputs and changes"), "Compared with a double-precision difference equation."),
P("C21", "A compressor follows its static curve, knee, and attack and release",
  "The compressor multiplies all channels by one gain, computed per frame from the mean over the channels of one-pole followers of their absolute signals with the attack and release times in force: no reduction below the threshold less half the knee, a reduction of (1 - 1/ratio) times the excess in dB above the threshold plus half the knee, and the quadratic joining them in between. The output is that times the wet level plus the input times the dry level, for every setting in range and every moment at which settings change.",
  ["inputs", "configurations"], "a grid of levels, thresholds, ratios and knees including the exact boundaries; every word of samples with attack and release changes; channel counts and mixes",
  "Tests check one or two points of the curve.",
  ["src/effects/compressor/compressor_processor.rs", "src/effects/compressor/compressor_node.rs", "src/effects/utility/envelope_follower.rs"],
  [("gain computer", "src/effects/compressor/compressor_processor.rs calculate_gain_reduction")],
  ENUM.format("levels, settings and input words"), "Compared with a double-precision model within a small relative error."),
P("C22", "A waveshaper applies its transfer function, overdrive and mix to every sample",
  "The waveshaper outputs mix times the shaped signal plus one minus mix times the input, where the shaped signal is the transfer function of the input raised by the overdrive gain (0 dB at 0 to its maximum at 1), lowered again by it. The function is sampled at 511 points on [-1, 1] with linear interpolation between them, inputs beyond that take the end values, and it is applied to each channel, frame by frame, with the overdrive and mix of that frame.",
  ["inputs", "histories"], "several transfer functions, every short word of samples in and out of range, overdrive and mix values and changes at three moments, channels and block partitions, a sweep of 2001 sample values",
  "Tests shape a sine with one function.",
  ["src/effects/waveshaper/waveshaper_processor.rs", "src/effects/waveshaper/shape.rs", "src/effects/waveshaper/waveshaper_node.rs"],
  [("table lookup", "src/effects/waveshaper/shape.rs"), ("overdrive and mix", "src/effects/waveshaper/waveshaper_processor.rs")],
  ENUM.format("input words, settings and changes"), "Compared with a reference implementation of the sampled transfer function."),
P("C23", "Gain, pan and mixer scale and route every sample exactly",
  "Gain multiplies every sample of every channel by the gain at its frame; pan, at position p between -1 and 1 at each frame, multiplies the left channel of a stereo input by the lesser of 1 and 1 - p and the right one by the lesser of 1 and 1 + p; the mixer outputs on each channel the sum of its inputs times the levels of its matrix, changes of a level taking effect from the next block on. This holds for any values, any block length (including ones that are not multiples of the SIMD width) and any channel count.",
  ["inputs", "configurations"], "every word of gains and pans, every block length up to 80, every small mixer matrix and shape up to 8 by 8, the ready-made mixers",
  "Tests use constant settings and one block length.",
  ["src/effects/gain/gain_processor.rs", "src/effects/pan/pan_processor.rs", "src/effects/mixer", "src/dsp/mod.rs", "src/buffer/audio_buffer.rs"],
  [("gain tables", "src/buffer/audio_buffer.rs apply_gain"), ("matrix", "src/effects/mixer/mixer_matrix.rs")],
  ENUM.format("settings, shapes and block lengths"), "Every combination is executed and compared sample by sample."),
P("C24", "Timestamps convert and add up without losing time",
  "Converting a time from seconds, samples, beats or a duration to a timestamp and back gives the same value to within a nanosecond, order is preserved, and adding and subtracting timestamps, or incrementing by samples, seconds or beats, is the same as converting the sum, to within a nanosecond. Whole multiples of a power-of-two fraction of a second are exact, and all of this holds for negative times and times up to many days.",
  ["inputs"], "grids of values, rates and tempos over the whole range, and every pair of a smaller grid",
  "Tests convert one or two values.",
  ["src/utility/timestamp.rs"], [("fixed-point seconds", "src/utility/timestamp.rs")],
  ENUM.format("values, rates and tempos"), "Compared with exact rational arithmetic.", observe=["values returned"], hook=None),
P("C25", "Meters and recorders deliver as long as they live, whatever others do",
  "Each time notifications are processed, every meter and every recorder that exists delivers exactly what has come in from its own audio side since the last time: a meter calls its handler once per reading, in order, with none lost or repeated as long as no more than 64 of them wait, and a recorder adds the audio recorded and updates whether it is recording. Meters and recorders that have been dropped deliver nothing more and are forgotten, without affecting the delivery of any other, whenever and in whatever order they were created, fed, polled and dropped.",
  ["histories"], "every order of creating and dropping several meters and recorders, with processing and collecting at any point in between",
  "Tests have one meter or one recorder, which is never dropped while others go on.",
  ["src/engine/root.rs", "src/effects/envelope/envelope_node.rs", "src/effects/recorder/recorder_node.rs"],
  [("notifier list", "src/engine/root.rs process_notifications")],
  ENUM.format("lifetimes of meters and recorders"), "Every history is executed and the deliveries compared.", observe=["readings and recordings delivered"]),
P("C26", "A removed node is destroyed exactly once, and never on the audio thread",
  "Everything a node is made with is destroyed exactly once after the node is dropped (or the engine is), and after it has been dropped never inside a call of process(): removed nodes are handed to the background thread, in every interleaving of the threads, and nothing is destroyed while the audio thread may still use it. After the engine and its nodes have been dropped and the background thread has ended nothing is left.",
  ["schedules", "histories"], "every short history of creating, connecting, dropping and processing, and every interleaving of dropping, processing and the background thread up to a preemption bound, watched by an instrumented allocator",
  "Tests cannot see which thread frees memory, nor leaks.",
  ["src/realtime/garbage_collector.rs", "src/realtime/dsp_graph.rs", "src/realtime/graph.rs", "src/graph/graph_node.rs"],
  [("hand-over to the background thread", "src/realtime/dsp_graph.rs remove_dsp")],
  SCHED.format("control, audio and background thread") + ", and exhaustive histories, with an allocator that records the freeing thread", "Follows every block of memory allocated while the node is made.", observe=["allocator"]),
P("C27", "Nodes, channels and engines do not affect one another",
  "What one node outputs, and the values its parameters take, is unaffected by what is done to any other node it is not connected to, of the same or another kind, in the same or another engine, whatever the order of creation and of calls; and within a node each channel is unaffected by the signals on the others, except where the node is there to combine them (pan, mixer, and the compressor's shared gain).",
  ["histories", "inputs"], "every ordered pair of node kinds with every interleaving of their event scripts in one engine and in two, compared with each alone; every channel excited alone against all channels together for each node",
  "Tests have one node at a time.",
  ["src/commands/id.rs", "src/realtime/dsp_graph.rs", "src/graph/dsp_parameters.rs", "src/parameter/parameters.rs", "src/effects"],
  [("addressing by id", "src/commands/id.rs"), ("state per node and channel", "src/effects/*/*_processor.rs")],
  ENUM.format("pairs of nodes and interleavings of their scripts") + " (each node alone being the reference)", "Differential: together against alone, bit for bit."),
P("C28", "The same calls give the same output, bit for bit",
  "Two engines given the same calls and the same input produce identical output, bit for bit, whatever the process-wide history before them (nodes created and dropped earlier, in any engine), and whatever internal hash order is in force.",
  ["configurations", "histories"], "each of a set of scenarios under every hash order offered, after every one of several process histories",
  "A test runs once, in whatever order hashing happens to give.",
  ["src/realtime/graph.rs", "src/realtime/topological_sort.rs", "src/graph/assigned_buffer_pool.rs", "src/commands/id.rs"],
  [("hash tables in the graph", "src/realtime/graph.rs"), ("global id counter", "src/commands/id.rs")],
  ENUM.format("hash orders and prior histories"), "Differential, bit for bit."),
P("C29", "No settings within range make the engine panic or output non-numbers",
  "For every node, every combination of finite parameter values within their documented ranges (and a biquad's frequency below half the sample rate), and every input from silence and denormal samples to 120 dB above full scale, processing never panics and the output is finite at every frame; with silent input, nodes that are not sources output silence once their tails have ended. This holds for every block length from one frame up to several times the maximum, and for mono and many channels.",
  ["inputs", "configurations"], "the full grid of extreme and ordinary values of all parameters of each node together, special input samples, block lengths and channel counts",
  "Tests use ordinary values; divisions by zero, logarithms of zero and index overruns sit at the corners of the ranges.",
  ["src/effects", "src/dsp/mod.rs", "src/utility/level.rs", "src/realtime/processor.rs"],
  [("guards at the range limits", "src/effects/*/*_processor.rs, src/utility/level.rs")],
  ENUM.format("parameter corners and special inputs"), "Panics (with debug assertions and overflow checks on) and non-finite samples are violations."),
P("C30", "Levels convert between gain and decibels consistently",
  "A level of -128 dB or more, or zero, made from a gain or from decibels, gives the same back in either unit, decibels being twenty times the decimal logarithm of the gain and zero gain (or anything at or below the floor of -128 dB) being silence; order and equality are those of the gains, and limiting a level to a range, asking whether it is silence or unity, and the named levels agree with that.",
  ["inputs"], "grids of gains and decibels over the whole range and beyond, and every pair and triple of a smaller grid",
  "Tests convert one or two values.",
  ["src/utility/level.rs"], [("conversions", "src/utility/level.rs")],
  ENUM.format("levels, pairs and ranges"), "Compared with double-precision arithmetic.", observe=["values returned"], hook=None),
P("C31", "The same calls made later give the same audio later",
  "Making the same nodes and the same calls at any later time, with all the times in them later by as much, gives the same output, recording and readings, as much later, up to floating point rounding - after a frame, after any number of blocks, and after days. It makes no difference whether nodes were made just then or had been waiting in silence (except an oscillator, whose phase runs on, and a meter, whose readings do), nor how far ahead timed calls were made. This is for the power-of-two sample rates, where frame times are exact.",
  ["histories", "inputs"], "each node and chains of them, with timed changes or without; after every number of frames up to a bound, after and around powers of two, and after more than 2^32 frames; made, called or scheduled before or then",
  "Tests start at time zero; counters that wrap, times that lose precision, and state that drifts in silence only show later.",
  ["src/realtime/processor.rs", "src/utility/timestamp.rs", "src/parameter/realtime_parameter.rs", "src/effects/utility/event_processor.rs", "src/graph/dsp.rs"],
  [("position and time of a block", "src/realtime/processor.rs"), ("offset of an event in a block", "src/effects/utility/event_processor.rs")],
  ENUM.format("starting times, scenes and block lengths") + " (the scene from the first frame on being the reference)", "Differential: every scene is compared with the same scene from the first frame on.", observe=["engine output", "recordings", "readings", "parameter values"]),
P("C32", "A pause changes nothing but the time it takes",
  "Stopping the engine and starting it again later, at any block boundaries and any number of times, with any number of blocks of any input processed while stopped, gives the output, recordings and readings of the same calls without the pause, with silence in between. Calls made during a pause act as if made when it ends; an engine not started yet is one that is paused.",
  ["histories"], "every word of blocks, stops, starts, calls and removals up to a depth for each node alone, amid others and in a row",
  "Tests start the engine once and never stop it.",
  ["src/realtime/processor.rs", "src/engine/root.rs", "src/realtime/dsp_graph.rs"],
  [("start and stop", "src/realtime/processor.rs")],
  ENUM.format("words of calls, stops and starts") + " (the word without its pauses being the reference)", "Differential: every word is compared with the word without its pauses.", observe=["engine output", "recordings", "readings", "parameter values"]),
P("C33", "What is linear is linear at every level",
  "Gain, pan, mixer, convolution, biquad and ADSR, alone or in a row, are linear for fixed calls: the output for the sum of two inputs is the sum of the outputs, and the output for an input made louder or quieter by any factor, or inverted, is the output made so by the same factor, as exactly for the quietest signal as for the loudest, whichever of the inputs' channels and frames are silent.",
  ["inputs"], "all pairs of inputs over a set of shapes per channel; factors over 90 powers of two and both signs; timed changes or settings, rates and block partitions",
  "Tests feed full-scale noise; shortcuts for silence, thresholds against small numbers and clipping show only at other levels or with silent channels.",
  ["src/effects/biquad/biquad_processor.rs", "src/effects/convolution/convolution_processor.rs", "src/effects/gain/gain_processor.rs", "src/effects/pan/pan_processor.rs", "src/effects/mixer/mixer_processor.rs", "src/effects/adsr/adsr_processor.rs", "src/buffer/audio_buffer.rs"],
  [("clearing of small history", "src/effects/biquad/biquad_processor.rs denormal"), ("shortcuts for gains and silence", "src/buffer/audio_buffer.rs, src/effects/mixer/mixer_processor.rs")],
  ENUM.format("pairs of inputs and factors") + " (sums and multiples of other executions being the reference)", "Metamorphic: executions are compared with sums and multiples of others."),
P("C34", "Memory follows what there is, not how long the engine has run",
  "However long an engine runs, the memory in use is that of the nodes, edges, scheduled changes and uncollected recordings and readings there are: a sequence of calls that ends with as many of these as it began with - nodes made have been dropped, edges disconnected, what was scheduled is over, what was recorded has been taken - can be repeated for ever without the memory in use growing, once the audio process has run, notifications have been processed and the background thread has done its work. Engines that are dropped leave nothing behind.",
  ["histories"], "every word of calls, makings, drops, edges, blocks, collections, stops and starts up to a depth for each kind of node, as a cycle repeated until memory stays; crowds of nodes and whole engines that come and go",
  "Tests end after a few calls and count no memory; a list from which something is not taken off only shows in a long run.",
  ["src/engine/root.rs", "src/realtime/dsp_graph.rs", "src/realtime/graph.rs", "src/realtime/processor.rs", "src/realtime/garbage_collector.rs", "src/parameter/realtime_parameter.rs", "src/effects/sampler/sampler_processor.rs", "src/effects/adsr", "src/effects/recorder", "src/effects/envelope"],
  [("lists of nodes, edges, parameters and notifiers", "src/realtime/dsp_graph.rs, src/realtime/graph.rs, src/engine/root.rs"), ("lists of pending changes and events", "src/parameter/realtime_parameter.rs, src/effects/sampler/sampler_processor.rs")],
  ENUM.format("cycles of calls") + " (the bytes allocated and not freed, counted by the checker's allocator, being what is compared)", "Every word is executed as a cycle, 17 times, then as often again and, if memory rose, twice, four and eight times as often: it must have stopped rising. The threads are run by the explorer, so that the background thread has done its work at the end of each cycle.", observe=["bytes allocated by the engine and not freed"]),P("C35", "The audio side neither takes memory nor gives any back",
  "Within what the engine makes room for when nodes are created (400 nodes and edges, 16 pending changes of each parameter, 16 pending events of each sampler and recorder, 64 of each ADSR, 32 stretches of 4096 frames for each recorder), processing a block allocates no memory and frees none, whatever calls it takes in - nodes and edges made and removed, changes and events scheduled and cancelled, recordings started and stopped - and whatever nodes, arrangement, block length and numbers of channels it is called with, before the engine is started, while it runs and when it is stopped again.",
  ["histories", "configurations"], "every word of calls, makings, drops, edges, stops and blocks up to a depth for each kind of node; every arrangement, block length and shape; as many of everything as there is room for",
  "Tests do not count memory operations; one in a rare path (a list that grows, something dropped on the wrong side, a working buffer) shows only as an occasional glitch on a loaded machine.",
  ["src/realtime/processor.rs", "src/realtime/dsp_graph.rs", "src/realtime/graph.rs", "src/realtime/topological_sort.rs", "src/buffer/buffer_pool.rs", "src/graph/assigned_buffer_pool.rs", "src/parameter/realtime_parameter.rs", "src/effects/utility/event_processor.rs", "src/effects"],
  [("pools and lists with room set aside", "src/realtime/dsp_graph.rs MAXIMUM_*, src/parameter/realtime_parameter.rs MAXIMUM_PENDING_PARAMETER_CHANGES, src/effects MAX_PENDING_EVENTS"), ("nodes handed to another thread to be dropped", "src/realtime/garbage_collector.rs")],
  ENUM.format("words of calls, arrangements, shapes of blocks and amounts") + " (the memory operations of the audio side, counted by the checker's allocator, being what is monitored)", "Every process() call of every history is monitored; messages in channels are not counted.", observe=["memory operations inside process()"]),
]
