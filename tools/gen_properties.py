#!/usr/bin/env python3
"""Writes /verif/properties.jsonl. Edit here, run, commit both."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

p("C01", "Sample-by-sample and block rendering agree for any block partition",
  "Rendering a node, graph, network or sequence one sample at a time and rendering it in blocks gives the same signal, however the duration is cut into blocks of 1 to 64 samples and however the two modes are mixed. No output sample depends on the block sizes, on what the output buffer held before, or on buffer contents beyond the requested size.",
  ["programs", "inputs", "schedules"], "every unit in the opcode catalogue with any parameters, every composite graph built from them, every input signal, every sequence of block sizes and sample/block mode choices",
  "The suite renders a fixed list of graphs in one fixed random partition each; it never varies parameters, tail sizes, dirty buffers or mode switches.",
  ["src/audionode.rs", "src/audiounit.rs", "src/biquad.rs", "src/delay.rs", "src/dynamics.rs", "src/envelope.rs", "src/filter.rs", "src/fir.rs", "src/granular.rs", "src/noise.rs", "src/oscillator.rs", "src/oversample.rs", "src/pan.rs", "src/resample.rs", "src/resynth.rs", "src/shape.rs", "src/svf.rs", "src/wave.rs", "src/wavetable.rs", "src/biquad_bank.rs", "src/net.rs", "src/sequencer.rs"],
  [("SIMD block path and scalar remainder of each node", "every AudioNode::process next to its AudioNode::tick"), ("channel/sample loops of composite nodes", "src/audionode.rs")],
  ["AudioUnit::tick and AudioUnit::process outputs"])

p("C02", "Reset replays identically and clones are independent equals",
  "After a reset, a unit fed the same input renders exactly what it rendered from the start, whatever it processed before the reset. A copy made at any moment continues with exactly the signal the original continues with, and neither disturbs the other.",
  ["programs", "inputs", "histories"], "every unit and composite graph, every history of processing before the reset or copy, every continuation input",
  "The suite compares two consecutive renders of a few fixed graphs; it never resets in the middle of arbitrary histories nor checks copies.",
  ["src/audionode.rs", "src/audiounit.rs", "src/dynamics.rs", "src/reverb.rs", "src/delay.rs", "src/granular.rs", "src/net.rs", "src/sequencer.rs", "src/noise.rs", "src/oscillator.rs", "src/wavetable.rs", "src/resample.rs", "src/oversample.rs"],
  [("per-node reset", "every AudioNode::reset"), ("Clone of node state", "derive(Clone) and manual Clone impls")],
  ["AudioUnit::reset, clone, then tick/process"])

p("C03", "Graph operators combine signals exactly as documented",
  "A graph expression built from the operators for sum, difference, product, constant arithmetic, negation, pass-through, bus, branch, stack and pipe, and from their multi-component forms and channel utilities (split, join, reverse, sink, monitor), computes on every sample exactly the documented combination of its components' outputs, with inputs and outputs in the documented channel order. Its input and output counts are the documented ones.",
  ["programs", "inputs"], "every expression tree over the operators with any component arities the documentation allows, every input signal",
  "Doc tests only construct expressions; the suite samples a few arithmetic identities on constant graphs.",
  ["src/combinator.rs", "src/audionode.rs", "src/prelude.rs", "src/hacker.rs"],
  [("operator overloads", "src/combinator.rs"), ("composite nodes Pipe/Stack/Branch/Bus/Thru/Binop/Unop/Multi*/Reduce/Chain", "src/audionode.rs")],
  ["outputs of tick and process of the composed graph"])

p("C04", "A dynamic network always computes the graph its edits describe",
  "After any sequence of network edits (adding, removing, replacing units, connecting, disconnecting, chaining, piping, passing inputs through), the network renders exactly the composition of its current units over its current connections, with unconnected ports silent and unit state kept across edits that do not remove the unit. Queries about the network (which unit feeds a port, how many units and ports there are, whether a unit is present) agree with that same graph.",
  ["histories", "inputs", "programs"], "every finite sequence of edit calls on valid ports, interleaved with rendering and queries, and every input signal",
  "The suite builds some networks and checks a few structural facts; no history longer than a handful of edits is compared with a model.",
  ["src/net.rs", "src/vertex.rs"],
  [("edge storage per destination port", "src/net.rs Net::connect/set_source/remove/..."), ("topological ordering", "src/net.rs Net::determine_order"), ("vertex buffers", "src/vertex.rs")],
  ["Net::tick/process output, Net::source, Net::contains, Net::size, Net::inputs_in/outputs_in"])

p("C05", "Network expressions equal the same inline graph expressions",
  "Combining networks with the graph operators gives a network that renders the same signal, with the same input and output counts, as the inline graph built with the same operators from the same units. This includes the constant-arithmetic operators and the convenience wrapping of units into networks.",
  ["programs", "inputs"], "every operator expression over arbitrary subgraphs, every input signal",
  "The suite compares a few hand-picked pairs.",
  ["src/net.rs", "src/combinator.rs"],
  [("Net operator implementations: pipe_op, stack_op, branch_op, bus_op, sum_op, product_op, thru_op, binary_op, unary_op", "src/net.rs")],
  ["Net::tick/process vs inline graph"])

p("C06", "A network reports a cycle exactly when its connections form one",
  "After any sequence of edits, a network reports an error when and only when its current connections contain a directed cycle, and the report clears once edits remove the cycle. Removing units, with or without linking their inputs to their outputs, never leaves dangling or self connections behind, and once the cycle is gone the network renders correctly again.",
  ["histories", "programs"], "every sequence of edit calls, including ones that create and later break cycles",
  "The suite builds one or two cyclic networks.",
  ["src/net.rs"],
  [("propagation ordering", "src/net.rs Net::determine_order"), ("error flag", "src/net.rs Net::error")],
  ["Net::error, Net::can_connect-like queries, Net::tick after repair"])

p("C07", "Committed network edits reach the audio thread intact under any schedule",
  "Whatever the order in which the editing side makes edits and commits and the rendering side renders, the rendering side always plays exactly one committed version: the latest one published before the block started, with the state of surviving units carried over as if the edits had been made in place. Edits that have not been committed are never heard, and no commit is lost or heard out of order.",
  ["schedules", "histories"], "every interleaving of edits, commits, settings and rendering blocks between the editing and rendering sides",
  "The suite performs one or two commits in a fixed order.",
  ["src/net.rs", "src/realnet.rs", "src/vertex.rs"],
  [("commit queue and migration of unit state", "src/realnet.rs NetBackend::handle_messages, src/net.rs Net::migrate")],
  ["NetBackend::tick/process output"])

p("C08", "Replacing a playing unit crossfades smoothly and ends on the replacement",
  "Replacing a unit in place fades from the old unit's signal to the new one's over the requested time with gains that follow the chosen fade shape, and from then on only the new unit is heard. Repeated replacement requests end on the most recently requested unit, and fading in a unit scales only that unit's contribution.",
  ["histories", "schedules", "inputs"], "every sequence of replacement requests at any times during rendering, all fade shapes and durations, in slots and in network units",
  "The suite does not exercise overlapping replacements nor compare fade gains with the requested curve.",
  ["src/slot.rs", "src/vertex.rs", "src/net.rs", "src/realnet.rs"],
  [("slot message queue and fade phase", "src/slot.rs"), ("vertex crossfade", "src/vertex.rs")],
  ["Slot backend output; Net::crossfade, Net::fade_in output"])

p("C09", "The sequencer plays the sum of its events at sample accuracy",
  "At every sample the sequencer outputs exactly the sum, over events whose time span covers that sample, of the event unit's signal counted from the event's first sample, scaled by the event's fade-in and fade-out curves. This holds for any mixture of absolute, relative and edited events pushed before or during playback, and after a reset when events are retained for replay.",
  ["histories", "inputs", "schedules"], "every set of events (times, fades, shapes), every interleaving of pushes, edits, rendering in any block sizes, and resets, in replay and non-replay mode",
  "The suite plays a couple of fixed event lists.",
  ["src/sequencer.rs"],
  [("ready/active/past queues and start ordering", "src/sequencer.rs"), ("per-block event window and fades", "src/sequencer.rs fade_in/fade_out")],
  ["Sequencer::tick/process output, Sequencer::time"])

p("C10", "A split sequencer behaves like a whole one under any schedule",
  "A sequencer whose events are pushed and edited from the editing side while the rendering side plays gives the same signal as pushing the same events directly at the moments the rendering side picks them up, for any interleaving. No event is lost, duplicated or reordered in effect, and resets take effect in the order they were issued relative to pushes and edits.",
  ["schedules", "histories"], "every interleaving of pushes, edits, resets and rendering between the two sides",
  "The suite uses the split form once in a fixed order.",
  ["src/sequencer.rs", "src/realseq.rs"],
  [("message queue and handling", "src/realseq.rs"), ("pass-through of finished events", "src/sequencer.rs")],
  ["SequencerBackend::tick/process output"])

p("C11", "Analytic frequency response equals the measured response",
  "For every linear time-invariant graph, the frequency response the library reports at any frequency equals the Fourier transform of the graph's actual impulse response, in magnitude and phase, at any sample rate; a filter whose parameters are inputs reports the response at the parameters it saw last. The printed summary of a unit plots these responses. When part of the path is not analyzable the library reports no response rather than a wrong one.",
  ["programs", "inputs", "configurations"], "every linear filter with any parameters in its stable range, every composition of them with any operator, every frequency below Nyquist, every sample rate",
  "The suite checks fixed filters with fixed parameters at a few frequencies; composites through multi-forms, feedback-free networks and non-default sample rates are not reached.",
  ["src/signal.rs", "src/audionode.rs", "src/audiounit.rs", "src/filter.rs", "src/svf.rs", "src/biquad.rs", "src/fir.rs", "src/delay.rs", "src/net.rs", "src/biquad_bank.rs"],
  [("signal-flow analysis", "every AudioNode::route, src/signal.rs")],
  ["AudioUnit::response vs rendered impulse"])

p("C12", "Reported latency equals the causal delay of the signal path",
  "The latency the library reports for a graph is the smallest number of samples by which any of its latency-introducing components delays the input on its way to an output, accumulated along paths and minimized over alternatives, and is absent when no output depends on an input or generator. (Voluntary delays and filter parameters do not count.) Latency-compensated rendering and filtering remove exactly that delay.",
  ["programs", "configurations"], "every composition of delaying and non-delaying components with any operator, at any sample rate",
  "The suite checks a few constants.",
  ["src/signal.rs", "src/audiounit.rs", "src/audionode.rs", "src/wave.rs"],
  [("latency propagation", "src/signal.rs, every AudioNode::route"), ("latency compensation", "src/wave.rs Wave::render_latency/filter_latency")],
  ["AudioUnit::latency, Wave::render_latency, Wave::filter_latency"])

p("C13", "A setting reaches exactly the node its address names",
  "A parameter setting addressed through any nesting of operators or to a network unit changes exactly the addressed component, from the next sample on, to the state it would have if constructed with that parameter (with its signal state kept). Settings sent through a listener's sender arrive exactly once and in order, and a setting with no matching component changes nothing. Components reached through a composite's accessors, or set by their own setter methods, change in the same way.",
  ["programs", "histories", "schedules", "inputs"], "every address path through composite graphs and networks, every parameter kind and value, every interleaving of sends with rendering",
  "Doc tests construct settings without checking their effect.",
  ["src/setting.rs", "src/audionode.rs", "src/net.rs", "src/realnet.rs", "src/svf.rs", "src/filter.rs", "src/biquad.rs", "src/oscillator.rs"],
  [("address shifting", "src/setting.rs Setting::peel, direction"), ("per-node set", "every AudioNode::set"), ("listener queue", "src/setting.rs SettingListener/SettingSender")],
  ["output after AudioUnit::set / SettingSender::try_send"])

p("C14", "Wave editing behaves as operations on plain channel arrays",
  "Any sequence of wave editing operations (setting and mixing samples, resizing, pushing and removing channels, appending, retaining spans, mixing in other waves, fading, normalizing, copying) leaves the wave's contents, length, duration and amplitude equal to the same operations on plain per-channel sample arrays. Spans that lie partly or wholly outside the wave are handled as documented without failure.",
  ["histories", "inputs"], "every finite sequence of editing calls with any arguments in or out of range",
  "The suite touches a few operations once.",
  ["src/wave.rs"], [("channel vectors kept at equal length", "src/wave.rs")], ["Wave accessors"])

p("C15", "Saving and loading a wave is lossless up to the stored format",
  "Writing a wave as 32-bit float and reading it back gives exactly the same sample rate, channels and samples; writing as 16-bit gives each sample clamped to the valid range and rounded within one quantization step; the file structure is a valid wave file. If the output medium fails at any point, saving reports an error instead of success.",
  ["inputs", "fault_sequences"], "every wave (channel count, length, rate, sample values including out of range), every failure point of the output medium",
  "Nothing in the suite writes or reads files.",
  ["src/write.rs", "src/read.rs", "src/wave.rs"], [("header and sample writers", "src/write.rs"), ("decoder front end", "src/read.rs")], ["Wave::write_wav16/32, save_*, load*"])

p("C16", "Delay lines return the input delayed by exactly the requested time",
  "A fixed delay, single-sample delay, FIR or sample-delay network returns its input delayed and weighted exactly as specified at any sample rate. A variable tap returns, for every delay within its limits (clamped otherwise), the interpolated past input at that delay, never a newer or overwritten sample, whatever the block sizes. The voices of a chorus are such delays, each within its stated span.",
  ["inputs", "configurations", "schedules"], "every delay time or range, sample rate, input signal and delay-control signal",
  "The suite compares the two rendering modes for a few constant delays only.",
  ["src/delay.rs", "src/fir.rs", "src/feedback.rs"], [("circular buffers sized from the maximum delay", "src/delay.rs"), ("fir taps", "src/fir.rs")], ["outputs vs direct-form reference"])

p("C17", "The limiter never lets a peak exceed its ceiling",
  "Limiter output never exceeds full scale (beyond a small stated tolerance) for any input, delays the signal by exactly its look-ahead and applies the same gain to all channels. A signal that stays within range is delayed but never amplified; the gain moves gradually over the attack and release times and returns to unity after a peak.",
  ["inputs", "histories"], "every finite input signal, attack and release time, sample rate, channel count, and reset history",
  "The suite checks one noise signal.",
  ["src/dynamics.rs"], [("look-ahead maximum tree", "src/dynamics.rs ReduceBuffer"), ("gain follower", "src/dynamics.rs Limiter::tick")], ["Limiter output"])

p("C18", "Followers and smoothers stay in range and meet their response times",
  "The output of a parameter follower always lies within the range spanned by its inputs so far, approaches a constant target monotonically, and covers half the remaining distance in the stated response time; the attack and release variants use the respective times for rising and falling input. Fade-in smoothing and DC removal behave as documented.",
  ["inputs", "configurations"], "every input signal, response time and sample rate",
  "Tests check one or two fixed response times.",
  ["src/follow.rs", "src/dynamics.rs", "src/filter.rs"], [("three-pole follower coefficient solve", "src/follow.rs"), ("declick curve", "src/filter.rs or src/dynamics.rs")], ["follow/afollow/declick/dcblock outputs"])

p("C19", "Rendering is real-time safe: no allocation after preparation",
  "Once a unit has been prepared for rendering (sample rate set and memory allocated), rendering it in any mode and block size never allocates or frees memory. This includes the rendering sides of networks, sequencers, slots and listeners while they receive updates, and units whose internal buffers depend on the sample rate. (By design, granular synthesis creates grains while rendering, and a non-replaying sequencer that is rendered directly instead of through its backend discards played events.)",
  ["programs", "schedules", "inputs"], "every unit and composite graph at every sample rate, every schedule of updates",
  "The suite never counts allocations.",
  ["src/audiounit.rs", "src/audionode.rs", "src/dynamics.rs", "src/net.rs", "src/realnet.rs", "src/realseq.rs", "src/slot.rs", "src/granular.rs", "src/resynth.rs", "src/sequencer.rs"],
  [("allocate", "every AudioNode::allocate"), ("return queues that send retired objects back", "src/realnet.rs, src/realseq.rs, src/slot.rs")],
  ["a counting global allocator around tick/process"])

p("C20", "Waveshapers follow their transfer curves and stay in bounds",
  "Every memoryless waveshaper computes its documented transfer curve identically for single samples and blocks: bounded shapers never exceed their bounds, odd curves are odd, monotone curves are monotone, and crushing yields only the allowed levels. Adaptive shaping keeps a bounded, finite output for any finite input.",
  ["inputs", "configurations"], "every shape, hardness and finite input value",
  "A few modes are rendered once.",
  ["src/shape.rs"], [("scalar and SIMD shape functions", "src/shape.rs")], ["Shaper outputs"])

p("C21", "Mathematical helpers satisfy their documented laws for all arguments",
  "Every public math helper satisfies its documented definition for all arguments: inverse pairs invert each other, interpolations and easing functions hit their endpoints and stay in their documented ranges, monotone splines never overshoot, hashes are deterministic bijections, and unit conversions are consistent.",
  ["inputs"], "all finite argument values in each helper's documented domain",
  "The suite checks a few identities at a few points.",
  ["src/math.rs", "src/lib.rs"], [("math functions", "src/math.rs")], ["return values"])

p("C22", "Oscillators produce their waveform at the requested frequency and phase",
  "Every oscillator produces its documented waveform within its documented range, advancing by exactly frequency over sample rate cycles per sample, including under frequency modulation and at any sample rate; setting an initial phase starts the waveform at that phase. Band-limited oscillators contain no energy above Nyquist beyond a stated tolerance and match the partial recipe of their waveform.",
  ["inputs", "configurations"], "every frequency below Nyquist, modulation signal, phase and sample rate",
  "The suite renders oscillators without comparing with the waveform they promise.",
  ["src/oscillator.rs", "src/wavetable.rs", "src/noise.rs"], [("phase accumulators", "src/oscillator.rs"), ("wavetable construction and selection", "src/wavetable.rs")], ["oscillator outputs"])

p("C23", "Audio buffers keep channels separate and address samples faithfully",
  "Reading back any sample, channel slice or channel subset of an audio buffer returns exactly what was last written there through any of its scalar, vector or slice interfaces, and nothing else changes; clearing and resizing affect exactly what they say. Views of a buffer refer to the same samples as the buffer itself.",
  ["histories", "inputs"], "every sequence of buffer operations on vector, array and borrowed buffers of any channel count",
  "The suite checks a few writes.",
  ["src/buffer.rs"], [("channel indexing", "src/buffer.rs")], ["buffer accessors"])

p("C24", "Spectral resynthesis is exact, and FFTs invert each other",
  "Frequency-domain resynthesis with an identity processor reproduces its input delayed by exactly one window length, for any input and window length, on every channel; bin frequencies and phases seen by the processor correspond to the input's spectrum. Forward and inverse transforms agree with the definition of the discrete Fourier transform and invert each other.",
  ["inputs", "configurations"], "every input signal, power-of-two window length in range, and channel count",
  "The suite checks one window length and a couple of transform sizes.",
  ["src/resynth.rs", "src/fft.rs"], [("overlapping windows", "src/resynth.rs"), ("fft wrappers", "src/fft.rs")], ["Resynth output, fft functions"])

p("C25", "Envelopes follow their function; live ADSR stays within its stages",
  "An envelope outputs its time function sampled at control intervals and interpolated linearly in between, with time advancing exactly with the sample clock, at any sample rate. A live ADSR envelope starts at zero, rises to full level in the attack time, decays to the sustain level and, on release from any stage, falls to zero within the release time, always within zero and one, independently of its copies.",
  ["inputs", "histories", "configurations"], "every envelope function and sample rate; every gate signal and stage time",
  "The suite checks one ADSR timing.",
  ["src/envelope.rs", "src/adsr.rs"], [("segment interpolation with jitter", "src/envelope.rs"), ("stage machine", "src/adsr.rs")], ["envelope outputs"])

p("C26", "Oversampling and resampling are transparent",
  "Oversampling a linear or silent inner graph reproduces what the inner graph would output within the passband with a short, nearly constant delay (the halfband filters are minimum phase), lets nothing above Nyquist alias through beyond the filters' stopband level, never mixes channels, and runs the inner graph at twice the rate. Resampling a generator outputs the generator's own samples interpolated at the accumulated position determined by the speed signal, reproducing it exactly at unit speed apart from a constant offset.",
  ["inputs", "configurations"], "every in-band input, speed signal and channel count",
  "Only mode agreement is tested.",
  ["src/oversample.rs", "src/resample.rs"], [("half-band filters", "src/oversample.rs"), ("interpolator window", "src/resample.rs")], ["outputs"])

p("C27", "Feedback loops equal their one-sample-delay recurrence",
  "A feedback construct outputs, at every sample, its inner graph applied to the sum of the current input and the previous output routed through the loop (mixed by a power-preserving Hadamard matrix for feedback delay networks). The run-time feedback unit obeys the same recurrence with its stated loop delay at any sample rate.",
  ["programs", "inputs", "configurations"], "every inner graph, loop graph, channel count, loop delay and input signal",
  "Only mode agreement is tested.",
  ["src/feedback.rs"], [("value carried between samples", "src/feedback.rs Feedback/Feedback2/FeedbackUnit"), ("Hadamard mixing", "src/feedback.rs FrameHadamard")], ["outputs"])

p("C28", "Filters realize their specified transfer function in every form",
  "Each filter realizes the transfer function its definition prescribes for its parameters and sample rate, and every way of specifying the same parameters (fixed at construction, given as input signals, changed by settings, mixed forms) yields the same filter. Filters remain stable and finite for any input and any parameters in their documented range; all except the direct form biquads also while their frequency and gain vary at audio rate. Subsampled parameter inputs are read every period samples from the first sample on.",
  ["inputs", "configurations", "programs"], "every filter, parameter set in range, sample rate and input signal",
  "The suite checks analytic response of fixed filters only.",
  ["src/filter.rs", "src/svf.rs", "src/biquad.rs", "src/biquad_bank.rs", "src/moog.rs", "src/rez.rs", "src/delay.rs"], [("coefficient computation", "src/svf.rs, src/biquad.rs, src/filter.rs"), ("state updates", "same")], ["filter outputs"])

p("C29", "Pseudorandom behaviour is deterministic and decorrelated",
  "Two graphs of the same structure render the same signal in every run, and every pseudorandom generator's signal is determined by its position in the graph or explicit seed. Copies of a generator at different positions in a graph are decorrelated, noise covers its documented range with the documented distribution, and maximum length sequences have the documented period and balance.",
  ["programs", "configurations", "inputs"], "every graph structure and placement of generators, every seed and sequence length",
  "The suite never compares generators at different positions.",
  ["src/audionode.rs", "src/noise.rs", "src/net.rs", "src/sequencer.rs", "src/math.rs"], [("position hashing (ping)", "src/audionode.rs"), ("noise generators", "src/noise.rs")], ["generator outputs"])

p("C30", "Shared controls, meters, timers and snoops report what actually passed",
  "A shared variable delivers to every reader the last value written, a timer reports the exact stream time since reset, and meters report the documented peak, RMS or sample measurement of the signal that passed while passing it through unchanged; update functions are called with the true stream time at their interval. Snoops and ring buffers deliver the samples that passed in order, dropping only what exceeds their capacity.",
  ["histories", "schedules", "inputs"], "every interleaving of reads and writes with rendering, every input signal",
  "The suite checks one snoop and one shared value.",
  ["src/shared.rs", "src/dynamics.rs", "src/snoop.rs", "src/ring.rs", "src/system.rs"], [("atomics", "src/shared.rs"), ("meter state", "src/dynamics.rs MeterState"), ("queues", "src/snoop.rs, src/ring.rs")], ["outputs and reader-side queries"])

p("C31", "Changing the sample rate is equivalent to building at that rate",
  "Setting a sample rate on any unit, before it is played or followed by a reset, gives exactly the signal of the same unit built and set to that rate from the start, whatever rates were set before. Everything inside a composite graph, network or sequencer, including units added later, is brought to the composite's current rate. A unit on which no rate was set runs at the default rate of 44.1 kHz.",
  ["programs", "configurations", "histories"], "every unit and composite graph, every sequence of sample rate changes interleaved with processing and insertion of units",
  "The suite uses one sample rate almost everywhere.",
  ["src/audiounit.rs", "src/audionode.rs", "src/net.rs", "src/sequencer.rs", "src/slot.rs", "src/reverb.rs", "src/delay.rs", "src/dynamics.rs"], [("set_sample_rate forwarding", "every AudioNode::set_sample_rate")], ["outputs after set_sample_rate"])

p("C32", "Rendering to waves and playing waves back is sample-exact",
  "Rendering a generator to a wave or filtering a wave through a unit produces exactly the samples the unit outputs, for any duration and any block boundary, with the duration rounded as documented. Playing a wave channel returns exactly its samples from the start point, loops at the loop point without a gap, and is silent after the end; big-block and block-rate adapters, and the mono and stereo single-sample calls, return the same samples as the unit itself.",
  ["inputs", "programs", "histories"], "every unit, wave, duration, start, end and loop point, and every sequence of adapter block sizes",
  "The suite renders fixed durations.",
  ["src/wave.rs", "src/audiounit.rs"], [("render/filter loops", "src/wave.rs Wave::render, Wave::filter"), ("player", "src/wave.rs WavePlayer"), ("adapters", "src/audiounit.rs BigBlockAdapter, BlockRateAdapter")], ["wave contents and outputs"])

p("C33", "Every prelude and shorthand of an opcode builds the same unit",
  "An opcode means the same thing in every prelude: the 64-bit prelude (hacker) renders exactly what the generic prelude renders at 64-bit precision, the 32-bit prelude (hacker32) what the generic prelude renders at 32-bit precision, and the two agree up to rounding. Shorthand opcodes (fixed-parameter, fixed-Q, indexed and fractional multi-node forms, noise colours) render exactly what the longer expression they abbreviate renders. Wherever an opcode takes or returns a tuple, component i is channel (or tap) i.",
  ["inputs", "configurations", "programs"], "every opcode of every prelude, every parameter value in range, input signal and sample rate",
  "The suite exercises each opcode in one prelude, mostly without looking at its output.",
  ["src/prelude.rs", "src/hacker.rs", "src/hacker32.rs"], [("opcode constructors", "src/prelude.rs, src/hacker.rs, src/hacker32.rs")], ["outputs of equivalent expressions"])

p("C34", "Panning and mixing keep power; reverbs are linear, stable and decay",
  "The equal-power panner outputs the cosine and sine gains of its position, clamped at full left and right, so that total power does not depend on the position; rotation and mixing matrices are applied exactly as given. Reverbs are linear and time invariant, stay finite, carry energy to every output after a time that does not depend on the sample rate and is longer in larger rooms, are silent after a reset until they get new input, and decay exponentially in proportion to the stated reverberation time at every sample rate.",
  ["inputs", "configurations"], "every pan position and modulation, matrix, room size, reverberation time, damping, sample rate and input signal",
  "The suite only checks that ticks and blocks agree.",
  ["src/pan.rs", "src/reverb.rs", "src/prelude.rs", "src/feedback.rs"], [("pan weights", "src/pan.rs"), ("mixing matrix", "src/pan.rs Mixer"), ("reverb networks", "src/reverb.rs, src/prelude.rs reverb_stereo and its siblings")], ["outputs"])

p("C35", "The granular synthesizer plays exactly the grains its voices call for",
  "Every voice of the granular synthesizer asks its generator function for grains one after another, each starting when the previous one begins to fade out, with the voices evenly staggered over the first grain; the generator is told the right time, fractional beat and voice and texture values in -1...1. The sound is the sum of those grains, each faded in and out over its envelope and started at its own time, whatever the block sizes and sample rate, in the same way after a reset; grains get phases of their own; the texture path repeats after every cycle and depends on the seed alone.",
  ["programs", "inputs", "schedules"], "every number of voices and outputs, generator function, grain and envelope length, path and seed, sample rate, call schedule and history",
  "The suite does not exercise the granular synthesizer.",
  ["src/granular.rs", "src/sequencer.rs"], [("grain scheduling", "src/granular.rs instantiate, instantiate_voices")], ["outputs", "generator calls"])

open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w").write("".join(json.dumps(x) + "\n" for x in P))
