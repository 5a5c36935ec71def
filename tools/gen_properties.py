#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the text stays reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=()):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                          "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
                          "observe_at": observe, "hook_needed": None}})

p("C01", "Correlation and difference sums equal their textbook definition",
  "For every pair (or single stack) of frames, regular or arbitrary integer frame times, and every choice of time axis, number of delays, alignment, real or complex result and direct or FFT algorithm, the returned array holds at each delay m exactly the sum over all pairs of frames separated by m of Re(conj(f1)*f2), of conj(f1)*f2 (complex mode, negative delays wrapped from the end), or of |f1-f2|^2 (difference); frame times are distinct within a camera for the FFT algorithm and may repeat in cross-calculations with the direct one. "
  "Delays for which the data holds no pair are zero, pairs at delays outside the requested range contribute nothing anywhere, and the shape is the input shape with the time axis moved last and replaced by the number of delays.",
  ["inputs"], "all data, shapes, axes, dtypes, time arrays (unsorted, negative, with gaps and repeats), delay counts smaller or larger than the data, direct/fft, complex or not",
  "Unit tests compare a handful of fixed random arrays and one irregular time pair with n below the length; kernels are chosen by (ndim, axis, contiguity, align, regularity, complex), and most of those kernels are never run with n beyond the data, repeated or unsorted times.",
  ["cddm/core.py", "cddm/_core_nb.py", "cddm/fft.py"],
  [("kernel dispatch by alignment/regularity/ndim", "cddm/core.py:cross_correlate,auto_correlate,cross_difference,auto_difference,cross_correlate_fft,auto_correlate_fft"),
   ("numba kernels", "cddm/_core_nb.py:_cross_corr_*,_auto_corr_*,_cross_diff_*,_auto_diff_*")],
  ["return values of the public correlate/difference functions"])

p("C02", "Delay counts and delay-resolved sums equal their definition",
  "For every set of frame times, the count array holds at each delay the number of frame pairs having that delay, and the delay-resolved sum holds at each delay the sum of the first frame of every such pair (or of the second frame when time inversion is requested and the roles are swapped); auto variants count each unordered pair once and average the two members' contributions. "
  "This holds for regular and irregular times, for the direct and the FFT variant, for real and complex data, for the two-sided (complex) delay range, and for any number of delays requested; frame times may repeat except in the FFT variant.",
  ["inputs"], "all time arrays, delay counts, data dtypes, axes and direct/fft variants",
  "Tests check one fixed pair of time arrays; normalization is silently biased if a count or delay-resolved sum is off by one pair at a single delay.",
  ["cddm/core.py", "cddm/_core_nb.py"],
  [("pair counting", "cddm/core.py:cross_count,auto_count"), ("running-sum trick / fft convolution", "cddm/core.py:cross_sum,cross_sum_fft,auto_sum,auto_sum_fft")],
  ["return values of cross_count, auto_count, cross_sum(_fft), auto_sum(_fft)"])

p("C03", "Correlation data tuples are consistent and independent of the method used",
  "The high-level auto- and cross-correlation calls return, for every supported normalization level, exactly the pieces that level needs (correlation, pair counts, delay-resolved sum of squares, delay-resolved sums) each equal to its definition, and none of the others; unsupported combinations are rejected. "
  "The direct and FFT methods give the same tuple up to rounding, a user-supplied array of squared signals replaces the computed one wherever it is used, and the result for a stack of pixels equals the result computed for each pixel alone, whatever the time axis or alignment.",
  ["inputs", "configurations"], "all data, time arrays, normalization flags, methods, axes, delay counts, square arrays",
  "Tests sample a few (norm, method) pairs on one data set and mostly compare normalized results, so compensating or per-branch errors in a component are invisible.",
  ["cddm/core.py", "cddm/norm.py"],
  [("orchestration", "cddm/core.py:acorr,ccorr"), ("flag checks", "cddm/core.py:_default_norm,_default_method")],
  ["tuples returned by acorr/ccorr"])

p("C04", "Accumulating into existing results is exactly additive",
  "When an existing result is passed as output, every correlation, difference, count or sum call adds its contribution to that array in place and returns it, so the outcome equals the element-wise sum of the previous content and the result computed from scratch. "
  "The delay range is then taken from the passed array, and processing a recording in any partition of separately accumulated pieces yields the sum of the pieces' results, in any order.",
  ["inputs", "histories"], "all functions accepting an output array, any sequence of accumulations, any prior content",
  "Tests at most accumulate once from zeros; an overwrite or double add shows only with non-zero prior content and in particular kernel variants.",
  ["cddm/core.py", "cddm/_core_nb.py"],
  [("in-place accumulation", "cddm/core.py:_default_out and kernels adding to r"), ("tuple accumulation", "cddm/core.py:acorr,ccorr")],
  ["output arrays after each accumulation"])

p("C05", "Normalization equals correlating the background-corrected signal",
  "For every data set, background, normalization mode (standard, structured, subtracted, compensated and their supported combinations) and correlation method, the normalized result at each delay with at least one pair equals the average over those pairs of the directly computed estimator: product of the signals, of the signals with the given background and/or their delay-resolved means subtracted, or the variance minus half the mean squared difference for structured modes (complex auto-correlations use the delay-resolved mean averaged over both members of the pairs). "
  "Backgrounds and variances of two cameras are given as a pair (tuple or list) of single-frame arrays; results are finite wherever pairs exist, difference and correlation methods agree where both support the mode, a mask only removes pixels without changing the remaining ones, and multi-level data are normalized level by level with the same formulas.",
  ["inputs", "configurations"], "all signals, backgrounds, variances, time arrays, norm flags, methods, masks",
  "Tests compare a few precomputed arrays per norm; the compensation algebra has separate branches per norm, method, real/complex and auto/cross, and a sign or factor error in a rarely used combination goes unseen.",
  ["cddm/norm.py", "cddm/_core_nb.py"],
  [("dispatch", "cddm/norm.py:normalize"), ("kernels", "cddm/_core_nb.py:_normalize_*")],
  ["arrays returned by normalize"])

p("C06", "Weighted normalization and scaling follow their stated formulas",
  "Weighted normalization equals the weight-combination of the two estimators it mixes, with the weight taken from the data when none is given, and unsupported norms are rejected. "
  "Scaling divides every normalized result by the same signal-variance factor for all modes, so that scaled and unscaled outputs differ exactly by that factor; a passed output array is filled and returned; and the noise, weight, covariance and scale helpers return the values of their documented formulas for the signals they describe, whatever the types of the variances and for one or two cameras.",
  ["inputs", "configurations"], "all signals, variances (equal or different for the two cameras), noise levels, modes, scale flag",
  "Weighted modes are tested only by comparing against stored numbers for one data set with nearly equal variances, where inconsistent scaling cancels.",
  ["cddm/norm.py", "cddm/_core_nb.py"],
  [("weights and scale", "cddm/norm.py:weight_from_data,weight_from_g,weighted_sum,scale_factor,noise_level,noise_delta")],
  ["arrays returned by normalize, weight_from_data, scale_factor, noise_*"])

p("C07", "Streaming correlation equals the in-memory correlation",
  "Correlating frames delivered one at a time by any iterator gives the same correlation, counts and delay-resolved sums as the in-memory computation restricted to the same delays over the same number of frames, for every chunk size that is at least the delay range (so that every delay is spanned by neighbouring chunks), regular or increasing irregular times, auto or cross, real or complex, norm, method, mask and thread division in full mode; in chunk mode it equals the sum over chunks of each chunk's own result. "
  "Frames are taken in order and the announced number of them (at most one more), and an iterator that runs out early is reported as an error rather than producing a result.",
  ["inputs", "histories", "configurations"], "all frame streams, chunk sizes, times, delay counts, modes, norms, methods, masks, thread divisors",
  "The test suite streams one or two data sets with one chunk size; errors in the hand-over between neighbouring chunks depend on the position of chunk borders relative to the delays and times.",
  ["cddm/core.py", "cddm/multitau.py"],
  [("double-buffered chunk computation", "cddm/multitau.py:_compute_multi_iter"), ("front-ends", "cddm/core.py:iccorr,iacorr")],
  ["tuples returned by iccorr/iacorr"])

p("C08", "In-memory multiple-tau equals correlating the repeatedly binned signal",
  "For every recording, level size, number of levels, binning mode (averaging, first, random choice) and time format, the first (fast) part equals the ordinary correlation of the full-rate data for its delays, and each further level equals the ordinary correlation, counts and sums of the data (and, where given, of the squared signals) binned pairwise that many times, for auto and cross, real and complex, every supported norm and method. "
  "With random choice every binned frame is one of the two frames it stands for, chosen with the same selection wherever that frame is used.",
  ["inputs", "configurations"], "all recordings, level sizes, level counts, binnings, periods and time arrays, norms, methods",
  "Tests only compare in-memory and iterated results for one shape and the default binning; a common error in both, or an error in a deeper level, is not seen.",
  ["cddm/multitau.py", "cddm/_core_nb.py"],
  [("levels and binning", "cddm/multitau.py:_compute_multi,ccorr_multi,acorr_multi,slice_data,bin_data,random_select_data")],
  ["multi-level tuples returned by ccorr_multi/acorr_multi and the binning helpers"])

p("C09", "Streaming multiple-tau equals in-memory multiple-tau",
  "For deterministic binning modes, the streaming multiple-tau correlation of the frames delivered by any iterator equals the in-memory multiple-tau correlation of the same frames, level by level (data, counts, sums), over the whole chunks of that level, for every chunk size, level size, level count, norm, method, mask, thread division, regular or increasing irregular times (with delays spanned by neighbouring chunks), auto or cross, real or complex. "
  "Each level includes all data the recording provides for it, never uninitialised, stale or all-zero values; intermediate results shown during streaming equal those of the frames consumed so far, and the final result does not depend on whether they are viewed.",
  ["inputs", "histories", "configurations"], "all frame streams, chunk/level sizes, level counts, binnings, modes, norms, masks, divisors",
  "One fixed 2^k-long random stream is tested; the level buffers, their wrap-around and flush order depend on chunk size, level count and stream length in combination.",
  ["cddm/multitau.py"],
  [("recursive binning into ring buffers", "cddm/multitau.py:_compute_multi_iter,_add_data1,_add_data2"), ("front-ends", "cddm/multitau.py:iccorr_multi,iacorr_multi")],
  ["tuples returned/yielded by iccorr_multi/iacorr_multi", "viewer callbacks"])

p("C10", "Streaming background and variance equal those of all frames",
  "The background (mean) and variance reported alongside a streaming correlation equal the mean and variance over the frames processed, per pixel and per camera, within rounding, whatever the chunk size, mask or thread division; with automatic background subtraction the correlation and the statistics equal those of the frames with the first chunk's mean removed. "
  "In-memory statistics and background subtraction equal the mean/variance/difference along the requested axis and return exactly the requested pieces.",
  ["inputs", "histories"], "all frame streams, chunk sizes, masks, thread divisors, axes",
  "Merging running means and variances over chunks is only exercised with stationary random data, where a wrong merge weight is below the tolerance.",
  ["cddm/multitau.py", "cddm/core.py"],
  [("running merge", "cddm/multitau.py:_compute_multi_iter and helpers"), ("in-memory", "cddm/core.py:stats,subtract_background")],
  ["(background, variance) returned by iccorr/iacorr(_multi), stats, subtract_background"])

p("C11", "Masking, thread division and reshaping never move or alter pixels",
  "Flattening frames for threaded processing, optionally selecting a mask, and reshaping results back is a bijection on the selected pixels: every selected pixel's result is found at that pixel's original position, equal to processing that pixel alone, and unselected pixels are NaN. "
  "This holds for raw result tuples, multi-level results, normalized arrays and single frames, for any leading and frame dimensions; incompatible divisors or masks are rejected.",
  ["inputs", "configurations"], "all frame shapes (1-D to 3-D), masks, thread divisors, result kinds",
  "Tests reshape one 2-D shape; multi-level results, one-dimensional frames and mask with divisor are never reshaped.",
  ["cddm/core.py", "cddm/multitau.py", "cddm/norm.py"],
  [("reshape helpers", "cddm/core.py:reshape_input,reshape_output,reshape_frame,thread_frame_shape")],
  ["reshaped arrays"])

p("C12", "Log averaging and merging preserve counts and averages",
  "Rebinning linear correlation data into multiple levels replaces each level by its predecessor convolved with the kernel 1/4,1/2,1/4 and decimated by two (end points kept), the matching effective counts are those of that weighting, and logarithmic averaging and merging yield strictly increasing delays among those carrying data, constant data staying constant and delays without data being absent. "
  "Merging keeps the fast part and the upper half of every slower level unchanged and in order, with matching delay averages; folding complex data takes the average of positive and conjugated negative delays, the positive or the negative ones as requested; shifting and equalizing remove exactly the common phase.",
  ["inputs", "configurations"], "all correlation arrays, counts (including zeros), sizes, binning modes, level numbers",
  "Tests inspect the output of one array length; the boundaries between levels depend on the length, size and binning in combination.",
  ["cddm/multitau.py", "cddm/avg.py", "cddm/core.py"],
  [("averaging", "cddm/multitau.py:log_average,multilevel,merge_multilevel,log_merge,log_merge_count,t_multilevel,ccorr_multi_count,acorr_multi_count")],
  ["arrays returned by the averaging and merging functions"])

p("C13", "Data filters satisfy their defining invariants on every input",
  "Monotone projections return a monotone sequence that keeps already monotone input unchanged and whose values come from or lie between the input's; median and convolution filters equal their definition at every index including the boundaries; interpolation reproduces the input at its own nodes and stays between neighbours. "
  "None of the filters reads or leaves uninitialised values, mixes different pixels, or depends on memory layout.",
  ["inputs"], "all real arrays, lengths from the shortest accepted, dtypes and leading dimensions",
  "Doctests show one example each; boundary indices and uninitialised first elements depend on memory content and are invisible to a single run.",
  ["cddm/avg.py", "cddm/_core_nb.py", "cddm/decorators.py"],
  [("filter kernels", "cddm/_core_nb.py:_median,_convolve,decreasing,increasing,interpolate"), ("public API", "cddm/avg.py")],
  ["arrays returned by the filters"])

p("C14", "Selecting wavevectors partitions the Fourier plane correctly",
  "For every image shape, the wavevector maps give each Fourier pixel its true length, angle and index; annulus, sector and line selections contain exactly the pixels whose length and angle satisfy the stated condition, taking into account the redundant half of the spectrum, and adjacent sectors or annuli that tile the plane cover every pixel exactly once. "
  "Selected data are the plain average of the selected pixels' data with the averaged wavevector, NaN pixels or masked-out pixels never contribute, and results for half-plane and full-plane spectra describe the same pixels.",
  ["inputs", "configurations"], "all shapes (odd/even), k ranges, angles, sectors, masks",
  "There is a single map test for one shape; boundary pixels (exact angles such as 45, 90, 135 degrees) and negative wavevectors are not examined.",
  ["cddm/map.py"],
  [("maps and selections", "cddm/map.py:rfft2_kmap,rfft2_kangle,line/sector indexmaps,k_select,rfft2_k_select,fft2_k_select")],
  ["index maps and (k, data) pairs"])

p("C15", "Video FFT equals the two-dimensional DFT of each windowed, cropped frame",
  "Every frame leaving the Fourier-transform stage equals the (real or full) 2-D DFT of the corresponding input frame, multiplied by the window if given, cropped to the requested wavevector range with positive and negative frequencies in the documented order, regardless of FFT backend, dtype, number of frames or cameras and whether input buffers may be overwritten. "
  "Frame normalization, window functions and the one-dimensional light-scattering variants equal their formulas, input order and frame count are preserved.",
  ["inputs", "configurations"], "all frame shapes, crops, windows, dtypes, backends, camera counts",
  "Tests transform one shape per library; crop edge cases (0, 1, maximal, odd/even) and buffer reuse between frames are not covered.",
  ["cddm/fft.py", "cddm/window.py", "cddm/video.py"],
  [("fft and crop", "cddm/fft.py:rfft2,fft2,rfft2_crop,fft2_crop,normalize_fft"), ("windows", "cddm/window.py"), ("dls", "cddm/fft.py")],
  ["frames yielded by rfft2/fft2 and functions on arrays"])

p("C16", "Video pipelines keep every frame, in order, paired and uncorrupted",
  "Any composition of per-frame video operations (crop, window, add, subtract, multiply, mask, normalize, convert) applied to any iterable of multi-camera frames yields exactly one output per input frame, in order, with cameras paired as given, each equal to the operation's formula on that frame alone; earlier yielded frames are not altered by later processing unless in-place was requested. "
  "Converting between arrays, streams and memory-mapped files reproduces every frame bit-exactly, and an announced frame count that does not match the video is rejected rather than silently padded or truncated.",
  ["inputs", "histories", "configurations"], "all videos, camera counts, operation sequences, in-place flags, dtypes",
  "Tests run each operation once on one small video; composition, lazy evaluation and buffer aliasing between successive frames are not examined.",
  ["cddm/video.py"],
  [("operations", "cddm/video.py:crop,apply_window,add,subtract,multiply,mask,normalize_video,fromarrays,asarrays,asmemmaps")],
  ["frames observed at the consumer"])

p("C17", "Threaded playback delivers every frame once, in order, under any schedule",
  "Displaying or prefetching a video in background threads delivers to the consumer exactly the source's frames, once each and in order, whatever the relative speed of producer, consumer and display, and then stops; no sentinel or extra frame is produced. "
  "An error raised by the source reaches the consumer instead of silently truncating the stream, abandoning the consumer early releases the worker threads, and frames queued for display correspond to frames actually delivered.",
  ["schedules", "fault_sequences", "histories"], "all producer/consumer timings, stream lengths, prefetch depths, source failures, early termination",
  "Tests play one short video at one speed and check only that it does not crash.",
  ["cddm/video.py", "cddm/viewer.py"],
  [("threads and queues", "cddm/video.py:play,play_threaded,threaded,show_*")],
  ["frames received by the consumer, threads alive, queue contents"])

p("C18", "Simulated particle videos obey their physical model",
  "For every box, particle count and step parameters, simulated trajectories start at the given (or random in-box) positions, stay inside the periodic box, advance by drift times the time step plus diffusive steps of the stated variance, and are reproducible from the seed. "
  "In rendered frames each pixel is the background plus the sum of every particle's point-spread function (sampled within three widths of the particle, periodically wrapped at the borders) as long as sums fit the image data type; nothing is written outside the frame, and noise/ADC conversion follows its stated formula and moments and stays within the bit depth.",
  ["inputs", "configurations"], "all shapes, particle numbers, intensities, widths, velocities, time steps, seeds, bit depths",
  "Tests check one seed's first numbers; wrap-around at borders and corners, large widths and non-unit time steps are not examined.",
  ["cddm/sim.py", "cddm/_sim_nb.py"],
  [("random walk", "cddm/sim.py:brownian_walk,brownian_particles"), ("rendering", "cddm/_sim_nb.py:draw_psf; cddm/sim.py:particles_video,adc,...")],
  ["trajectories, frames"])

p("C19", "Trigger schedules and dual-camera frame pairing are faithful",
  "Generated trigger schedules have the requested number of strictly ordered trigger times per camera within the documented spacing and windows (camera one anywhere in the first half of each period of 2n, camera two at its start or middle, at the documented probability), and are reproducible from the random state. "
  "A simulated dual-camera recording driven by any valid schedules delivers, as its i-th pair, camera one's image of the scene at its i-th trigger and camera two's at its i-th trigger, with none lost, duplicated or swapped, and the empirical delay counts of the schedule equal those computed from its time arrays and approach the announced expected counts.",
  ["inputs", "schedules", "configurations"], "all schedules (including bursts where one camera runs several triggers ahead), modes and parameters",
  "Tests only run the default schedule, in which cameras alternate; bursts, gaps and coincident triggers are never paired.",
  ["cddm/sim.py"],
  [("schedules", "cddm/sim.py:create_random_times1,create_random_times2,random_time_count,..."), ("pairing", "cddm/sim.py:particles_video")],
  ["trigger arrays, paired frames"])

p("C20", "Calls do not modify their inputs and do not depend on call history",
  "Unless in-place operation or an output array was explicitly requested, no analysis call modifies the arrays, times, masks or result tuples passed to it. "
  "The result of a call is a deterministic function of its arguments and the configuration: repeating it, running it after any other sequence of calls, with differently laid out (transposed, strided, read-only) but equal inputs, gives the same result.",
  ["histories", "inputs"], "all public calls, sequences of calls, memory layouts",
  "Each test uses fresh arrays once and never compares them afterwards, nor repeats a call after others.",
  ["cddm/core.py", "cddm/norm.py", "cddm/multitau.py", "cddm/map.py", "cddm/fft.py", "cddm/avg.py", "cddm/video.py"],
  [("copies before in-place kernels", "throughout"), ("fft overwrite flags", "cddm/fft.py")],
  ["byte digests of inputs before and after, repeated outputs"])

p("C21", "No public call reads or writes memory outside its arrays",
  "For every accepted input, including delay counts beyond the recording, extreme or negative frame times, empty overlaps, single frames and tiny shapes, no compiled routine accesses memory outside the arrays it was given or returns uninitialised memory. "
  "Invalid input is either rejected with an exception or handled with a defined result, never with a crash or garbage values.",
  ["inputs"], "all public calls over extreme sizes, delays, times and shapes",
  "Compiled kernels run without bounds checking, so an out-of-range access usually returns a plausible value and no test fails.",
  ["cddm/_core_nb.py", "cddm/_sim_nb.py", "cddm/core.py", "cddm/multitau.py", "cddm/norm.py", "cddm/avg.py", "cddm/sim.py"],
  [("index guards in kernels", "cddm/_core_nb.py,cddm/_sim_nb.py")],
  ["bounds-checked kernel builds, poisoned allocations, process exit status"])

p("C22", "Results do not depend on thread count, target, precision or concurrency",
  "Choosing parallel or single-threaded compilation, any number of threads, any FFT library, fast math or single precision (with data in that precision) changes results only within the rounding error of the chosen precision, and the dtypes of correlation and normalization results follow the configured precision. "
  "Calls issued concurrently from several threads on separate data give the same results as when issued one after another.",
  ["configurations", "schedules"], "all precision/target/fft-library/thread settings, concurrent callers",
  "The test suite runs in one default configuration and a single thread.",
  ["cddm/conf.py", "cddm/_core_nb.py", "cddm/fft.py"],
  [("compile targets", "cddm/conf.py"), ("fft library selection", "cddm/fft.py")],
  ["results of the same workload under each configuration"])

p("C23", "Settings are validated, take effect, and are never left changed by a call",
  "Setting the verbosity, FFT library, thread counts or display library returns the previous value, takes effect for subsequent calls, and rejects unknown values leaving the old one in force; the configuration file and the environment decide the settings a new process starts with. "
  "Analysis calls, including those that raise or are abandoned half way, restore any setting they change temporarily (such as output verbosity), nested uses included.",
  ["histories", "fault_sequences", "inputs"], "all sequences of setter calls, temporary changes and failing or abandoned calls",
  "Tests call each setter once; exceptions inside temporarily quiet sections and nesting are not tested.",
  ["cddm/conf.py", "cddm/print_tools.py", "cddm/fft.py", "cddm/video.py", "cddm/multitau.py"],
  [("setters", "cddm/conf.py,cddm/print_tools.py"), ("temporary quieting", "cddm/print_tools.py:enable_prints,disable_prints and callers")],
  ["settings observed before and after every call"])

p("C24", "Viewers show exactly what the analysis functions compute",
  "For every correlation data set and every sequence of mode, sector, angle, k, norm, mask, fold and log-averaging changes, the curve a viewer extracts equals what the corresponding normalization, selection, folding and averaging functions return for the viewer's current settings, regardless of the order in which the settings were changed. "
  "Every change invalidates exactly the cached values that depend on it, and new data replace old data completely.",
  ["histories", "inputs"], "all sequences of viewer setter calls and data updates",
  "Viewers are not unit-tested apart from construction; stale caches show only after particular change sequences.",
  ["cddm/viewer.py"],
  [("lazy computation and invalidation", "cddm/viewer.py:DataViewer,CorrViewer,MultitauViewer")],
  ["data returned by the viewers' accessors after each operation"])

p("C25", "A complete analysis equals its definition evaluated on the raw frames",
  "For every recording of one or two cameras, regular or randomly triggered, the complete chain of video preprocessing, spatial Fourier transform and cropping, correlation (in memory, from files or streamed; single or multiple tau), normalization, log averaging or merging and wavevector selection "
  "gives, at every reported delay and wavevector, the value obtained by applying the definitions directly to the raw frames: transform sums, background correction, averages over the frame pairs of each delay, and averages over the selected wavevectors. "
  "Every way of analysing the same recording (in memory, streamed, threaded, direct or FFT algorithm, half or full spectrum, with or without equivalent times) gives the same curves.",
  ["inputs", "configurations"], "all recordings and all combinations of the options of every stage",
  "Tests exercise stages separately with fixed arrays; disagreement between stages about order, shape, period or scale shows only in a complete analysis.",
  ["cddm/video.py", "cddm/fft.py", "cddm/core.py", "cddm/multitau.py", "cddm/norm.py", "cddm/map.py"],
  [("stages", "cddm/video.py,cddm/fft.py,cddm/core.py,cddm/multitau.py,cddm/norm.py,cddm/map.py")],
  ["raw frames put in, curves that come out"])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as fh:
    for r in P:
        assert len(r["title"]) <= 80, r["id"]
        fh.write(json.dumps(r) + "\n")
print(len(P))
