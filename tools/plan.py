"""What each check runs, and what its evidence says about it."""
CHECKS = {}


def check(ident, bins, rule, bounds, assumptions=(), budget=(150, 1800), needs=(), env=None, thorough_bins=()):
    runs = [{'bin': b, 'budget': {'quick': budget[0], 'thorough': budget[1]}, 'needs': list(needs), 'env': env or {}}
            for b in bins]
    runs += [{'bin': b, 'budget': {'quick': budget[0], 'thorough': budget[1]}, 'needs': list(needs), 'env': env or {},
              'thorough_only': True} for b in thorough_bins]
    CHECKS[ident] = {'runs': runs, 'rule': rule, 'bounds': bounds, 'assumptions': list(assumptions)}


check('C01', ['c01_fast'],
      'one execution per WAV file shape and per sequence of read requests; an execution is non-trivial when samples '
      'were decoded and compared',
      ('decode: 6 channel counts x 6 lengths x 7 rates x 4 layouts x 4 chunk sets before x 4 after x 3 patterns; long files; up to 5000 chunks and chunks of up to 200000 bytes before the audio; '
       'read-request sequences of length 4 over 7 sizes', 'the same with request sequences of length 5'))

check('C02', ['c02_asan'],
      'one execution per malformed file; non-trivial: the loader was run on it and its answer judged by the RIFF walk',
      ('4 base files; every truncation; every value of every header byte; every pair of header fields over 21 boundary values; '
       'every field boundary value with every truncation', 'same, also without AddressSanitizer under a 1.2 GB memory limit'),
      thorough_bins=['c02_fast'])

check('C03', ['c03_fast'],
      'one execution per flag combination or batch file; each is judged against the documented meaning',
      ('3 states of each of the 4 file flags x 3 working directories x speech/lattice x 2 spellings; all combinations of the 9 options, radii from -1 to INT_MAX; '
       'batch files of up to 4 rows over 13 row kinds, 3 headers, 2 line ends, with and without final newline; all line-end mixes of 5 rows; '
       '0..59 rows and long files', 'batch files of up to 5 rows'))

check('C04', ['c04_fast'],
      'one execution per mode and sequence of pairs: the real program is run on a batch file and every output compared with the outputs of '
      'the same pairs compared alone and through the library',
      ('7 modes; all sequences of up to 3 pairs (audio) or 2 pairs (other modes) over 11 kinds of pair; batches of 17 and 70 pairs with each kind in each position modulo 11; runs onto existing result files',
       'sequences of up to 4 and 3 pairs, batches of 300'), budget=(300, 3000), needs=['visqol_fast'])

check('C05', ['c05_fast'],
      'one execution per sequence of results and state of the output files; files and console are parsed back and compared with the results',
      ('sequences of up to 3 results x 3 band counts x modes x {no, fresh, existing} CSV and JSON files x 4 path kinds (with commas, quotes, line ends); 1..40 bands x 12 values '
       'in every position; up to 5000 patches', 'sequences of up to 4 results'))

check('C06', ['c06_fast', 'c06_asan'],
      'one execution per pair of signals and configuration, under AddressSanitizer and UBSan; non-trivial: the comparison ran and its answer '
      'was judged',
      ('44 x 44 lengths around the pipeline thresholds x 3 modes x related/unrelated; every length to 1400; 8 x 8 signal shapes x 4 modes x '
       'flags x 9 radii; 11 x 11 levels; 41 sample rates x 4 lengths x 3 shapes; 81 pairs of rates, some nearly equal; uninitialised instances',
       'more shapes, all flags with all radii, every length to 4000, longer signals; also without AddressSanitizer'),
      budget=(250, 3000))

check('C07', ['c07_fast'],
      'one execution per table of patch similarities given to the real pipeline through its similarity interface, or per real pair; every '
      'aggregate of the result is recomputed',
      ('all tables of up to 3 patches over 6 means and 2 deviations; every number of patches to 65, and 200 to 3000, x 5 orders x 3 band counts x 4 rates; 18 '
       'similarities around the floor x 7 predictions; 384 real pairs; 768 results of the manager compared with their message, some with lost patches', 'up to 4 patches, counts to 130'))

check('C08', ['c08_fast'],
      'one execution per mode, signal and configuration; non-trivial: the comparison gave a result, which was compared with the perfect one',
      ('4 modes x 5 shapes x 4 rates x 6 lengths x 2 levels x alignment switches; signals of up to 25 s and 48 kHz; 315 lengths; all 31 activity patterns of 5 segments; all pairs of 9 kinds '
       'of damage on 4 shapes', '14 lengths, switches everywhere'))

check('C09', ['c09_fast'],
      'one execution per mode, signal, damage and configuration with every gain; each result is compared with that at unit gain',
      ('4 modes x 4 shapes x 9 damages x rates x lengths x alignment switches x 7 gains; signals of 20 s; level match for 7 x 7 shapes x lengths x 13 gains',
       '13 gains'))
check('C10', ['c10_fast'],
      'one execution per family of signals and lengths (inner cases: every length, delay or content); each lag is compared with a brute-force '
      'correlation and every aligned signal with the shifted original',
      ('all vectors of up to 4 x 4 samples over 4 values; all pairs of lengths to 72 (correlation) and 64 x 80 (alignment); impulses at all positions; '
       'every third delay to beyond half the length; delays in signals of up to 1.2 million samples, of equal and different lengths', 'up to 5 x 5 samples; lengths to 140; every delay; 1.5 million samples'))
check('C11', ['c11_fast'],
      'one execution per sequence of operations on one or two instances; every answer is compared byte by byte with the answer of a fresh instance '
      'in a process of its own, in the state the sequence should have led to',
      ('manager: all sequences of 3 over 6 initialisations and 7 comparisons, then all 7 comparisons; API: of 3 over 7 configurations and 3 '
       'comparisons; two instances: of 4; every pair of operations 24 times over; 47 lengths in 4 orders on one instance; files; parts with 4 filter banks: of 3', 'sequences of 4, 4, 6 and 4; 150 times over'))

check('C12', ['c12_sched'],
      'one execution per schedule: real threads of the real code under a controlled scheduler, every choice of the next thread with up to the '
      'bounded number of preemptions; inner cases are scheduling points; each thread\'s result is compared with what it gets alone, every memory '
      'access is checked for races with vector clocks',
      ('two managers (10 mode pairs), two API objects, managers sharing a reference: 1-2 preemptions; 2-3 threads initialising with 4 models, 9 '
       'shared parts: 3 preemptions with two threads, 1 with three; one thread uses a part in one way while another goes through up to 70: 1-2', '3, 2, 4 and 5 preemptions (2-3 with three threads)'),
      ['the code inside libsvm, libstdc++ and protobuf is not instrumented: their accesses to shared memory are not seen, except that libsvm\'s model '
       'loader must never run in two threads at once'], budget=(400, 3000))

check('C13', ['c13_fast', 'c13_asan'],
      'one execution per part of a similarity table (the rest is enumerated inside) or per layout: the real matching is run on it and its answer '
      'compared with the best of all assignments',
      ('20 layouts of up to 5 patches in up to 7 frames with every table of 2 to 4 values (2.7 million tables); all layouts of up to 3 patches x 5 sizes x 9 lengths x 6 radii x 4 tables, also with values 1e-7 apart and near 1; '
       '2240 inputs of real size with up to 70 patches; spectrograms of up to 70001 frames', 'also layouts of up to 6 patches, up to 15 cells of 3 values; up to 13 frames and 4 patches'))

check('C14', ['c14_fast'],
      'one execution per set of matched patches, with scripted similarities and recorded audio, or per pair of signals compared with and without '
      'realignment',
      ('3 rates x up to 2 patches x a delay of each x 3 coarse offsets x first patch at the start or not x {worse, equal, better, lost} x {inside, at the end, past the end}; 4 to 40 patches with outcomes and delays in turns; coarse similarities of 0, below 0 and near 1 changed by 1e-12 to 0.5; every failing spectrogram; '
       '384 pairs compared with and without realignment', 'up to 3 patches, more damage; also under AddressSanitizer'), thorough_bins=['c14_asan'])

check('C15', ['c15_fast', 'c15_asan'],
      'one execution per pattern of activity, signal length, number of frames or real pair; the patches chosen are compared with those the '
      'documented rule gives',
      ('all loud/quiet sequences of up to 12 chunks at 4 levels; all chunks of up to 5 samples of 8 values; all patterns of 8 segments x 3 lengths x 3 rates; bursts of 7 '
       'lengths at every frame; 2000 signal lengths; 700 frame counts x 7 patch sizes; signals of up to 2777 frames x 16 patterns x 5 lengths; signals of up to 132000 frames; 190 real comparisons', 'sequences of 16, 9 segments, 4000 lengths, 3000 frame counts'))

check('C16', ['c16_fast', 'c16_asan'],
      'one execution per pair of patches or family of pairs (the pixels after the first five are a loop); every value is compared with the definition, evaluated separately with the range rounding allows',
      ('all pairs of patches over 8 small sizes and alphabets; one pixel changed at every place of real-size patches x 7 patterns x 3 amounts; 49 pairs of patterns x 3 gains x 9 sizes with laws; '
       'flat patches at 12 levels', 'larger alphabets and sizes'))

check('C17', ['c17_fast', 'c17_asan'],
      'one execution per signal, rate and mode, per block of signal lengths or rates, or per filter bank; levels, bands and frames are compared with an independent evaluation of the documented filters',
      ('window sizes at 200000 rates; 700 window shapes; 200 lengths at 14 low rates; every level of 288 signals of 8 shapes at 9 rates in both modes, and of 18 signals of up to 1000 frames; every sample of 3 signals changed; shifts, gains; '
       'tones at every centre frequency; filter banks of 1..40 bands', '400000 rates, 4000 windows, 15 rates, 80 bands'))

check('C18', ['c18_fast', 'c18_asan'],
      'one execution per family of pairs of spectrograms (values after the first three, and frames, are loops); every level is compared with the definition of the floors',
      ('all pairs over 11 small shapes and alphabets of up to 11 values, of equal and different lengths; one value at every band and third frame of real sizes x 7 levels x 3 lengths; 96 pairs of up to 3500 frames; 81920 values through the single steps; '
       'all small frame-floor tables at 5 thresholds', 'larger alphabets, every frame'))

check('C19', ['c19_fast', 'c19_asan'],
      'one execution per vector or family of similarity vectors, real comparison or model file; the quality is compared with an independent evaluation of the model file or the fitted curve',
      ('audio: all pairs of bands x 8 x 4 levels on 7 bases, 625 profiles x 3 shapes, 317 support vectors and neighbours; speech: 30000 means x 3 shapes x 2 scalings, 1..40 bands; 180 real comparisons; 14 unusable model files',
       '300000 means'))

check('C20', ['c20_fast', 'c20_asan'],
      'one execution per feature, sequence of operations, combination of answers of the model library, unusable file or real comparison; the inputs the model receives are recorded',
      ('84 features x 49 values; sequences of 5 operations on two instances; 300 questions in 24 ways; all 14 combinations of answers while preparing, alone and through the manager; 270 comparisons', 'sequences of 7 operations'),
      ['The model library is a stand-in that reads the shipped model file; it evaluates the graph itself.'])

check('C22', ['c22_fast'],
      'one execution per configuration or sequence of configurations; acceptance is judged by the documented rules, every result compared byte for byte with that of the parts set up with the documented meaning',
      ('1288 combinations of all fields; 26 rates from INT_MIN to INT_MAX; 14 radii; working directories with and without models; all sequences of 3 of 7 configurations, all pairs of them 11 times in turns; 100 pairs of lengths x 4; sound 2 to 700 patches away with radii around that',
       'sequences of 5, every combination compared; also under AddressSanitizer'), thorough_bins=['c22_asan'])

check('C21', ['c21_fast'],
      'one execution per length, family of signals or sequence of transforms (signals and shifts of a length are loops); delays are judged by the correlation computed by definition, spectra by the Fourier sum',
      ('all pairs of signals of up to 4 samples over {-1,0,1}; all pairs of pulses for 11 x 11 lengths; noise of 1..260 samples at every shift up to half of it; 600 long pairs at shifts of up to nine tenths; every length 1..300 x 6 signals there and back; '
       'every unit pulse to 70 samples; sequences of 3 transforms; the next power of two for 2^31 numbers',
       'up to 5 samples, 26 x 26 lengths, noise to 700, lengths to 1100, sequences of 5; also under AddressSanitizer'),
      ['The FFT library is a stand-in with the interface and precision of pffft.'], thorough_bins=['c21_asan'])

check('C23', ['c23_fast', 'c23_asan'],
      'one execution per data file, training set, sequence of operations on models, or unusable model file; rows are compared with what was written, predictions with the regression library called with the documented parameters',
      ('26208 rows of up to 3 items of 16 kinds x 3 delimiters; all files of up to 4 rows of 8 kinds; 960 tables, up to 300 features; training sets of up to 130 features and 1025 observations; all sequences of 5 operations on two models; the shipped data and 7 parts of it',
       '4 items, 5 rows, 60 observations, sequences of 7'),
      ['libsvm itself is assumed to be right.'])

check('C24', ['c24_fast', 'c24_asan'],
      'one execution per sequence of operations (the last one a loop) or case; after every operation every way of looking at the matrix is compared with a table of rows kept beside it',
      ('all sequences of 4 of 40 operations on 6 shapes, all pairs of them on 4 large shapes and 40 times in turns; construction of 81 shapes; all subranges and new sizes of 36 shapes; all small matrices over 4 values; complex matrices and arrays; all filter sizes to 4 x 4 on 49 shapes',
       'sequences of 5, larger shapes'))

check('C25', ['c25_fast'],
      'one execution per published comparison and way to make it, or ordered pair of comparisons on one instance; the quality is compared with the published one',
      ('all 20 comparisons of the conformance set x 4 ways; all 26 ordered pairs of speech comparisons with the same mode, 4 pairs of audio comparisons',
       'also as a batch; all 170 ordered pairs'), ['FFT and lattice model libraries are stand-ins; they reproduce all published scores.'],
      needs=['visqol_fast'], budget=(400, 3000))
