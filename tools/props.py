"""The properties, in one place: gen_docs.py writes properties.jsonl and
MANIFEST.json from this list and from plan.py."""
PROPS = []
TECH = {}


def prop(ident, title, statement, over, text, why, files, mechanism, technique, note, state=(), observe=(), hook=None):
    a = {'files': list(files), 'mechanism': [{'name': n, 'where': w} for n, w in mechanism]}
    if state:
        a['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in state]
    if observe:
        a['observe_at'] = list(observe)
    a['hook_needed'] = hook
    PROPS.append({'id': ident, 'title': title, 'statement': statement,
                  'quantifier': {'over': list(over), 'text': text}, 'why_tests_cant': why, 'anchors': a})
    TECH[ident] = (technique, note)


I, H, C, F, S = 'inputs', 'histories', 'configurations', 'fault_sequences', 'schedules'
STATELESS = 'stateless model checking of the real code: '

prop('C01', 'WAV files are decoded to exactly the samples they contain',
     'For every well-formed 16-bit PCM WAV file, whatever its number of channels, length, sample rate, header size and the optional chunks '
     'around its data, loading it gives the file\'s sample rate and, for each frame, the mean of the channels\' samples divided by 32768. '
     'Reading it piece by piece, in any sequence of request sizes, gives the same samples in order with nothing skipped, repeated or invented, '
     'and a request beyond the end returns what is left.',
     [I, H], 'every combination of channel count, length, rate, chunk layout and sample pattern; every sequence of read requests up to a depth',
     'The tests decode three fixed files; they never vary the chunk layout, channel count or the sequence of read requests.',
     ['src/wav_reader.cc', 'src/misc_audio.cc', 'src/include/wav_reader.h'],
     [('WavReader::ParseHeader, ReadSamples', 'src/wav_reader.cc'), ('MiscAudio::LoadAsMono, ExtractMultiChannel, ToMono', 'src/misc_audio.cc')],
     STATELESS + 'all file layouts and all read-request sequences up to the bound, against a writer-side reference',
     'Exhaustive within the stated alphabet of layouts; trusts the harness\'s own WAV writer.',
     observe=['MiscAudio::LoadAsMono', 'WavReader::ReadSamples'])

prop('C02', 'Malformed WAV files are handled safely and never yield invented audio',
     'For any file content whatsoever - truncated anywhere, with any header field changed, empty, missing or not a WAV file - loading it '
     'terminates without a crash, an out-of-bounds access or memory use out of proportion to the file. '
     'It yields either the samples that really are in the file\'s data or an empty signal, which a comparison then answers with an error; it never yields '
     'samples that are not in the file.',
     [I, F], 'every truncation point, every value of every header byte, and every pair of boundary values of header fields of the base files',
     'The tests load two damaged files; the fault space is every byte and every truncation point of the header.',
     ['src/wav_reader.cc', 'src/misc_audio.cc', 'src/visqol_manager.cc'],
     [('header checks', 'src/wav_reader.cc'), ('MiscAudio::LoadAsMono', 'src/misc_audio.cc'), ('VisqolManager::ValidateInputAudio', 'src/visqol_manager.cc')],
     'exhaustive fault enumeration on the real loader (truncations, byte values, field pairs) under AddressSanitizer and UBSan',
     'Exhaustive for single bytes, truncations and pairs of boundary values; what counts as a decodable file is an independent RIFF walk in the harness.',
     observe=['MiscAudio::LoadAsMono'])

prop('C03', 'Command lines and batch files give exactly the comparisons they spell out',
     'Every command line is either refused with a reason or gives exactly the files, mode and options it names, with the documented '
     'defaults (search window 60, model by mode, alignment switches off) for the rest. '
     'A batch file gives exactly one comparison per row with two columns, in order, reference first, whatever the line ends, '
     'blank lines, header row or final newline, with nothing carried over, dropped or merged.',
     [I, C], 'all combinations of flags with all states of the files they name; all batch files up to a number of rows over an alphabet of row kinds',
     'The tests try a dozen hand-written command lines and one CSV file; the combinations of flags and row kinds are not covered.',
     ['src/commandline_parser.cc', 'src/include/commandline_parser.h', 'src/main.cc'],
     [('VisqolCommandLineParser::Parse', 'src/commandline_parser.cc'), ('VisqolCommandLineParser::BuildFilePairPaths, ReadFilesToCompare', 'src/commandline_parser.cc')],
     STATELESS + 'every flag combination and every batch file over the alphabet, against an independent parser',
     'Exhaustive over the flag and row alphabets; flag syntax itself is absl\'s.',
     observe=['VisqolCommandLineParser::Parse', 'VisqolCommandLineParser::BuildFilePairPaths'])

prop('C04', 'Every comparison of a batch gets its own correct result, in order',
     'A run of the program over a list of pairs gives, for each pair, the same result as comparing that pair alone, whatever the other pairs are, '
     'including pairs that fail because of missing, invalid or unsuitable files. '
     'A failing pair neither stops the run nor leaves a result of its own, the results appear in input order, '
     'and the console, the CSV file and the JSON file describe the same results.',
     [H, F], 'all sequences of pairs up to a length over an alphabet of good, damaged, missing, silent, short and mismatched pairs, in all modes',
     'No test runs the program; no test compares a pair after another one with the same manager.',
     ['src/main.cc', 'src/visqol_manager.cc', 'src/include/sim_results_writer.h'],
     [('main loop over the pairs', 'src/main.cc'), ('VisqolManager::Run', 'src/visqol_manager.cc'), ('SimilarityResultsWriter::Write', 'src/include/sim_results_writer.h')],
     STATELESS + 'every sequence of pairs over the alphabet is given to the real executable, outputs compared with each pair alone',
     'The executable is built from the working tree with the TFLite and pffft stand-ins of /verif/shim.',
     observe=['the visqol executable: console, --results_csv, --output_debug'])

prop('C05', 'Written results say exactly what was computed',
     'The result files contain, for every result in order, each file name and each number to the precision of the format, '
     'under the right column or field name: one CSV row per result after one header row whose columns match the values, and one JSON object per result with every patch. '
     'Writing to an existing file adds to it without changing or repeating what is there, and paths with commas or odd characters keep their meaning.',
     [I, H], 'all sequences of results up to a length x states of the output files x numbers of bands and patches x extreme values in every position',
     'One test writes one result; positions, numbers of bands, appending and extreme values are not covered.',
     ['src/include/sim_results_writer.h', 'src/proto/similarity_result.proto', 'src/visqol_manager.cc'],
     [('SimilarityResultsWriter', 'src/include/sim_results_writer.h'), ('VisqolManager::PopulateSimResultMsg', 'src/visqol_manager.cc')],
     STATELESS + 'every sequence of results and file states is written by the real writer, parsed back and compared',
     'Exhaustive within the alphabet; JSON text is parsed by an independent parser in the harness.',
     observe=['SimilarityResultsWriter::Write', 'console output'])

prop('C06', 'Any pair of signals gives a plausible result or an error, never a crash',
     'For any two signals (any lengths including zero, any sample values from silence to far beyond full scale, any sample rates, any similarity between them) and any configuration, '
     'a comparison terminates with a result or an error status, without a crash, an exception, an out-of-bounds access or undefined arithmetic. '
     'A result has a quality between 1 and 5, similarities of at most 1, at least one patch, and patch times that lie in order within the signals.',
     [I, C], 'all pairs of lengths around every threshold of the pipeline, all pairs of signal shapes and levels, all sample rates in a list, all switches and window radii',
     'The tests compare a handful of fixed recordings of one length and rate each.',
     ['src/visqol_manager.cc', 'src/visqol.cc', 'src/alignment.cc', 'src/comparison_patches_selector.cc', 'src/vad_patch_creator.cc', 'src/image_patch_creator.cc', 'src/gammatone_spectrogram_builder.cc', 'src/xcorr.cc'],
     [('VisqolManager::Run', 'src/visqol_manager.cc'), ('input validation and length checks', 'src/visqol_manager.cc, src/image_patch_creator.cc, src/vad_patch_creator.cc, src/gammatone_spectrogram_builder.cc')],
     STATELESS + 'every pair of the enumerated lengths, shapes, levels, rates and configurations is compared by the real pipeline under sanitizers',
     'Exhaustive over the stated alphabets of lengths and shapes; other sample values are not covered. Values beyond 1e150, NaN and infinity are outside the domain.',
     observe=['VisqolManager::Run'])

prop('C07', 'The reported score is the documented aggregate of the patch similarities',
     'The per-band mean, lowest-tenth mean and pooled standard deviation of the similarities and the per-band mean energy of the degraded patches in a result are exactly those of its patches, each patch counted once whatever their order or number, '
     'and the overall similarity is the mean over the bands. '
     'The quality is the mapping applied to those values, except that an overall similarity below 0.15 gives 1. '
     'The message handed out holds all of it, with every patch.',
     [I], 'all tables of patch similarities up to a number of patches over an alphabet of values; every number of patches to 130; every number of bands in a list',
     'The tests compare two end results; they cannot tell which of the patches, bands or quantiles went into them.',
     ['src/visqol.cc', 'src/visqol_manager.cc'],
     [('CalcPerPatchMeanFreqBandMeans, CalcPerPatchFreqBandQuantile, CalcPerPatchMeanFreqBandStdDevs, CalcPerPatchMeanFreqBandDegradedEnergy, AlterForSimilarityExtremes', 'src/visqol.cc')],
     STATELESS + 'every similarity table over the alphabet is fed through the pipeline\'s similarity interface and all aggregates recomputed',
     'Exhaustive over the tables; floating-point comparison with tolerance.',
     observe=['Visqol::CalculateSimilarity'])

prop('C08', 'A signal compared with itself is perfect, and nothing scores better',
     'Comparing a signal with an identical copy gives similarity 1 in every band and patch, zero deviation, no delay and the mode\'s best quality, '
     'for every signal that contains something to compare. '
     'No degraded version of it is rated as more similar than the copy.',
     [I, C], 'all combinations of mode, signal shape, sample rate, length, level and alignment switches; all pairs of kinds of damage',
     'Two tests compare one recording with itself in one mode.',
     ['src/visqol.cc', 'src/neurogram_similiarity_index_measure.cc', 'src/comparison_patches_selector.cc', 'src/speech_similarity_to_quality_mapper.cc'],
     [('whole pipeline', 'src/visqol.cc'), ('scaling of the speech mapping', 'src/speech_similarity_to_quality_mapper.cc')],
     STATELESS + 'every combination of mode, shape, rate, length and switches is compared with its copy and with damaged versions',
     'Exhaustive over the stated alphabet of signals.',
     observe=['VisqolManager::Run'])

prop('C09', 'The playback level of the degraded signal does not matter',
     'The degraded signal is brought to the reference\'s sound pressure level before anything is measured, without changing its shape, its length or the reference. '
     'Therefore multiplying a degraded signal by any positive factor leaves the quality, every similarity and the delay as they were.',
     [I, C], 'all combinations of mode, signal shape, damage, rate, length and factor',
     'One test scales one fixed signal; no test checks that a result does not depend on the level.',
     ['src/misc_audio.cc', 'src/visqol.cc'],
     [('MiscAudio::ScaleToMatchSoundPressureLevel', 'src/misc_audio.cc'), ('Stage 1 of CalculateSimilarity', 'src/visqol.cc')],
     STATELESS + 'metamorphic: every enumerated pair is compared at every factor',
     'Energies of realigned perfect patches are not compared, because a tie between a perfect patch and its perfect realignment may go either way.',
     observe=['VisqolManager::Run', 'MiscAudio::ScaleToMatchSoundPressureLevel'])

prop('C10', 'A constant delay between the signals is found, reported and removed',
     'When the degraded signal is the reference shifted in time by up to a quarter of its length, global alignment finds that shift, reports it with its sign (positive: the degraded signal starts early and gets '
     'silence in front; negative: its start is cut), and changes nothing else: every remaining sample keeps its value and order. '
     'The lag is the one at which the envelopes correlate best; a best lag beyond half the reference is not applied. '
     'Signals aligned for a patch come out equally long and cover the same instants. With global alignment switched off, the delay is 0.',
     [I, C], 'all short vectors over a small alphabet; all pairs of lengths; all positions of an impulse; all delays to beyond half the length; both settings of the switch',
     'The tests align one or two recordings with one delay each.',
     ['src/alignment.cc', 'src/xcorr.cc', 'src/envelope.cc', 'src/visqol.cc'],
     [('Alignment::GloballyAlign, AlignAndTruncate', 'src/alignment.cc'), ('XCorr::FindLowestLagIndex', 'src/xcorr.cc'), ('Envelope::CalcUpperEnv', 'src/envelope.cc')],
     STATELESS + 'every length pair, delay and small vector is aligned and compared with a brute-force correlation and the shifted original',
     'Ties between lags within floating-point tolerance are accepted either way.',
     observe=['Alignment::GloballyAlign', 'Alignment::AlignAndTruncate', 'XCorr::FindLowestLagIndex'])

prop('C11', 'No result depends on what was compared or configured before',
     'A comparison gives, bit for bit, what a fresh instance with the current configuration gives for the same inputs, whatever initialisations and comparisons, successful or failing, the same or other instances did before. '
     'Before a successful initialisation, or after a failed one, comparing is answered with an error. '
     'A comparison modifies neither the caller\'s samples nor the files it reads.',
     [H, C], 'all sequences of initialisations and comparisons, among them failing ones, up to a depth, on one and two instances of the manager and of the API, and on their reusable parts',
     'Each test makes one instance and one comparison.',
     ['src/visqol_manager.cc', 'src/visqol_api.cc', 'src/visqol.cc', 'src/gammatone_filterbank.cc', 'src/gammatone_spectrogram_builder.cc'],
     [('VisqolManager::Init, Run', 'src/visqol_manager.cc'), ('VisqolApi::Create, Measure', 'src/visqol_api.cc'), ('GammatoneFilterBank filter conditions', 'src/gammatone_filterbank.cc')],
     STATELESS + 'every operation sequence to the depth on the real objects, every answer compared byte by byte with a fresh instance\'s',
     'Exhaustive over sequences of the stated operations.',
     state=[('is_initialized_ and the configured parts', 'what a comparison uses', 'src/include/visqol_manager.h')],
     observe=['VisqolManager::Run', 'VisqolApi::Measure'])

prop('C12', 'Instances used by different threads do not affect each other',
     'When several threads each create, initialise and use their own instances - of the manager, the API, the file loader, the result writer or the parts - or share signals and parts '
     'only through const methods, every thread gets exactly what it would get alone, whatever the interleaving; there is no data race, no deadlock and no overlapping use of the non-reentrant model loader.',
     [S], 'all schedules of two or three threads with up to a bounded number of preemptions at synchronisation operations, for all pairs of modes',
     'The tests are single-threaded.',
     ['src/support_vector_regression_model.cc', 'src/visqol_manager.cc', 'src/visqol_api.cc', 'src/visqol.cc'],
     [('load_model_mutex_', 'src/support_vector_regression_model.cc'), ('absence of shared mutable state elsewhere', 'src')],
     STATELESS + 'controlled scheduler over real threads, preemption-bounded exhaustive schedules, vector-clock race detection on every instrumented access',
     'Scheduling points are synchronisation operations; between them races are found by happens-before, not by interleaving. Code inside prebuilt libraries is not instrumented.',
     state=[('load_model_mutex_', 'guards libsvm\'s loader', 'src/support_vector_regression_model.cc')],
     observe=['VisqolManager::Init', 'VisqolManager::Run', 'VisqolApi::Measure'])

prop('C13', 'Patches are matched so that the total similarity is the best possible',
     'Each reference patch is matched to a degraded patch that starts within the search window around its own position, later patches to later positions, or to none at all when that is better '
     '(its similarity and times are then zero). Among all such assignments the one returned has the highest total similarity, whatever the similarities are; '
     'every result carries the times and values of exactly the two patches it compares, a degraded patch that reaches past the end being padded with silence. '
     'Reference patches that start more than half a patch past the degraded end are left out; if no assignment exists at all, an error is returned.',
     [I, C], 'all similarity tables over a small alphabet for many layouts; all small layouts, windows, lengths and patch sizes; inputs of real size',
     'The tests match a handful of recordings.',
     ['src/comparison_patches_selector.cc'],
     [('ComparisonPatchesSelector::FindMostOptimalDegPatches, FindMostOptimalDegPatch, BuildDegradedPatch, CalcMaxNumPatches', 'src/comparison_patches_selector.cc')],
     STATELESS + 'the real dynamic programme runs on every table through the comparator interface, and an explicit search through all assignments gives the optimum',
     'A patch may go without a counterpart only while the position of the one before is in its window, as in the code. Ties may go either way.',
     observe=['ComparisonPatchesSelector::FindMostOptimalDegPatches'])

prop('C14', 'Fine realignment only improves matches and reports what it compared',
     'Realignment aligns the audio of each matched pair of patches again and keeps the better of the two matches: no patch becomes less similar, none is added, dropped or reordered, and patches without a counterpart stay as they are. '
     'A match that is kept is unchanged; a new one has the values of the new comparison and the times of exactly the audio that was compared, in which both sides are equally long and any local delay is removed. '
     'If a spectrogram cannot be built the comparison fails. With realignment switched off, the coarse matches are the result.',
     [I, C, F], 'all outcomes, places and local delays of up to three patches; every failing spectrogram; both settings of the switch on real pairs',
     'The tests realign one recording.',
     ['src/comparison_patches_selector.cc', 'src/alignment.cc', 'src/visqol.cc'],
     [('ComparisonPatchesSelector::FinelyAlignAndRecreatePatches, Slice', 'src/comparison_patches_selector.cc'), ('Alignment::AlignAndTruncate', 'src/alignment.cc')],
     STATELESS + 'the real realignment runs on numbered audio with scripted similarities; the audio it hands over is located in the signals and compared with the times it reports',
     'Times may be off by one sample; when both matches are equally similar, either may be kept. The last sample of a signal may be missing from a patch that reaches its end.',
     observe=['ComparisonPatchesSelector::FinelyAlignAndRecreatePatches', 'Visqol::CalculateSimilarity'])

prop('C15', 'The whole reference is scored, except silence in speech mode',
     'In audio mode the scored patches are consecutive 30-frame pieces of the reference from frame 14 on, at least one and as many as fit with a frame to spare; a shorter reference is an error. '
     'In speech mode they are those of the consecutive 20-frame pieces from frame 9 on in which at least one frame has voice activity; a frame is silent only if it and the two before it have, after scaling the peak '
     'to full scale, a level below 5000, and the first two frames always count as active. A patch holds exactly the frames it is said to hold, and the result lists the patches at these times.',
     [I, C], 'all loud/quiet sequences up to a length; bursts of several lengths at every place; every signal length and frame count to a bound',
     'The tests look at the patches of one recording per mode.',
     ['src/image_patch_creator.cc', 'src/vad_patch_creator.cc', 'src/rms_vad.cc'],
     [('ImagePatchCreator::CreateRefPatchIndices, CreatePatchesFromIndices', 'src/image_patch_creator.cc'), ('VadPatchCreator::CreateRefPatchIndices, GetVoiceActivity', 'src/vad_patch_creator.cc'),
      ('RmsVad::ProcessChunk, GetVadResults', 'src/rms_vad.cc')],
     STATELESS + 'the real patch creators run on every pattern and length, judged by an independent statement of the rule',
     'Known finding: the activity is taken nine frames early (a sample number is given as a frame number), so patches chosen by that shifted activity are accepted outside the scenario that shows the finding.',
     observe=['VadPatchCreator::CreateRefPatchIndices', 'ImagePatchCreator::CreateRefPatchIndices', 'VisqolManager::Run'])

prop('C16', 'The similarity of two patches is the defined one, in every band',
     'The similarity of a band is the mean over the frames of intensity times structure, computed from the 3x3 weighted neighbourhoods (borders repeated) of both patches; the deviation is the sample deviation of the same values '
     'and the energy the mean level of the degraded patch; the similarity of the patches is the mean over the bands. A patch has similarity 1 to itself, no pair more than 1; '
     'the similarity is symmetric, does not depend on the direction of time or frequency, counts only neighbouring bands, and any audible difference lowers it.',
     [I], 'all pairs of small patches over alphabets of levels; every single pixel of patches of real size; families of patterns',
     'The tests compare two fixed patches.',
     ['src/neurogram_similiarity_index_measure.cc', 'src/convolution_2d.cc', 'src/amatrix.cc'],
     [('NeurogramSimiliarityIndexMeasure::MeasurePatchSimilarity', 'src/neurogram_similiarity_index_measure.cc'), ('Convolution2D::Valid2DConvWithBoundary', 'src/convolution_2d.cc')],
     STATELESS + 'the real measure runs on every pair of the domain; a separate evaluation of the definition in extended precision, with the interval rounding allows, decides',
     'Where a neighbourhood is nearly constant, the interval allowed for rounding is as wide as double arithmetic on squared levels requires.',
     observe=['NeurogramSimiliarityIndexMeasure::MeasurePatchSimilarity'])

prop('C17', 'Spectrograms measure the level of each band in each frame',
     'A spectrogram has one frame per quarter window (20 ms) as long as a whole 80 ms window fits, and 32 bands (21 in speech mode) in ascending order, spaced on the ERB scale from 50 Hz to half the sample rate (at most 8 kHz in speech mode). '
     'Each value is the RMS of the Hann-windowed frame after the gammatone filter of the band, which has unit gain at its centre; it depends on nothing outside the frame, so a delay by whole hops moves the frames and a gain scales them. '
     'Signals not longer than one window and rates too low for one are an error.',
     [I], 'all lengths to a bound at low rates; all rates for window sizes; every sample, band and frame of families of signals; filter banks of every size',
     'The tests look at one spectrogram and one filter bank.',
     ['src/gammatone_spectrogram_builder.cc', 'src/gammatone_filterbank.cc', 'src/equivalent_rectangular_bandwidth.cc', 'src/signal_filter.cc', 'src/analysis_window.cc'],
     [('GammatoneSpectrogramBuilder::Build', 'src/gammatone_spectrogram_builder.cc'), ('EquivalentRectangularBandwidth::MakeFilters', 'src/equivalent_rectangular_bandwidth.cc'),
      ('AnalysisWindow', 'src/analysis_window.cc'), ('GammatoneFilterBank::ApplyFilter', 'src/gammatone_filterbank.cc')],
     STATELESS + 'the real builder runs on every signal; an independent extended-precision evaluation of the documented filters, windows and frames decides',
     'Values are compared within 1e-6 relative or 1e-10 of the loudest value.',
     observe=['GammatoneSpectrogramBuilder::Build', 'EquivalentRectangularBandwidth::MakeFilters', 'AnalysisWindow::ApplyHannWindow'])

prop('C18', 'Levels are compared in decibels above common floors',
     'Before patches are taken, every value of both spectrograms becomes 10 log10 of its magnitude (zero counts as the smallest double step), is raised to -45 dB at least, then - in the frames both have - to at most 45 dB below the loudest band of either signal in that frame, '
     'and finally the lowest value of both is subtracted from both, so that the lowest level is 0. The roles of the two signals do not matter, and frames only one of them has are not raised by the other.',
     [I], 'all pairs of small spectrograms over alphabets of levels, of equal and different lengths; one value at every place of real sizes',
     'The tests prepare one pair of spectrograms.',
     ['src/misc_audio.cc', 'src/spectrogram.cc'],
     [('MiscAudio::PrepareSpectrogramsForComparison', 'src/misc_audio.cc'), ('Spectrogram::ConvertSampleToDb, RaiseFloor, RaiseFloorPerFrame, SubtractFloor, Minimum', 'src/spectrogram.cc')],
     STATELESS + 'the real preparation runs on every pair; an independent statement of the floors in extended precision decides',
     'Not-a-number values are outside the domain.',
     observe=['MiscAudio::PrepareSpectrogramsForComparison', 'Spectrogram::RaiseFloorPerFrame'])

prop('C19', 'Quality follows from the similarities by the mapping of the mode',
     'In audio mode the quality is the prediction of the support vector model in the model file for the 32 mean band similarities; in speech mode without the lattice model it is the fitted exponential of their mean, scaled so that 1 gives 5 unless unscaled is asked for; '
     'both limited to 1..5. It depends on nothing else, and in speech mode never falls when the mean rises. A comparison applies the mapping of its mode to the similarities it reports (quality 1 below a similarity of 0.15). '
     'A model file that is missing or unusable is an error that names it.',
     [I, C, F], 'all pairs of bands at grids of levels; every support vector; fine grids of means; all modes on families of signals; kinds of unusable model files',
     'The tests map a few vectors.',
     ['src/svr_similarity_to_quality_mapper.cc', 'src/support_vector_regression_model.cc', 'src/speech_similarity_to_quality_mapper.cc', 'src/misc_math.cc', 'src/visqol_manager.cc', 'src/visqol.cc'],
     [('SvrSimilarityToQualityMapper::PredictQuality', 'src/svr_similarity_to_quality_mapper.cc'), ('SupportVectorRegressionModel::Init, Predict', 'src/support_vector_regression_model.cc'),
      ('SpeechSimilarityToQualityMapper::PredictQuality', 'src/speech_similarity_to_quality_mapper.cc'), ('VisqolManager::InitSimilarityToQualityMapper', 'src/visqol_manager.cc')],
     STATELESS + 'the real mappers run on every vector; an independent reader and evaluation of the model file and the curve decide',
     'Vectors have 32 bands in audio mode; values compared within 1e-8.',
     observe=['SimilarityToQualityMapper::PredictQuality', 'VisqolManager::Run'])

prop('C20', 'The lattice model is asked exactly the reported similarities',
     'In speech mode with the lattice model, every one of the 84 per-band values of the result (mean, lowest tenth, deviation, energy; 21 bands) and the quantile 0.5 reach the model input of their name, whatever was asked before, and the model\'s answer is the quality. '
     'If any step of preparing the model fails, initialisation fails with an error, comparing is refused and initialising again works; only a refused accelerator is tolerated, without changing the answer. Nothing leaks.',
     [I, H, F], 'every feature at several values; all sequences of operations to a depth on two instances; all combinations of answers of the model library',
     'The tests ask the model one question, and this build cannot run them at all.',
     ['src/tflite_quality_mapper.cc', 'src/visqol_manager.cc', 'src/visqol.cc'],
     [('TFLiteQualityMapper::Init, PredictQuality', 'src/tflite_quality_mapper.cc'), ('VisqolManager::Init', 'src/visqol_manager.cc')],
     STATELESS + 'the real mapper runs against a stand-in of the model library that records its inputs and gives every combination of answers',
     'The model library is not installed; a stand-in reads the shipped model and evaluates it.',
     observe=['TFLiteQualityMapper::Init', 'TFLiteQualityMapper::PredictQuality', 'VisqolManager::Run'])

prop('C22', 'The library interface checks and carries out every configuration',
     'A configuration without audio information or sample rate, with a rate other than 48 kHz in audio mode without the override, or with a model file that cannot be used is refused with an error, and comparing is not possible with it; a configuration refused for its audio information leaves a working instance as it was. '
     'Every other one is accepted, and its results are bit for bit those of the comparison it describes: options not given have their defaults (audio mode, window radius 60, the model in the working directory that belongs to the mode). '
     'The samples handed over are not changed.',
     [I, H, C, F], 'all combinations of all fields; limits of the numbers; all sequences of configurations to a depth; all pairs of lengths from a set',
     'The tests create nine configurations.',
     ['src/visqol_api.cc', 'src/include/visqol_api.h', 'src/proto/visqol_config.proto', 'src/visqol_manager.cc'],
     [('VisqolApi::Create, Measure', 'src/visqol_api.cc'), ('VisqolManager::Init', 'src/visqol_manager.cc')],
     STATELESS + 'every configuration is created with the real interface, judged by the documented rules and compared with the manager initialised with their meaning',
     'At rates above 10 kHz only some of the accepted configurations are also compared (all in the thorough tier). Whether a speech configuration that needs no model file is accepted with a wrong path is left open.',
     state=[('sample_rate_', 'the rate of the signals', 'src/include/visqol_api.h')],
     observe=['VisqolApi::Create', 'VisqolApi::Measure'])

prop('C21', 'The delay estimator finds the shift at which two signals agree most',
     'For any two non-empty signals, of the same or different lengths, the delay found is a shift within the longer length at which their correlation is greatest (to single precision), with its sign. '
     'The Fourier transform it rests on gives, for a signal of any length, the spectrum of the signal followed by zeros up to the next power of two, at least 32 points; the inverse gives the signal back; and neither depends on earlier transforms or changes its input.',
     [I, H], 'all short signals over a small alphabet in pairs; all pulses and shifts at all lengths to a bound; lengths around every size of the transform; all sequences of transforms to a depth',
     'The tests transform one signal and correlate a handful.',
     ['src/xcorr.cc', 'src/fast_fourier_transform.cc', 'src/fft_manager.cc', 'src/misc_math.cc', 'src/include/audio_channel.h'],
     [('XCorr::FindLowestLagIndex', 'src/xcorr.cc'), ('FastFourierTransform::Forward1d, Inverse1d', 'src/fast_fourier_transform.cc'), ('FftManager', 'src/fft_manager.cc'), ('MiscMath::NextPowTwo', 'src/misc_math.cc')],
     STATELESS + 'the real estimator runs on every pair and is compared with the correlation computed by its definition',
     'Correlations closer than single precision count as equal. pffft is not installed; a stand-in with its interface and precision is used.',
     state=[('time_channel_, freq_channel_', 'the buffers of a transform', 'src/include/fft_manager.h')],
     observe=['XCorr::FindLowestLagIndex', 'FastFourierTransform::Forward1d', 'FastFourierTransform::Inverse1d'])

prop('C23', 'Regression models can be trained from data files',
     'Reading a training data file gives one row per line, in order, with exactly the numbers between the delimiters; what is not a number is left out and nothing else is. '
     'A model trained on observations and targets predicts what nu support vector regression with the documented parameters (radial kernel with gamma one over the number of features, cost 0.4, nu 0.6) gives for them. '
     'It needs neither the data nor any other model afterwards, gives the same answer again, and ends without leaving memory behind. A model file that cannot be read is an error that affects no other model.',
     [I, H, F], 'all rows of a few items and all files of a few rows; training sets of every size to a bound; all sequences of training, loading, predicting and ending to a depth',
     'The tests train once and accept any prediction within 2 of the expected one.',
     ['src/svr_training/training_data_file_reader.cc', 'src/support_vector_regression_model.cc', 'src/libsvm_target_observation_convertor.cc', 'src/include/misc_vector.h'],
     [('TrainingDataFileReader::Read', 'src/svr_training/training_data_file_reader.cc'), ('SupportVectorRegressionModel::Init, Predict', 'src/support_vector_regression_model.cc'),
      ('LibSvmTargetObservationConvertor', 'src/libsvm_target_observation_convertor.cc')],
     STATELESS + 'the real reader and models run on every case; the rows written and the regression library called directly decide',
     'libsvm, which both sides use, is taken to be right. All observations of a training set have the same number of features.',
     state=[('model_, observations_ptr_', 'the trained or loaded model and the data it points to', 'src/include/support_vector_regression_model.h')],
     observe=['SupportVectorRegressionModel::Predict', 'TrainingDataFileReader::Read'])

prop('C24', 'Matrix operations follow the rules of algebra, in any sequence',
     'Every matrix operation - arithmetic, transposing, flipping, joining, taking and setting rows, columns and subranges, resizing, means and deviations, comparing - gives the elements and shape the textbook says, for every shape and after every sequence of operations. '
     'Only the matrix it is called on changes, and only if it is an operation that changes it; a matrix owns its elements, so that neither a copy nor the data it was made from is connected with it. '
     'The same holds for arrays of complex numbers, two-dimensional filters (borders repeated) and the conversion of samples.',
     [I, H], 'all sequences of operations to a depth on several shapes; all shapes, subranges and filter sizes to a bound; all small matrices over an alphabet; all 65536 samples',
     'The tests filter one matrix and normalise a few numbers.',
     ['src/amatrix.cc', 'src/include/amatrix.h', 'src/include/complex_valarray.h', 'src/complex_valarray.cc', 'src/convolution_2d.cc', 'src/misc_vector.cc', 'src/misc_math.cc'],
     [('AMatrix', 'src/amatrix.cc'), ('ComplexValArray', 'src/include/complex_valarray.h'), ('Convolution2D', 'src/convolution_2d.cc'), ('MiscMath::Normalize', 'src/misc_math.cc')],
     STATELESS + 'the real matrix and a table of rows take every step together and must look the same after each',
     'Subranges stay within the matrix; at most 4 (5) operations in a row.',
     state=[('matrix_', 'the elements', 'src/include/amatrix.h')],
     observe=['AMatrix<double>', 'AMatrix<std::complex<double>>', 'ComplexValArray'])

prop('C25', 'The published conformance scores are reproduced, however they are asked for',
     'Each of the 20 comparisons of the conformance set gives its published score (version 333, to 0.0001), whether the files are given to the library by path, as signals, through the library interface, or to the program alone or in a batch, and whatever was compared before on the same instance.',
     [I, H, C], 'the whole published set; every way to make a comparison; all ordered pairs of comparisons of a mode on one instance',
     'The conformance tests compare each pair by path on a fresh instance, and this build cannot run them at all.',
     ['src/include/conformance.h', 'src/visqol_manager.cc', 'src/visqol_api.cc', 'src/main.cc', 'src/visqol.cc'],
     [('kConformance*', 'src/include/conformance.h'), ('VisqolManager::Run', 'src/visqol_manager.cc'), ('VisqolApi::Measure', 'src/visqol_api.cc')],
     STATELESS + 'the real library and program make every comparison in every way; the published numbers decide',
     'The set and the scores are those the project publishes; nothing is said about other files.',
     observe=['VisqolManager::Run', 'VisqolApi::Measure', 'visqol --results_csv'])
