// Stand-ins for the pipeline's exchangeable parts, and helpers to run it.
#ifndef VERIF_CHECKS_PIPELINE_H_
#define VERIF_CHECKS_PIPELINE_H_
#include <memory>

#include "checks/common.h"
#include "comparison_patches_selector.h"
#include "similarity_result.h"
#include "similarity_to_quality_mapper.h"
#include "gammatone_filterbank.h"
#include "gammatone_spectrogram_builder.h"
#include "image_patch_creator.h"
#include "neurogram_similiarity_index_measure.h"
#include "vad_patch_creator.h"

namespace vt {
using Visqol::AMatrix;
using Visqol::AnalysisWindow;
using Visqol::AudioSignal;
using Visqol::ImagePatch;
using Visqol::PatchSimilarityResult;

inline AudioSignal ToSignal(const std::vector<double>& v, size_t rate) {
  AMatrix<double> m(v.size(), 1);
  for (size_t i = 0; i < v.size(); i++) m(i) = v[i];
  return AudioSignal{m, rate};
}
inline std::vector<double> FromSignal(const AudioSignal& s) { return s.data_matrix.ToVector(); }

// Returns a fixed quality and keeps what it was asked.
struct FakeMapper : Visqol::SimilarityToQualityMapper {
  double answer = 3.25;
  mutable std::vector<std::vector<double>> seen;
  mutable int calls = 0;
  double PredictQuality(const std::vector<double>& a, const std::vector<double>& b, const std::vector<double>& c,
                        const std::vector<double>& d) const override {
    seen = {a, b, c, d};
    calls++;
    return answer;
  }
  absl::Status Init() override { return absl::Status(); }
};
// Spectrograms given beforehand, by call order: reference first.
struct FakeBuilder : Visqol::SpectrogramBuilder {
  AMatrix<double> ref, deg;
  std::vector<double> centres;
  const double* ref_at = nullptr;  // unused
  size_t ref_rows = 0;             // the signal with this many samples is the reference
  absl::StatusOr<Visqol::Spectrogram> Build(const AudioSignal& s, const AnalysisWindow&) override {
    AMatrix<double> m = s.data_matrix.NumRows() == ref_rows ? ref : deg;
    Visqol::Spectrogram sp(std::move(m));
    sp.SetCenterFreqBands(centres);
    return sp;
  }
};
// A spectrogram column j holds kStep * j dB, so that a patch tells where it
// was taken from after the usual preparation.
constexpr double kStep = 0.001;
inline AMatrix<double> Numbered(int bands, int cols) {
  AMatrix<double> m(bands, cols);
  for (int b = 0; b < bands; b++)
    for (int j = 0; j < cols; j++) m(b, j) = pow(10, kStep * j / 10);
  return m;
}
inline int WhereFrom(const ImagePatch& p) { return static_cast<int>(lround(p(0, 0) / kStep)); }

inline std::unique_ptr<Visqol::SpectrogramBuilder> Gammatone(bool speech) {
  return std::make_unique<Visqol::GammatoneSpectrogramBuilder>(Visqol::GammatoneFilterBank{size_t(speech ? 21 : 32), 50.0}, speech);
}
inline std::unique_ptr<Visqol::ImagePatchCreator> Creator(bool speech) {
  if (speech) return std::make_unique<Visqol::VadPatchCreator>(20);
  return std::make_unique<Visqol::ImagePatchCreator>(30);
}
inline std::unique_ptr<Visqol::ComparisonPatchesSelector> Selector() {
  return std::make_unique<Visqol::ComparisonPatchesSelector>(std::make_unique<Visqol::NeurogramSimiliarityIndexMeasure>());
}
}  // namespace vt
#endif
