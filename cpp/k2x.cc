// Bindings of the C++ deployment library (k2/torch/csrc) for the checks.
#include <torch/extension.h>
#include <torch/script.h>

#include <map>
#include <sstream>
#include <string>
#include <utility>
#include <vector>

#include "k2/csrc/fsa_algo.h"
#include "k2/csrc/fsa_utils.h"
#include "k2/csrc/ragged_ops.h"
#include "k2/torch/csrc/beam_search.h"
#include "k2/torch/csrc/decode.h"
#include "k2/torch/csrc/dense_fsa_vec.h"
#include "k2/torch/csrc/deserialization.h"
#include "k2/torch/csrc/fsa_algo.h"
#include "k2/torch/csrc/fsa_class.h"
#include "k2/torch/csrc/hypothesis.h"
#include "k2/torch/csrc/nbest.h"
#include "k2/torch/csrc/parse_options.h"
#include "k2/torch/csrc/symbol_table.h"
#include "k2/torch/csrc/torch_api.h"
#include "k2/torch/csrc/utils.h"
#include "k2/torch/csrc/wave_reader.h"

namespace py = pybind11;
using namespace k2;  // NOLINT
using Tensors = std::map<std::string, torch::Tensor>;
using Lists = std::map<std::string, std::vector<std::vector<int32_t>>>;

static Ragged<int32_t> FromLists(const std::vector<std::vector<int32_t>> &v) {
  std::vector<int32_t> splits{0}, values;
  for (auto &r : v) {
    values.insert(values.end(), r.begin(), r.end());
    splits.push_back(static_cast<int32_t>(values.size()));
  }
  Array1<int32_t> s(GetCpuContext(), splits), x(GetCpuContext(), values);
  return Ragged<int32_t>(RaggedShape2(&s, nullptr, x.Dim()), x);
}

// arcs: a 2-D tensor (one FSA) or the splits of two axes and a 2-D tensor
static FsaClass Make(torch::Tensor arcs, std::vector<std::vector<int32_t>> splits, Tensors attrs, Lists lists) {
  std::vector<Arc> v(arcs.size(0));
  auto a = arcs.contiguous();
  for (size_t i = 0; i < v.size(); ++i)
    memcpy(static_cast<void *>(&v[i]), a.data_ptr<int32_t>() + 4 * i, 16);
  Array1<Arc> values(GetCpuContext(), v);
  RaggedShape shape;
  Array1<int32_t> s1(GetCpuContext(), splits[0]);
  if (splits.size() == 1) {
    shape = RaggedShape2(&s1, nullptr, -1);
  } else {
    Array1<int32_t> s2(GetCpuContext(), splits[1]);
    shape = RaggedShape3(&s1, nullptr, -1, &s2, nullptr, -1);
  }
  FsaClass f(Ragged<Arc>(shape, values));
  for (auto &p : attrs) f.SetTensorAttr(p.first, p.second.clone());
  for (auto &p : lists) f.SetRaggedTensorAttr(p.first, FromLists(p.second));
  return f;
}

// (splits of every axis, arcs, tensor attributes, ragged attributes, properties)
static py::tuple Get(FsaClass &f) {
  std::vector<std::vector<int32_t>> splits;
  for (int32_t i = 1; i < f.fsa.NumAxes(); ++i) {
    auto s = f.fsa.RowSplits(i).To(GetCpuContext());
    splits.emplace_back(s.Data(), s.Data() + s.Dim());
  }
  torch::Tensor arcs = torch::empty({f.fsa.NumElements(), 4}, torch::kInt);
  if (f.fsa.NumElements()) memcpy(arcs.data_ptr<int32_t>(), f.fsa.values.Data(), 16 * f.fsa.NumElements());
  Tensors t;
  for (auto &p : f.tensor_attrs) t[p.first] = p.second.clone();
  Lists l;
  for (auto &p : f.ragged_tensor_attrs) l[p.first] = p.second.ToVecVec();
  return py::make_tuple(splits, arcs, t, l, f.Properties());
}

struct Stream {
  RnntStreamPtr p;
};
struct Streams {
  RnntStreamsPtr p;
};

static std::vector<int32_t> Vec(const Array1<int32_t> &a) { return std::vector<int32_t>(a.Data(), a.Data() + a.Dim()); }

PYBIND11_MODULE(k2x, m) {
  py::class_<FsaClass, FsaClassPtr>(m, "F")
      .def("get", &Get)
      .def("copy", [](FsaClass &f) { return FsaClass(f); })
      .def("labels", [](FsaClass &f) { return f.Labels().clone(); })
      .def("scores", [](FsaClass &f) { return f.Scores().clone(); })
      .def("set_labels", [](FsaClass &f, torch::Tensor t) { f.SetLabels(t); })
      .def("set_scores", [](FsaClass &f, torch::Tensor t) { f.SetScores(t); })
      .def("invert", [](FsaClass &f) { Invert(&f); })
      .def("arc_sort", [](FsaClass &f) { ArcSort(&f); })
      .def("connect", [](FsaClass &f) { Connect(&f); })
      .def("top_sort", [](FsaClass &f) { TopSort(&f); })
      .def("del", [](FsaClass &f, std::string n) { f.HasTensorAttr(n) ? f.DeleteTensorAttr(n) : f.DeleteRaggedTensorAttr(n); });
  py::class_<Nbest>(m, "Nbest")
      .def_readwrite("fsa", &Nbest::fsa)
      .def("splits", [](Nbest &n) { return Vec(n.shape.RowSplits(1)); })
      .def("intersect", [](Nbest &n, FsaClass f) { n.Intersect(&f); })
      .def("am", &Nbest::ComputeAmScores)
      .def("lm", &Nbest::ComputeLmScores)
      .def("str", &Nbest::ToString);
  m.def("make", &Make);
  m.def("load", [](std::string n) { return LoadFsa(n); });
  m.def("load_any", [](std::string n) { return Load(n); });
  m.def("load_api", [](std::string n) { return LoadFsaClass(n); });
  m.def("ctc_topo", [](int32_t n, bool mod, bool api) { return api ? *GetCtcTopo(n, mod) : CtcTopo(n, mod); });
  m.def("trivial_graph", [](int32_t n, bool api) { return api ? *GetTrivialGraph(n) : TrivialGraph(n); });
  m.def("dense", [](torch::Tensor x, torch::Tensor seg, int32_t trunc) {
    DenseFsaVec d = CreateDenseFsaVec(x, seg, trunc);
    return py::make_tuple(Vec(d.shape.RowSplits(1)), Array2ToTorch<float>(d.scores).clone());
  });
  m.def("segments", [](torch::Tensor seq, torch::Tensor start, torch::Tensor num, int32_t sub) {
    c10::impl::GenericDict d(c10::StringType::get(), c10::TensorType::get());
    d.insert("sequence_idx", seq);
    d.insert("start_frame", start);
    d.insert("num_frames", num);
    return GetSupervisionSegments(torch::IValue(d), sub);
  });
  m.def("get_lattice", [](torch::Tensor x, FsaClass &g, torch::Tensor seg, float sb, float ob, int32_t mn, int32_t mx, int32_t sub) {
    return GetLattice(x, g, seg, sb, ob, mn, mx, sub);
  });
  m.def("api_lattice", [](torch::Tensor x, torch::Tensor lens, FsaClassPtr g, float sb, float ob, int32_t mn, int32_t mx, int32_t sub) {
    return GetLattice(x, lens, g, sb, ob, mn, mx, sub);
  });
  m.def("pruned", [](FsaClass &g, torch::Tensor x, torch::Tensor seg, float sb, float ob, int32_t mn, int32_t mx, bool partial) {
    DenseFsaVec d = CreateDenseFsaVec(x, seg, 0);
    return IntersectDensePruned(g, d, sb, ob, mn, mx, partial);
  });
  m.def("shortest_path", [](FsaClass &f) { return ShortestPath(f); });
  m.def("api_shortest", [](FsaClassPtr f) { return ShortestPath(f); });
  m.def("best_path", [](FsaClassPtr f) { return BestPath(f); });
  m.def("texts", [](FsaClass &f) { return GetTexts(f).ToVecVec(); });
  m.def("best_paths", [](FsaClass &f, bool mx, int32_t n, float s) { return GetBestPaths(f, mx, n, s); });
  m.def("rescore", [](FsaClass &g, float scale, FsaClass &f) { WholeLatticeRescoring(g, scale, &f); });
  m.def("nbest", [](FsaClass &f, int32_t n, float scale) { return Nbest::FromLattice(f, n, scale); });
  m.def("intersect_device", [](FsaClass &a, FsaClass &b, std::vector<int32_t> map, bool sorted) {
    return IntersectDevice(a, b, Array1<int32_t>(GetCpuContext(), map), sorted);
  });
  m.def("linear_loops", [](FsaClass &f) { return LinearFsaWithSelfLoops(f); });
  m.def("tot_scores", [](FsaClass &f, bool log, bool dbl) {
    std::vector<double> v;
    if (dbl) {
      auto a = GetTotScores<double>(f, log);
      v.assign(a.Data(), a.Data() + a.Dim());
    } else {
      auto a = GetTotScores<float>(f, log);
      v.assign(a.Data(), a.Data() + a.Dim());
    }
    return v;
  });
  m.def("scale", [](FsaClassPtr f, float s, std::string n) { ScaleTensorAttribute(f, s, n); });
  m.def("get_attr", [](FsaClassPtr f, std::string n) { return GetTensorAttr(f, n).clone(); });
  m.def("set_attr", [](FsaClassPtr f, std::string n, torch::Tensor t) { SetTensorAttr(f, n, t); });

  // RNN-T streams through the deployment API
  py::class_<Stream>(m, "Stream");
  py::class_<Streams>(m, "Streams");
  m.def("stream", [](FsaClassPtr g) { return Stream{CreateRnntStream(g)}; });
  m.def("streams", [](std::vector<Stream> s, int32_t vocab, int32_t context, float beam, int32_t max_contexts, int32_t max_states) {
    std::vector<RnntStreamPtr> v;
    for (auto &x : s) v.push_back(x.p);
    return Streams{CreateRnntStreams(v, vocab, context, beam, max_contexts, max_states)};
  });
  m.def("contexts", [](Streams s) {
    auto p = GetRnntContexts(s.p);
    return py::make_tuple(RowSplits(p.first, 1).clone(), RowIds(p.first, 1).clone(), TotSize(p.first, 1), p.second.clone());
  });
  m.def("advance", [](Streams s, torch::Tensor x) { AdvanceRnntStreams(s.p, x); });
  m.def("flush", [](Streams s) { TerminateAndFlushRnntStreams(s.p); });
  m.def("format", [](Streams s, std::vector<int32_t> n, bool partial) { return FormatOutput(s.p, n, partial); });
  m.def("exclusive_sum", [](torch::Tensor a) {
    auto b = torch::empty_like(a);
    ExclusiveSum(a, &b);
    return b;
  });

  m.def("greedy", [](std::string file, torch::Tensor x, torch::Tensor lens) {
    auto mod = torch::jit::load(file);
    mod.eval();
    return GreedySearch(mod, x, lens);
  });
  m.def("beam", [](std::string file, torch::Tensor x, torch::Tensor lens, int32_t n) {
    auto mod = torch::jit::load(file);
    mod.eval();
    return ModifiedBeamSearch(mod, x, lens, n);
  });
  // adds hypotheses one by one; removes some; returns what is left and the best ones
  m.def("hyps", [](std::vector<std::pair<std::vector<int32_t>, double>> add, std::vector<std::vector<int32_t>> remove) {
    Hypotheses h;
    for (auto &p : add) h.Add(Hypothesis(p.first, p.second));
    for (auto &p : remove) h.Remove(Hypothesis(p, 0));
    std::vector<std::pair<std::vector<int32_t>, double>> all;
    for (auto &p : h.Vec()) all.emplace_back(p.ys, p.log_prob);
    py::object plain = py::none(), norm = py::none();
    if (h.Size()) {
      plain = py::cast(h.GetMostProbable(false).ys);
      norm = py::cast(h.GetMostProbable(true).ys);
    }
    return py::make_tuple(all, h.Size(), plain, norm);
  });
  m.def("symbols", [](std::string file, std::vector<int32_t> ids, std::vector<std::string> syms) {
    SymbolTable t(file);
    std::vector<py::bytes> a;
    for (auto i : ids) a.emplace_back(t.contains(i) ? t[i] : std::string("<missing>"));
    std::vector<int32_t> b;
    for (auto &s : syms) b.push_back(t.contains(s) ? t[s] : -12345);
    return py::make_tuple(a, b, py::bytes(t.ToString()));
  });
  m.def("wave", [](std::string file, bool stream) {
    if (stream) {
      std::ifstream is(file, std::ifstream::binary);
      WaveReader r(is);
      return py::make_tuple(r.Data(), r.SampleRate());
    }
    WaveReader r(file);
    return py::make_tuple(r.Data(), r.SampleRate());
  });
  m.def("waves", [](std::vector<std::string> files, float rate) { return ReadWave(files, rate); });
  m.def("options", [](std::vector<std::string> args) {
    ParseOptions po("usage");
    int32_t i = 7;
    uint32_t u = 8;
    float f = 0.5;
    double d = 0.25;
    bool b = false;
    std::string s = "default";
    po.Register("my-int", &i, "an int");
    po.Register("my-uint", &u, "an unsigned");
    po.Register("my-float", &f, "a float");
    po.Register("my-double", &d, "a double");
    po.Register("my-bool", &b, "a bool");
    po.Register("my-str", &s, "a string");
    std::vector<const char *> argv{"prog"};
    for (auto &a : args) argv.push_back(a.c_str());
    po.Read(static_cast<int32_t>(argv.size()), argv.data());
    std::vector<std::string> rest;
    for (int32_t k = 1; k <= po.NumArgs(); ++k) rest.push_back(po.GetArg(k));
    return py::make_tuple(i, u, f, d, b, py::bytes(s), rest);
  });
  m.def("index_select", [](torch::Tensor src, torch::Tensor idx, double def) -> torch::Tensor {
    if (src.scalar_type() == torch::kFloat) return IndexSelect<float>(src, idx, def).clone();
    if (src.scalar_type() == torch::kDouble) return IndexSelect<double>(src, idx, def).clone();
    return IndexSelect<int32_t>(src, idx, static_cast<int32_t>(def)).clone();
  });
}
