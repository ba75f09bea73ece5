// Replays programs drawn from spec/Diagrams.tla on the decision-diagram package (include/dd) and prints what it computes.
#include "dd/MDDPackage.hpp"

#include <complex>
#include <cstdio>
#include <functional>
#include <iostream>
#include <string>
#include <unordered_set>
#include <vector>

using namespace dd;
using Pkg = MDDPackage;
using V = Pkg::vEdge;
using M = Pkg::mEdge;

static std::string out;
template <class... A> static void put(const char* f, A... a) {
  char buf[256];
  std::snprintf(buf, sizeof buf, f, a...);
  out += buf;
}
static void put(const char* f) { out += f; }
static void cnum(double r, double i) { put("[%.17g,%.17g]", r, i); }
static void cvec(const CVec& v) {
  put("[");
  for (std::size_t i = 0; i < v.size(); ++i) { if (i) put(","); cnum(v[i].real(), v[i].imag()); }
  put("]");
}

struct Gate {
  std::string kind;
  int target = 0, control = 0;
  bool dag = false;
  std::vector<std::pair<int, int>> ctl;
  std::vector<ComplexValue> mat;
  int level = 0, la = 0, lb = 0;
  double phi = 0;
};

static Gate readGate() {
  Gate g;
  int dag = 0;
  std::cin >> g.kind >> g.target >> dag;
  g.dag = dag != 0;
  if (g.kind == "csum") {
    std::cin >> g.control;
  } else if (g.kind == "cex") {
    std::cin >> g.control >> g.level >> g.phi >> g.la >> g.lb;
  } else {
    int n = 0, k = 0;
    std::cin >> k;
    for (int i = 0; i < k; ++i) { int r, l; std::cin >> r >> l; g.ctl.emplace_back(r, l); }
    std::cin >> n;
    for (int i = 0; i < n; ++i) { double r, im; std::cin >> r >> im; g.mat.push_back({r, im}); }
  }
  return g;
}

int main() {
  std::string word;
  while (std::cin >> word) {
    if (word != "rec") { std::fprintf(stderr, "bad input %s\n", word.c_str()); return 3; }
    int id, n, matrices;
    std::cin >> id >> n >> matrices;
    std::vector<std::size_t> sizes(n);
    for (auto& s : sizes) std::cin >> s;
    std::vector<Gate> progs[2];
    for (auto& p : progs) { int k; std::cin >> k; for (int i = 0; i < k; ++i) p.push_back(readGate()); }
    int ns; std::cin >> ns;
    std::vector<QuantumRegister> lines;
    for (int i = 0; i < ns; ++i) { int l; std::cin >> l; lines.push_back(static_cast<QuantumRegister>(l)); }

    out.clear(); put("{\"id\":%d", id);
    try {
      auto dd = std::make_unique<Pkg>(static_cast<std::size_t>(n), sizes);
      const auto nr = static_cast<QuantumRegisterCount>(n);
      std::size_t dim = 1; for (auto s : sizes) dim *= s;
      auto edge = [&](const Gate& g) -> M {
        const auto t = static_cast<QuantumRegister>(g.target), c = static_cast<QuantumRegister>(g.control);
        if (g.kind == "csum") return dd->csum(nr, c, t, g.dag);
        if (g.kind == "cex") return dd->cex(nr, static_cast<Control::Type>(g.level), g.phi, g.la, g.lb, c, t, g.dag);
        Controls cs;
        for (auto [r, l] : g.ctl) cs.insert(Control{static_cast<QuantumRegister>(r), static_cast<Control::Type>(l)});
        auto m = dd->makeGateDD(g.mat, nr, cs, t);
        return g.dag ? dd->conjugateTranspose(m) : m;
      };
      auto count = [&](const auto& e) { std::unordered_set<decltype(e.nextNode)> seen; return dd->nodeCount(e, seen); };
      auto close = [](const Complex& w, double r, double i) { return std::abs(CTEntry::val(w.real) - r) < 1e-9 && std::abs(CTEntry::val(w.img) - i) < 1e-9; };
      auto entries = [&](const M& m) {
        CVec out;
        for (std::size_t i = 0; i < dim; ++i) for (std::size_t j = 0; j < dim; ++j) {
          auto ri = dd->getReprOfIndex(i, dim), rj = dd->getReprOfIndex(j, dim);
          auto c = dd->getValueByPath(m, ri, rj);
          out.emplace_back(c.r, c.i);
        }
        return out;
      };
      auto bypath = [&](const V& v) {
        CVec out;
        for (std::size_t i = 0; i < dim; ++i) { auto r = dd->getReprOfIndex(i, dim); auto c = dd->getValueByPath(v, r); out.emplace_back(c.r, c.i); }
        return out;
      };
      V st[2]; M op[2];
      const auto zero = dd->makeZeroState(nr);
      for (int s = 0; s < 2; ++s) {
        const char* side = s == 0 ? "left" : "right";
        V v = dd->makeZeroState(nr);
        M m = dd->makeIdent(nr);
        for (const auto& g : progs[s]) { auto e = edge(g); v = dd->multiply(e, v); if (matrices) m = dd->multiply(e, m); }
        st[s] = v; op[s] = m;
        put(",\"%s\":{\"v\":", side); cvec(dd->getVector(v));
        put(",\"path\":"); cvec(bypath(v));
        put(",\"nodes\":%u", count(v));
        V u = v;
        for (auto it = progs[s].rbegin(); it != progs[s].rend(); ++it) u = dd->multiply(dd->conjugateTranspose(edge(*it)), u);
        put(",\"echo\":"); cvec(dd->getVector(u));
        put(",\"home\":%s", (u.nextNode == zero.nextNode && close(u.weight, 1, 0)) ? "true" : "false");
        V again = dd->makeZeroState(nr);
        for (const auto& g : progs[s]) again = dd->multiply(edge(g), again);
        put(",\"again\":%s", (again == v) ? "true" : "false");
        if (matrices) {
          put(",\"m\":"); cvec(entries(m));
          put(",\"mnodes\":%u", count(m));
          auto mv = dd->multiply(m, zero);
          put(",\"mv\":"); cvec(dd->getVector(mv));
          put(",\"samenode\":%s", mv.nextNode == v.nextNode ? "true" : "false");
          auto d = dd->conjugateTranspose(m);
          put(",\"md\":"); cvec(entries(d));
          auto t = dd->transpose(m);
          put(",\"mt\":"); cvec(entries(t));
          auto id1 = dd->multiply(d, m);
          put(",\"unit\":"); cvec(entries(id1));
          auto one = dd->makeIdent(nr);
          // the same operator multiplied up from the other end, and undone twice
          M far = dd->makeIdent(nr);
          for (auto it = progs[s].rbegin(); it != progs[s].rend(); ++it) far = dd->multiply(far, edge(*it));
          put(",\"farnode\":%s", far.nextNode == m.nextNode ? "true" : "false");
          auto dag = dd->makeIdent(nr);
          for (const auto& g : progs[s]) dag = dd->multiply(dag, dd->conjugateTranspose(edge(g)));
          put(",\"dagnode\":%s", dag.nextNode == d.nextNode ? "true" : "false");
          put(",\"backnode\":%s", dd->conjugateTranspose(d).nextNode == m.nextNode ? "true" : "false");
          put(",\"unitnode\":%s", (id1.nextNode == one.nextNode && close(id1.weight, 1, 0)) ? "true" : "false");
        }
        put("}");
      }
      auto sum = dd->add(st[0], st[1]);
      put(",\"sum\":"); cvec(dd->getVector(sum));
      put(",\"sumnodes\":%u", count(sum));
      auto mus = dd->add(st[1], st[0]);
      put(",\"mus\":"); cvec(dd->getVector(mus));
      put(",\"comm\":%s", mus.nextNode == sum.nextNode ? "true" : "false");
      auto ip = dd->innerProduct(st[0], st[1]);
      put(",\"inner\":"); cnum(ip.r, ip.i);
      auto pi = dd->innerProduct(st[1], st[0]);
      put(",\"renni\":"); cnum(pi.r, pi.i);
      put(",\"fid\":%.17g", dd->fidelity(st[0], st[1]));
      if (matrices) {
        auto ab = dd->multiply(op[0], op[1]);
        put(",\"ab\":"); cvec(entries(ab));
        put(",\"abnodes\":%u", count(ab));
        auto ms = dd->add(op[0], op[1]);
        put(",\"msum\":"); cvec(entries(ms));
      }
      if (ns > 0) {
        V sp = st[0];
        sp = ns == 2 ? dd->spread2(nr, lines, sp) : ns == 3 ? dd->spread3(nr, lines, sp) : dd->spread5(nr, lines, sp);
        put(",\"spread\":"); cvec(dd->getVector(sp));
      }
      // every basis state is a chain that getVector maps to a unit vector
      bool chains = true;
      for (std::size_t i = 0; i < dim; ++i) {
        auto r = dd->getReprOfIndex(i, dim);
        std::vector<std::size_t> lsb(r.rbegin(), r.rend());
        auto b = dd->makeBasisState(nr, lsb);
        auto v = dd->getVector(b);
        for (std::size_t j = 0; j < dim; ++j) chains = chains && std::abs(v[j] - std::complex<double>(i == j ? 1 : 0, 0)) < 1e-12;
        chains = chains && count(b) == static_cast<unsigned>(n) + 1;
      }
      put(",\"chains\":%s", chains ? "true" : "false");
      // tensor products on a register that repeats this one
      std::vector<std::size_t> twice(sizes); twice.insert(twice.end(), sizes.begin(), sizes.end());
      auto big = std::make_unique<Pkg>(static_cast<std::size_t>(2 * n), twice);
      V kv[2]; M km[2];
      dd.swap(big);
      for (int s = 0; s < 2; ++s) {
        kv[s] = dd->makeZeroState(nr); km[s] = dd->makeIdent(nr);
        for (const auto& g : progs[s]) { auto e = edge(g); kv[s] = dd->multiply(e, kv[s]); if (matrices) km[s] = dd->multiply(e, km[s]); }
      }
      if (dim <= 12) {
        put(",\"kron\":"); cvec(dd->getVector(dd->kronecker(kv[0], kv[1])));
        if (matrices) {
          auto act = [&](const char* name, const M& m) {
            auto start = dd->kronecker(kv[1], kv[0]);
            put(",\"%s\":", name); cvec(dd->getVector(dd->multiply(m, start)));
          };
          act("mkron", dd->kronecker(km[0], km[1]));
          act("top", dd->kronecker(km[0], dd->makeIdent(nr)));
          act("bottom", dd->kronecker(dd->makeIdent(nr), km[1]));
          act("ext", dd->extend(km[0], static_cast<QuantumRegister>(n), 0));
          // an identity that carries a factor
          auto half = dd->makeIdent(nr);
          half.weight = dd->complexNumber.lookup(0.5, 0.25);
          act("factor", dd->kronecker(half, km[1]));
        }
      }
      dd.swap(big);
    } catch (const std::exception& e) {
      std::string w = e.what();
      for (auto& ch : w) if (ch == '"' || ch == '\\' || ch == '\n') ch = ' ';
      out = "{\"id\":" + std::to_string(id) + ",\"error\":\"" + w + "\"";
    }
    std::printf("%s}\n", out.c_str());
    std::fflush(stdout);
  }
  return 0;
}
