#include "common.hpp"
#include "mythical/charge_transport/marcus.hpp"
using namespace vf;
using mythical::charge_transport::Marcus;

static const double KB = 8.617333262145e-5, HB = 6.582119569e-16, PI = 3.14159265358979323846;

static double refLog(double lam, double T, double Ei, double Ej, double H) {
  double e = lam + (Ej - Ei);
  return std::log(2 * PI / HB) + 2 * std::log(std::fabs(H)) - 0.5 * std::log(4 * PI * KB * T) - e * e / (4 * lam * KB * T);
}

WORKLOAD(C20, formula, 4) {
  Rng& r = c.rng;
  for (int t = 0; t < 40; ++t) {
    double lam = r.logu(1e-4, 20), T = r.logu(0.5, 5000);
    Marcus m(lam, T);
    for (int k = 0; k < 10; ++k) {
      double off = r.chance(0.3) ? r.flat(-100, 100) : 0;
      double Ei = off + r.flat(-3, 3), Ej = off + r.flat(-3, 3);
      // keep the exponent in the range of double most of the time
      if (r.chance(0.7)) Ej = Ei - lam + r.flat(-1, 1) * std::sqrt(4 * lam * KB * T) * r.flat(0, 12);
      double H = r.logu(1e-8, 10) * (r.chance(0.5) ? -1 : 1);
      double k1 = m.getRate(Ei, Ej, H);
      double want = refLog(lam, T, Ei, Ej, H);
      std::string at = Msg() << "lambda " << lam << " T " << T << " Ei " << Ei << " Ej " << Ej << " H " << H;
      REQUIRE_THAT(std::isfinite(k1) && k1 >= 0, "negative", "rate " << k1 << " for " << at);
      double ex = std::pow(lam + Ej - Ei, 2) / (4 * lam * KB * T);
      if (want > -690 && ex < 690) {
        REQUIRE_THAT(k1 > 0, "zero", "rate is zero for " << at);
        // rounding of the energies amplified by the exponent
        double amp = 4e-16 * (std::fabs(Ei) + std::fabs(Ej) + lam) * std::fabs(lam + Ej - Ei) / (2 * lam * KB * T) + 4e-16 * std::pow(lam + Ej - Ei, 2) / (4 * lam * KB * T);
        REQUIRE_THAT(std::fabs(std::log(k1) - want) <= 1e-6 + 8 * amp, "formula", "rate " << k1 << " instead of exp(" << want << ") for " << at);
        c.event("rates-compared");
      } else {
        REQUIRE_THAT(k1 < 1e-270, "formula", "rate " << k1 << " should vanish for " << at);
        c.event("vanishing-rates");
      }
      // detailed balance
      double k2 = m.getRate(Ej, Ei, H);
      double w2 = refLog(lam, T, Ej, Ei, H);
      if (want > -650 && w2 > -650 && ex < 690 && std::pow(lam + Ei - Ej, 2) / (4 * lam * KB * T) < 690) {
        double amp = 4e-16 * (std::fabs(Ei) + std::fabs(Ej) + lam) * (lam + std::fabs(Ej - Ei)) / (lam * KB * T) + 4e-16 * std::pow(lam + std::fabs(Ej - Ei), 2) / (2 * lam * KB * T);
        REQUIRE_THAT(std::fabs(std::log(k1) - std::log(k2) + (Ej - Ei) / (KB * T)) <= 1e-9 * (1 + std::fabs(Ej - Ei) / (KB * T)) + 8 * amp, "detailed-balance", "forward/backward ratio " << k1 / k2 << " for " << at);
        c.event("detailed-balance");
      }
      // magnitude of the coupling only, quadratic in it
      REQUIRE_THAT(close(m.getRate(Ei, Ej, -H), k1, 1e-12), "coupling-sign", "rate depends on the sign of the coupling for " << at);
      if (k1 > 1e-280 && ex < 690) REQUIRE_THAT(close(m.getRate(Ei, Ej, 2 * H), 4 * k1, 1e-12), "coupling-square", "doubling the coupling does not quadruple the rate for " << at);
      REQUIRE_THAT(m.getRate(Ei, Ej, 0.0) == 0, "no-coupling", "rate without coupling for " << at);
      // depends on the energy difference only; a power-of-two shift is exact here
      double g = std::ldexp(std::floor(std::ldexp(Ej - Ei, 20)), -20);
      double s = std::ldexp((double)r.range(-4096, 4096), -6);
      double sh = m.getRate(s, s + g, H), un = m.getRate(0, g, H);
      double amps = 4e-16 * (2 * std::fabs(s) + std::fabs(g) + lam) * std::fabs(lam + g) / (2 * lam * KB * T) + 4e-16 * std::pow(lam + g, 2) / (4 * lam * KB * T);
      if (sh > 1e-270 && un > 1e-270) REQUIRE_THAT(std::fabs(std::log(sh / un)) <= 1e-10 + 8 * amps, "energy-shift", "shifting both energies by " << s << " changes the rate for difference " << g << " from " << un << " to " << sh << ", " << at);
      // optimum where the driving force cancels the reorganisation energy
      double opt = m.getRate(lam, 0.0, H);
      REQUIRE_THAT(k1 <= opt * (1 + 1e-12), "optimum", "rate " << k1 << " exceeds the optimum " << opt << " for " << at);
      c.event("relations-checked", 5);
    }
    c.mixsig(lam);
    c.mixsig(T);
  }
  c.nontrivial = true;
  if (c.index % 40 == 0) c.sample = "40 parameter pairs, 10 energy/coupling choices each";
}

// several objects do not influence each other, copies agree
WORKLOAD(C20, objects, 1) {
  Rng& r = c.rng;
  std::vector<Marcus> v;
  std::vector<std::pair<double, double>> par;
  for (int i = 0; i < 8; ++i) {
    par.emplace_back(r.logu(1e-2, 2), r.logu(50, 600));
    v.emplace_back(par.back().first, par.back().second);
  }
  for (int i = 0; i < 200; ++i) {
    size_t k = (size_t)r.range(0, 7);
    double Ei = r.flat(-1, 1) * 0.2, Ej = r.flat(-1, 1) * 0.2, H = r.logu(1e-4, 1);
    double want = refLog(par[k].first, par[k].second, Ei, Ej, H);
    double got = v[k].getRate(Ei, Ej, H);
    if (want > -600) REQUIRE_THAT(std::fabs(std::log(got) - want) < 2e-6, "formula", "rate of object " << k << " is " << got << " instead of exp(" << want << ")");
    c.event("rates-compared");
  }
  c.mixsig(par[0].first);
  c.nontrivial = true;
}
