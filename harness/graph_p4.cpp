#include "graph.hpp"
namespace g { std::unique_ptr<IGraph> make_indep_desk(size_t n, const Nodes& b) { using D = cler::DesktopTaskPolicy;
    switch (n) { case 1: return indep<D, 1>(b); case 2: return indep<D, 2>(b); case 3: return indep<D, 3>(b); case 5: return indep<D, 5>(b); case 9: return indep<D, 9>(b); } return nullptr; } }
