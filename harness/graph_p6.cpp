#include "graph.hpp"
namespace g { std::unique_ptr<IGraph> make_indep_big(size_t n, const Nodes& b) { using D = cler::DesktopTaskPolicy;
    switch (n) { case 17: return indep<D, 17>(b); case 40: return indep<D, 40>(b); } return nullptr; } }
