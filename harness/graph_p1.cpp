#include "graph.hpp"
namespace g { std::unique_ptr<IGraph> make_chain_small(size_t n, const Nodes& b, const Chans& c) { using D = cler::DesktopTaskPolicy;
    switch (n) { case 2: return chain<D, 2>(b, c); case 3: return chain<D, 3>(b, c); case 5: return chain<D, 5>(b, c); } return nullptr; } }
