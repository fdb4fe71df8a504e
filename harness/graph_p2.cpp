#include "graph.hpp"
namespace g { std::unique_ptr<IGraph> make_chain_big(size_t n, const Nodes& b, const Chans& c) { using D = cler::DesktopTaskPolicy;
    switch (n) { case 12: return chain<D, 12>(b, c); case 20: return chain<D, 20>(b, c); } return nullptr; } }
