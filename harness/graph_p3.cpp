#include "graph.hpp"
namespace g { std::unique_ptr<IGraph> make_mesh(int kind, const Nodes& b, const Chans& c) { using D = cler::DesktopTaskPolicy;
    switch (kind) {
    case 0: // source -> three sinks
        return mk<D>(R3(b[0], c[0], c[1], c[2]), R0(b[1]), R0(b[2]), R0(b[3]));
    case 1: // three sources -> joiner -> sink, deliberately listed in reverse order
        return mk<D>(R0(b[0]), R1(b[1], c[0]), R1(b[2], c[1]), R1(b[3], c[2]), R1(b[4], c[3]));
    case 2: // diamond: source -> split -> a, b -> join -> sink
        return mk<D>(R1(b[0], c[0]), R2(b[1], c[1], c[2]), R1(b[2], c[3]), R1(b[3], c[4]), R1(b[4], c[5]), R0(b[5]));
    case 3: // two sources, two splits, two joins, two chains, two sinks
        return mk<D>(R1(b[0], c[0]), R1(b[1], c[1]), R2(b[2], c[2], c[3]), R2(b[3], c[4], c[5]), R1(b[4], c[6]), R1(b[5], c[7]), R1(b[6], c[8]), R1(b[7], c[9]), R0(b[8]), R0(b[9]));
    } return nullptr; } }
