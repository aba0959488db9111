// Histories of source iterators (CStringIterator, SrcIterator, IStreamIterator): characters, positions and distances against offsets.
#ifndef SIM_ITER_HPP
#define SIM_ITER_HPP
#include "core.hpp"
namespace sim {
Plan generateIter( Rng& rng);
bool isIterPlan( const Plan& p);
void executeIter( const Plan& p);
}
#endif
