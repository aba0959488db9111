#include "path.hpp"
namespace sim {
AtmBox* makeAtm_0( int); AtmBox* makeAtm_1( int); AtmBox* makeAtm_2( int); AtmBox* makeAtm_3( int);
AtmBox* makeAtm( int atm, int psrc)
{
	switch (atm) { case 1: return makeAtm_1( psrc); case 2: return makeAtm_2( psrc); case 3: return makeAtm_3( psrc); }
	return makeAtm_0( psrc);
}
}
