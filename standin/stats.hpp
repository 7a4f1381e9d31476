// Stand-in for the statistics library, which is absent here; nothing of it is
// used by the code that is checked.
#ifndef MC_STANDIN_STATS_HPP
#define MC_STANDIN_STATS_HPP
#endif
