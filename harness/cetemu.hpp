#ifndef VERIF_CETEMU_HPP
#define VERIF_CETEMU_HPP
extern "C" { int cet_regions_may_stay(); void cet_report(); void cet_fail_map( int); unsigned long cet_ssp(); unsigned cet_live(); }
#endif
