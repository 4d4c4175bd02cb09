// Reading and writing the storage of variables from outside of the simulation.
#ifndef STATE_H
#define STATE_H
#include "model.h"
#include "qk_api.h"
bool sane(const api::layout & l, const api::gridcfg & g, const api::varspec & v); // shape agrees with the request
arr read_layout(const api::layout & l);
void write_layout(const api::layout & l, const arr & a);
void set_values(arr & a, double gamma, int style, uint64_t seed);
bool same_bits(const std::vector<double> & a, const std::vector<double> & b);
std::string first_difference(const arr & a, const arr & b); // empty if bitwise equal
#endif
